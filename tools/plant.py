#!/usr/bin/env python3
"""Confirms planted bugs (seeded/<id>) in a scratch copy of /repo bind-mounted over /repo in a private mount namespace.

  plant.py ID...            build, stable tests, demo on the patched copy; demo on the clean copy; then the property's check (VERIF_REPO=copy)
  plant.py --nocheck / --notests / --checkonly
The scratch copy is /tmp/mut/repo (created with cp -a when missing; remove it when done)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = '/tmp/mut/repo'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def inns(cmd, t=900):
    return sh("unshare -m bash -c 'mount --bind %s /repo && cd /repo && %s'" % (C, cmd), timeout=t)


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('--')]
    opt = [a for a in sys.argv[1:] if a.startswith('--')]
    if not os.path.isdir(C):
        os.makedirs('/tmp/mut', exist_ok=True)
        sh('cp -a /repo ' + C)
    head = sh('git -C /repo rev-parse HEAD').stdout.strip()
    sh('git -C %s checkout -q -- . ; git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (C, C, C))
    stable = set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json'))['stable'])
    bad = 0
    for i in ids:
        d = os.path.join(V, 'seeded', i)
        meta = json.load(open(d + '/meta.json'))
        res = []
        if '--checkonly' not in opt:
            sh('rm -rf /tmp/mut/demo && mkdir -p /tmp/mut/demo && cp -r %s/. /tmp/mut/demo/ && rm -f /tmp/mut/demo/patch.diff /tmp/mut/demo/meta.json' % d)
            r = inns('bash /tmp/mut/demo/demo.sh', 300)
            res.append('clean demo %d%s' % (r.returncode, '' if r.returncode == 0 else ' BAD ' + r.stdout[-500:]))
        a = sh('git -C %s apply %s/patch.diff' % (C, d))
        if a.returncode:
            print(i, 'does not apply', a.stdout); bad += 1; continue
        try:
            if '--checkonly' not in opt:
                if '--notests' not in opt:
                    r = inns('bash /opt/vp/build.sh >/tmp/mut/build.log 2>&1 && bash /opt/vp/test.sh /tmp/mut/out.json >/tmp/mut/test.log 2>&1; echo rc $?', 3000)
                    p = set(json.load(open('/tmp/mut/out.json'))['passed']) if os.path.exists('/tmp/mut/out.json') else set()
                    miss = sorted(stable - p)
                    res.append('tests %s' % ('pass' if not miss else 'BAD %d missing %s' % (len(miss), miss[:5])))
                    sh('rm -f /tmp/mut/out.json')
                r = inns('bash /tmp/mut/demo/demo.sh', 300)
                res.append('patched demo %d%s' % (r.returncode, '' if r.returncode else ' BAD'))
            if '--nocheck' not in opt:
                r = sh('VERIF_SEED=1 VERIF_TIER=quick VERIF_REPO=%s python3 run.py %s' % (C, meta['property']), cwd=V)
                v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
                k = [l.strip()[:160] for l in r.stdout.split('\n') if l.startswith('  ')]
                res.append('check %s exit %d %s %s' % (meta['property'], r.returncode, 'CAUGHT' if r.returncode == 1 and v else 'MISSED ' + r.stdout[-300:], k[:1]))
        finally:
            sh('git -C %s checkout -q -- .' % C)
        print(i, '|', ' | '.join(res))
        sys.stdout.flush()
    sys.exit(bad)


main()
