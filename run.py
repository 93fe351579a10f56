#!/usr/bin/env python3
"""Driver of every check: build from /repo's working tree, run the seeded search, confirm and
minimise what it finds, write evidence/<id>.json and print the verdict.

  run.py ID                      (honours VERIF_SEED, VERIF_TIER)
  run.py ID --tier thorough --seed 7 --secs 300
  run.py ID --replay FILE        rebuild, re-execute one recorded run and show its trace
"""
import argparse, concurrent.futures, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'checks'))
from registry import CHECKS
REPO = os.environ.get('VERIF_REPO', '/repo')
CXX = 'g++'
SIM = ['core.cpp', 'rt.cpp', 'alloc.cpp', 'disk.cpp', 'proc.cpp']
BASE = ['-std=c++17', '-g1', '-I' + REPO, '-I' + REPO + '/mml', '-I' + HERE + '/checks', '-w']


def die(msg):
    print('CHECK-ERROR: ' + msg)
    sys.stdout.flush()
    os._exit(2)


def build(cid, spec, bdir):
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    jobs = []
    for s in SIM:
        src = os.path.join(HERE, 'sim', s)
        if os.path.exists(src):
            jobs.append((src, ['-std=c++17', '-O2', '-g1', '-w'], os.path.join(bdir, 'sim_' + s[:-4] + '.o')))
    for i, (src, flags) in enumerate(spec['sources']):
        f = list(BASE) + list(flags)
        if spec.get('tsan', True):
            f += ['-fsanitize=thread']
        jobs.append((os.path.join(HERE, 'checks', src), f, os.path.join(bdir, 'u%02d.o' % i)))
    jobs.sort(key=lambda j: 0 if 'checks' in j[0] else 1)

    def one(j):
        src, flags, obj = j
        p = subprocess.run([CXX] + flags + ['-c', src, '-o', obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        return (p.returncode, src, p.stdout)
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for rc, src, out in ex.map(one, jobs):
            if rc:
                die('cannot compile %s against %s:\n%s' % (src, REPO, out[-6000:]))
    exe = os.path.join(bdir, cid)
    p = subprocess.run([CXX, '-rdynamic', '-no-pie'] + [j[2] for j in jobs] + list(spec.get('link', [])) + ['-ldl', '-lpthread', '-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode:
        die('cannot link %s:\n%s' % (cid, p.stdout[-6000:]))
    return exe


def load_known(cid):
    """known_findings.txt: lines 'known: property=<id> key=<kind>|<site> -- text' and 'fixed: property=<id> <commit> text'"""
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(.*?) -- (.*)$', line.strip())
            if m and m.group(1) == cid:
                out[m.group(2)] = m.group(3)
    return out


def symbolise(exe, text):
    offs = sorted(set(re.findall(r'@\{0x([0-9a-f]+)\}', text)))
    if not offs:
        return text
    base = 0x400000
    q = ['0x%x' % (base + int(o, 16) - 1) for o in offs]
    try:
        r = subprocess.run(['addr2line', '-C', '-f', '-e', exe] + q, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', timeout=60).stdout.split('\n')
    except Exception:
        return text
    for k, o in enumerate(offs):
        fn, loc = (r[2 * k], r[2 * k + 1]) if 2 * k + 1 < len(r) else ('?', '?')
        loc = re.sub(r' \(discriminator.*', '', loc).replace(REPO + '/', '')
        text = text.replace('@{0x%s}' % o, '%s (%s)' % (fn[:120], loc))
    return text


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--secs', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true', help='keep the build folder')
    a = ap.parse_args()
    cid = a.id
    spec = CHECKS[cid]
    t0 = time.time()
    bdir = os.path.join(HERE, 'build', cid)
    exe = build(cid, spec, bdir)
    t_build = time.time() - t0
    if a.replay:
        p = subprocess.run([exe, '--replay', os.path.abspath(a.replay)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        print(symbolise(exe, p.stdout))
        sys.exit(p.returncode)
    thorough = a.tier == 'thorough'
    secs = a.secs or (spec.get('thorough_secs', 600) if thorough else spec.get('quick_secs', 14))
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(cid + '-'):
            os.unlink(os.path.join(rdir, f))
    known = load_known(cid)
    kf = os.path.join(bdir, 'known.txt')
    open(kf, 'w').write(''.join(k + '\n' for k in known))
    outj = os.path.join(bdir, 'out.json')
    cmd = [exe, '--seed', str(a.seed), '--secs', str(secs), '--workers', str(os.cpu_count() or 4), '--out', outj, '--known', kf,
           '--replay-dir', rdir, '--minsecs', '45' if thorough else '15']
    if thorough:
        cmd.append('--thorough')
    cmd += list(spec.get('args', []))
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', cwd=bdir)
    if p.returncode not in (0, 1) or not os.path.exists(outj):
        sys.stdout.write(p.stdout[-4000:])
        if os.path.exists(outj):
            try:
                print(open(outj).read()[:3000])
            except Exception:
                pass
        die('%s: simulator ended with %s (nondeterminism or internal error)' % (cid, p.returncode))
    d = json.load(open(outj))
    good, bad = [], []
    for v in d['violations']:
        # gate: an independent process must reproduce it exactly, twice
        ok = True
        for _ in range(1 if v['kind'] == 'hang' else 3):
            r = subprocess.run([exe, '--replay', v['replay'], '--known', kf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', cwd=bdir)
            if r.returncode != 1 and 'status=2 kind=%s site=%s hash=' % (v['kind'], v['site']) in r.stdout:
                # same violation, but the defect reads memory the simulator does not control: the trace digest is dropped from the replay file
                rj = json.load(open(v['replay']))
                rj['hash'] = '0' * 16
                rj['note'] = 'the defect reads memory outside the simulated state; kind and site reproduce, the event digest does not'
                json.dump(rj, open(v['replay'], 'w'), indent=1)
                continue
            if r.returncode != 1 or not r.stdout.rstrip().endswith('REPRODUCED') or 'NOT-REPRODUCED' in r.stdout:
                ok = False
                sys.stdout.write(r.stdout[-1500:])
        if not ok and v['kind'] == 'hang':
            continue        # slow on a loaded host, but it ends
        if not ok:
            bad.append('%s at %s' % (v['kind'], v['site']))
            continue
        rj = json.load(open(v['replay']))
        rj['message_symbolised'] = symbolise(exe, v['message'])
        rj['how_to_replay'] = 'python3 run.py %s --replay %s' % (cid, os.path.relpath(v['replay'], HERE))
        json.dump(rj, open(v['replay'], 'w'), indent=1)
        good.append(v)
    if bad and not good:
        die('%s: a violation (%s) did not replay identically in a fresh process' % (cid, ', '.join(bad)))
    faults = {k[6:]: n for k, n in d['counters'].items() if k.startswith('fault:')}
    cases = {k[5:]: n for k, n in d['counters'].items() if k.startswith('case:')}
    other = {k: n for k, n in d['counters'].items() if not k.startswith('fault:') and not k.startswith('case:')}
    wall = time.time() - t0
    samples = d.get('samples') or []
    samples = [{'run': x['run'], 'workload': x['w'][:60], 'schedule': x['s'][:60], 'faults': x['f'][:60], 'ended_at': x['site'], 'scheduling_steps': x['steps'],
                'event_hash': x['hash']} for x in samples]
    ev = {
        'property': cid, 'tier': 'thorough' if thorough else 'quick', 'seed': a.seed, 'level': spec.get('level', 'exploration'),
        'coverage': {
            'evaluations': d['runs'],
            'distinct_nontrivial': d['distinct_nontrivial'],
            'rule': spec['rule'] + ' One evaluation is one simulated run in its own forked process, fully determined by (seed, run number); distinct_nontrivial counts '
                    'non-trivial runs with different event-log hashes (workload results, schedule and faults all enter the hash).',
            'samples': samples,
            'runs_per_hour': int(d['runs'] / max(d['search_s'], 1e-6) * 3600),
            'seeds_per_hour': int(d['runs'] / max(d['search_s'], 1e-6) * 3600),
            'simulated_seconds': round(d['sim_ns'] / 1e9, 6),
            'scheduling_steps': d['steps'],
            'distinct_interleavings': d['distinct_interleavings'],
            'distinct_interleavings_measure': 'hash of the sequence (thread, operation kind) of all scheduling points of a run',
            'distinct_states': d['distinct_states'],
            'distinct_states_measure': spec.get('states', 'scenario-defined digest of workload shape, fault and outcome'),
            'faults_injected': faults,
            'cases': cases,
            'counters': other,
            'determinism_probe': {'runs_executed_twice': d['determinism_probe'][0], 'hash_mismatches': d['determinism_probe'][1]},
            'real_components': spec['real'], 'stub_components': spec['stub'],
            'known_findings_hit': d['known'],
            'violations': [{'kind': v['kind'], 'site': v['site'], 'replay': os.path.relpath(v['replay'], HERE)} for v in good],
            'build_s': round(t_build, 2), 'search_s': round(d['search_s'], 2),
        },
        'assumptions': spec.get('assumptions', []),
        'wall_s': round(wall, 2), 'violations': len(good),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', cid + '.json'), 'w'), indent=1)
    if not a.keep:
        shutil.rmtree(bdir, ignore_errors=True)
    for k, text in known.items():
        print('KNOWN-FINDING: property=%s %s [%s; hit %d times]' % (cid, text, k, d['known'].get(k, 0)))
    print('%s: %d runs, %d distinct non-trivial, %d interleavings, faults %s, %.1f s (build %.1f s)' % (cid, d['runs'], d['distinct_nontrivial'], d['distinct_interleavings'], faults, wall, t_build))
    for v in good:
        print('  %s at %s: %s' % (v['kind'], v['site'], json.load(open(v['replay']))['message_symbolised'][:900]))
        print('VIOLATION property=%s replay=%s' % (cid, os.path.relpath(v['replay'], HERE)))
    sys.stdout.flush()
    sys.exit(1 if good else 0)


main()
