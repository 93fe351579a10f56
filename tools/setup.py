#!/usr/bin/env python3
"""setup_cmd: checks that the toolchain can build the simulator (every check rebuilds what it needs itself)."""
import os, subprocess, sys, tempfile, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = tempfile.mkdtemp(prefix='mmlsim')
try:
    ps = [subprocess.Popen(['g++', '-std=c++17', '-O2', '-w', '-c', os.path.join(H, 'sim', f), '-o', os.path.join(d, f + '.o')]) for f in sorted(os.listdir(os.path.join(H, 'sim'))) if f.endswith('.cpp')]
    sys.exit(max(p.wait() for p in ps))
finally:
    shutil.rmtree(d, ignore_errors=True)
