#!/usr/bin/env python3
"""replay.py <harness.cpp> <variant> <function> <param> <input hex> [defs...]: run one input through the real code (ASan+UBSan)"""
import sys, os, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, run
f, var, fn, p, h = sys.argv[1:6]
d = tempfile.mkdtemp(prefix='vfr-')
try:
    exe = build.native(os.path.join(build.V, 'harness', f), var, sys.argv[6:], d + '/n')
    rc, out = run.run_native(exe, fn, int(p), h)
finally: shutil.rmtree(d)
print(out); c = run.confirmed(rc, out); print('REPRODUCED: ' + c if c else 'not reproduced')
sys.exit(1 if c else 0)
