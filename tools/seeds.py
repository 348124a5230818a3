#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/<id>.py-like specs and confirms each one against /repo.
usage: seeds.py write|confirm|check ID...   (confirm: tests pass + demo; check: run the property's quick check with the bug applied)"""
import sys, os, json, subprocess, re
R = os.environ.get('SEED_REPO', '/repo'); TEST = os.environ.get('SEED_TEST', '/opt/vp/test.sh'); V = '/verif'; S = V + '/tools/seedspecs'
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def load(i):
    d = {}; exec(open('%s/%s.py' % (S, i)).read(), d); return d
def clean(): sh('git -C %s checkout -- .' % R)
def write(i):
    d = load(i); o = '%s/seeded/%s' % (V, i); os.makedirs(o, exist_ok=True)
    assert not sh('git -C %s status --porcelain -uno' % R).stdout, 'repo dirty'
    for f, a, b in d['edits']:
        base = sh('git -C %s show dd8d7e8:include/ipaddress/%s' % (R, f)).stdout
        for l in a.split('\n'):
            if l.strip() and l.strip() not in base: print(i, 'NOT AN ORIGINAL LINE:', l)
        p = R + '/include/ipaddress/' + f; s = open(p).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(p, 'w').write(s.replace(a, b))
    open(o + '/patch.diff', 'w').write(sh('git -C %s diff' % R).stdout); clean()
    open(o + '/demo.cpp', 'w').write(d['demo'].lstrip('\n'))
    open(o + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd /repo\nset -e\nd=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d)\ntrap \'rm -r -- "$t"\' EXIT\ng++ -std=%s %s -w -I include "$d/demo.cpp" -o "$t/demo"\ntimeout 60 "$t/demo"\n' % (d.get('std', 'c++20'), d.get('flags', '-O1')))
    os.chmod(o + '/demo.sh', 0o755)
    json.dump(dict(property=d['prop'], needs=d['needs'], what_it_breaks=d['breaks']), open(o + '/meta.json', 'w'), indent=1)
def demo(i): return sh('bash %s/seeded/%s/demo.sh' % (V, i), cwd=R).returncode
for i in sys.argv[2:]:
    m = sys.argv[1]
    if m == 'write': write(i); print(i, 'written'); continue
    clean(); base = demo(i)
    assert sh('git -C %s apply %s/seeded/%s/patch.diff' % (R, V, i)).returncode == 0, i
    try:
        if m == 'confirm':
            t = sh('bash %s /tmp/seed.json' % TEST).stdout.strip().split('\n')[-1]; bad = demo(i)
            print(i, 'demo', base, '->', bad, t, 'CONFIRMED' if base == 0 and bad and t.endswith(' 0 failed') else 'NOT CONFIRMED')
        else:
            p = json.load(open('%s/seeded/%s/meta.json' % (V, i)))['property']
            x = sh('VF_REPO=%s nice -n 15 python3-vt engine/run.py %s' % (R, os.environ.get('SEED_PROPS') or p), cwd=V); print(i, p, 'exit', x.returncode, (re.findall('VIOLATION.*', x.stdout) or x.stdout.split('\n')[-3:])[:2], flush=True)
    finally: clean()
