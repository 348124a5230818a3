"""setup_cmd: the tools the checks need are there, and the solver pipeline gives known answers."""
import os, sys, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import term as tm, blast
for t in ('clang++-18', 'opt-18'):
    assert shutil.which(t), t
assert blast.SAT, 'no SAT solver'
S = blast.Blaster()
x = tm.var('in0', 8); y = tm.var('in1', 8)
a = tm.mul(x, y); b = tm.mul(y, x); a = tm.add(x, y)
assert S.check(tm.not_(tm.eq(tm.bxor(x, y), tm.sub(tm.bor(x, y), tm.band(x, y)))))[0] == 'unsat'
r = S.check(tm.eq(a, tm.const(77, 8)))
assert r[0] == 'sat' and (r[1].get('in0', 0) + r[1].get('in1', 0)) % 256 == 77
print('ok', blast.SAT)
