"""Terms -> z3; satisfiability queries."""
import time
import z3
import term as tm
from term import T

class Conv:
    def __init__(self):
        self.ctx = z3.main_ctx(); self.c = self.ctx.ref(); self.cache = {}; self.keep = []
        self.vars = {}; self.sorts = {}; self.nums = {}
        self.Z = z3.z3core
    def srt(self, w):
        r = self.sorts.get(w)
        if r is None: r = self.sorts[w] = z3.BoolSort() if w == 1 else z3.BitVecSort(max(w, 1))
        return r.ast
    def num(self, v, w):
        """bit-vector numeral (w = -1: one-bit vector)"""
        k = (v, w)
        r = self.nums.get(k)
        if r is None: r = self.nums[k] = self.inc(self.Z.Z3_mk_numeral(self.c, str(v), self.srt(w)))
        return r
    def conv(self, root):
        """raw ast handle for root"""
        Z = self.Z; c = self.c; cache = self.cache
        if root.id in cache: return cache[root.id]
        st = [root]
        A2 = (z3.z3types.Ast if hasattr(z3, 'z3types') else z3.Ast)
        while st:
            t = st[-1]
            if t.id in cache: st.pop(); continue
            o = t.op
            if o == 'c':
                if t.w == 1: r = Z.Z3_mk_true(c) if t.a else Z.Z3_mk_false(c)
                else: r = self.num(t.a, t.w)
            elif o == 'v':
                r = Z.Z3_mk_const(c, Z.Z3_mk_string_symbol(c, t.a), self.srt(t.w)); self.vars[t.a] = (r, t.w)
            else:
                ch = [g for _, g in t.a] if o == 'S' else [x for x in t.a if isinstance(x, T)]
                todo = [x for x in ch if x.id not in cache]
                if todo: st += todo; continue
                v = [cache[x.id] for x in ch]
                w1 = ch[0].w if ch else 0
                if o == 'S':
                    r = self.num(t.a[-1][0], t.w)
                    for (k, _), g in zip(reversed(t.a[:-1]), reversed(v[:-1])):
                        r = self.inc(Z.Z3_mk_ite(c, g, self.num(k, t.w), r))
                elif o == 'not': r = Z.Z3_mk_not(c, v[0])
                elif o == 'and': r = Z.Z3_mk_and(c, 2, (A2 * 2)(*v))
                elif o == 'ite': r = Z.Z3_mk_ite(c, v[0], v[1], v[2])
                elif o == 'eq': r = Z.Z3_mk_eq(c, v[0], v[1])
                elif o == 'ult': r = Z.Z3_mk_bvult(c, v[0], v[1])
                elif o == 'slt': r = Z.Z3_mk_bvslt(c, v[0], v[1])
                elif o == 'zext': r = Z.Z3_mk_zero_ext(c, t.w - w1, self.bv(v[0], w1))
                elif o == 'sext': r = Z.Z3_mk_sign_ext(c, t.w - w1, self.bv(v[0], w1))
                elif o == 'ext':
                    if w1 == 1: r = v[0]
                    else:
                        r = Z.Z3_mk_extract(c, t.a[1] + t.w - 1, t.a[1], v[0])
                        if t.w == 1: r = Z.Z3_mk_eq(c, self.inc(r), self.num(1, -1))
                elif o == 'concat': r = Z.Z3_mk_concat(c, self.bv(v[0], ch[0].w), self.bv(v[1], ch[1].w))
                elif o == 'neg': r = Z.Z3_mk_bvneg(c, v[0])
                elif o == 'bnot': r = Z.Z3_mk_bvnot(c, v[0])
                else:
                    f = {'add': Z.Z3_mk_bvadd, 'sub': Z.Z3_mk_bvsub, 'mul': Z.Z3_mk_bvmul, 'band': Z.Z3_mk_bvand, 'bor': Z.Z3_mk_bvor, 'bxor': Z.Z3_mk_bvxor,
                         'shl': Z.Z3_mk_bvshl, 'lshr': Z.Z3_mk_bvlshr, 'ashr': Z.Z3_mk_bvashr, 'udiv': Z.Z3_mk_bvudiv, 'urem': Z.Z3_mk_bvurem,
                         'sdiv': Z.Z3_mk_bvsdiv, 'srem': Z.Z3_mk_bvsrem}[o]
                    r = f(c, v[0], v[1])
            cache[t.id] = self.inc(r); st.pop()
        return cache[root.id]
    def inc(self, r):
        self.Z.Z3_inc_ref(self.c, r); return r
    def bv(self, a, w):
        """boolean as 1-bit vector"""
        if w != 1: return a
        return self.inc(self.Z.Z3_mk_ite(self.c, a, self.num(1, -1), self.num(0, -1)))
    def expr(self, t):
        return z3.BoolRef(self.conv(t), self.ctx) if t.w == 1 else z3.BitVecRef(self.conv(t), self.ctx)

class Solver:
    def __init__(self):
        self.cv = Conv(); self.s = None; self.queries = 0; self.time = 0.0; self.sat = 0; self.unsat = 0
    def feasible(self, t):
        """incremental check used while unrolling"""
        if t.op == 'c': return bool(t.a)
        t0 = time.time()
        if self.s is None: self.s = z3.Solver()
        self.s.set('timeout', 20000)
        r = self.s.check(self.cv.expr(t))
        self.queries += 1; self.time += time.time() - t0
        if r == z3.unsat: self.unsat += 1; return False
        self.sat += r == z3.sat
        return True       # unknown: keep unrolling (sound)
    def check(self, t, timeout=600):
        """one-shot: returns ('unsat', None), ('sat', env) or ('unknown', reason)"""
        if t.op == 'c' and not t.a:
            self.queries += 1; self.unsat += 1
            return 'unsat', None
        t0 = time.time()
        s = z3.SolverFor('QF_BV')
        s.set('timeout', int(timeout*1000))
        s.add(self.cv.expr(t))
        r = s.check()
        self.queries += 1; self.time += time.time() - t0
        if r == z3.unsat: self.unsat += 1; return 'unsat', None
        if r == z3.unknown: return 'unknown', s.reason_unknown()
        self.sat += 1
        m = s.model(); env = {}
        for d in m.decls():
            v = m[d]
            env[d.name()] = int(z3.is_true(v)) if z3.is_bool(v) else v.as_long()
        return 'sat', env
