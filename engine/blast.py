"""Bit-blaster: terms -> CNF (structurally hashed gates, Tseitin), decided by kissat (or cadical / minisat).

Value summaries become one OR per result bit, which is what keeps loop counters,
lengths and table indices cheap."""
import os, subprocess, tempfile, shutil, time
import term as tm
from term import T

SOLVERS = ['/usr/local/bin/kissat', 'kissat', '/app/lean4-4.33.0/build/release/stage1/bin/cadical', 'cadical', 'minisat', '/usr/bin/minisat']
def find_solver():
    for s in SOLVERS:
        p = s if os.path.isabs(s) and os.access(s, os.X_OK) else shutil.which(s)
        if p: return p
    return None
SAT = find_solver()

class Blaster:
    def __init__(self):
        self.nv = 1            # variable 1 is constant true
        self.gates = {}        # var -> (kind, inputs)
        self.hash = {}
        self.bits = {}         # term id -> list of literals
        self.inputs = {}       # name -> list of literals
        self.queries = 0; self.time = 0.0; self.sat = 0; self.unsat = 0; self.maxclauses = 0; self.maxvars = 0

    # ---- gates
    def new(self):
        self.nv += 1; return self.nv
    def g(self, key):
        v = self.hash.get(key)
        if v is None:
            self.nv += 1; v = self.nv
            self.hash[key] = v; self.gates[v] = key
        return v
    def and2(self, a, b):
        if a == b: return a
        if a == -b or a == -1 or b == -1: return -1
        if a == 1: return b
        if b == 1: return a
        if a > b: a, b = b, a
        return self.g(('&', a, b))
    def or2(self, a, b): return -self.and2(-a, -b)
    def xor2(self, a, b):
        if a == 1: return -b
        if a == -1: return b
        if b == 1: return -a
        if b == -1: return a
        if a == b: return -1
        if a == -b: return 1
        s = 1
        if a < 0: a = -a; s = -s
        if b < 0: b = -b; s = -s
        if a > b: a, b = b, a
        return s * self.g(('^', a, b))
    def mux(self, c, a, b):
        if c == 1: return a
        if c == -1: return b
        if a == b: return a
        if a == -b: return self.xor2(-c, a)   # c?a:-a
        if a == 1: return self.or2(c, b)
        if a == -1: return self.and2(-c, b)
        if b == 1: return self.or2(-c, a)
        if b == -1: return self.and2(c, a)
        if c == a: return self.or2(c, b)
        if c == -a: return self.and2(-c, b)
        if c == b: return self.and2(c, a)
        if c == -b: return self.or2(-c, a)
        if c < 0: c = -c; a, b = b, a
        return self.g(('?', c, a, b))
    def maj(self, a, b, c):
        if a == 1: return self.or2(b, c)
        if a == -1: return self.and2(b, c)
        if b == 1: return self.or2(a, c)
        if b == -1: return self.and2(a, c)
        if c == 1: return self.or2(a, b)
        if c == -1: return self.and2(a, b)
        if a == b: return a
        if a == c: return a
        if b == c: return b
        if a == -b: return c
        if a == -c: return b
        if b == -c: return a
        x = tuple(sorted((a, b, c)))
        return self.g(('m',) + x)
    def orn(self, ls):
        s = set(ls)
        if 1 in s: return 1
        s.discard(-1)
        for x in s:
            if -x in s: return 1
        if not s: return -1
        if len(s) == 1: return next(iter(s))
        if len(s) == 2:
            a, b = s
            return self.or2(a, b)
        return self.g(('|',) + tuple(sorted(s)))
    def andn(self, ls): return -self.orn([-x for x in ls])

    # ---- arithmetic
    def adder(self, a, b, c):
        out = []
        for x, y in zip(a, b):
            out.append(self.xor2(self.xor2(x, y), c))
            c = self.maj(x, y, c)
        return out, c
    def ult_(self, a, b):
        lt = -1
        for x, y in zip(a, b):
            # lt = (!x & y) | (!(x^y) & lt)
            lt = self.maj(-x, y, lt)
        return lt
    def ite(self, c, a, b): return [self.mux(c, x, y) for x, y in zip(a, b)]
    ufmul = False; side = (); recs = ()
    def mul(self, a, b):
        w = len(a)
        if self.ufmul and w >= 32: return self.ufapply(a, b)
        return self.mul_(a, b)
    def mul_(self, a, b):
        w = len(a)
        na = sum(1 for x in a if abs(x) != 1); nb = sum(1 for x in b if abs(x) != 1)
        if na < nb: a, b = b, a
        acc = [-1]*w
        for i, y in enumerate(b):
            if y == -1: continue
            row = [self.and2(x, y) for x in a[:w-i]]
            s, _ = self.adder(acc[i:], row, -1)
            acc = acc[:i] + s
        return acc
    def ufapply(self, a, b):
        """multiplication as an uninterpreted function: unsat stays unsat; a model is only a candidate"""
        nc = lambda x: sum(1 for y in x if abs(y) == 1)
        if (nc(a), tuple(a)) > (nc(b), tuple(b)): a, b = b, a
        if nc(a) == len(a): return self.mul_(a, b)
        for a2, b2, o in self.recs:
            if a2 == a and b2 == b: return o
        o = [self.new() for _ in a]
        # lemmas true of every product: its size, and zero
        eff = lambda x: max([i + 1 for i, y in enumerate(x) if y != -1] or [0])
        la, lb = eff(a), eff(b)
        if la + lb <= len(a):
            for i in range(la + lb, len(a)): o[i] = -1
            m = ((1 << la) - 1) * ((1 << lb) - 1)
            self.side.append(-self.ult_([1 if m >> i & 1 else -1 for i in range(len(a))], o))
        for x in (a, b): self.side.append(self.or2(self.orn(x), -self.orn(o)))
        for a2, b2, o2 in self.recs:      # the low bits of a product depend on the low bits of its operands only
            k = min(len(o), len(o2))
            for x, y in ((a2, b2), (b2, a2)) if len(o) != len(o2) else ((a2, b2),):
                same = self.andn([-self.xor2(p, q) for p, q in zip(a[:k] + b[:k], x[:k] + y[:k])])
                if same != -1: self.side.append(self.or2(-same, self.andn([-self.xor2(p, q) for p, q in zip(o[:k], o2[:k])])))
        self.recs.append((a, b, o))
        return o
    def divrem(self, a, b):
        w = len(a)
        rem = [-1]*w; q = [-1]*w
        bb = b + [-1]
        for i in range(w-1, -1, -1):
            r = [a[i]] + rem              # w+1 bits
            d, c = self.adder(r, [-x for x in bb], 1)
            ge = c                        # no borrow
            q[i] = ge
            rem = [self.mux(ge, x, y) for x, y in zip(d[:w], r[:w])]
        return q, rem
    def negate(self, a):
        return self.adder([-x for x in a], [-1]*len(a), 1)[0]
    def shift(self, a, s, kind):
        w = len(a); fill = a[-1] if kind == 'ashr' else -1
        big = -1; k = 0
        out = list(a)
        for k, sb in enumerate(s):
            if sb == -1: continue
            d = 1 << k
            if d >= w: big = self.or2(big, sb); continue
            if kind == 'shl': sh = [-1]*d + out[:w-d]
            else: sh = out[d:] + [fill]*d
            out = [self.mux(sb, x, y) for x, y in zip(sh, out)]
        if big != -1: out = [self.mux(big, fill, x) for x in out]
        return out

    def conv(self, root):
        B = self.bits
        if root.id in B: return B[root.id]
        st = [root]
        while st:
            t = st[-1]
            if t.id in B: st.pop(); continue
            o = t.op
            if o == 'c':
                B[t.id] = [1 if (t.a >> i) & 1 else -1 for i in range(t.w)]; st.pop(); continue
            if o == 'v':
                r = [self.new() for _ in range(t.w)]
                self.inputs[t.a] = r; B[t.id] = r; st.pop(); continue
            ch = [g for _, g in t.a] if o == 'S' else [x for x in t.a if isinstance(x, T)]
            todo = [x for x in ch if x.id not in B]
            if todo: st += todo; continue
            st.pop()
            v = [B[x.id] for x in ch]
            w = t.w
            if o == 'S':
                r = []
                allv = 0; alla = -1
                for k, _ in t.a: allv |= k; alla &= k
                for i in range(w):
                    if not (allv >> i) & 1: r.append(-1)
                    elif (alla >> i) & 1: r.append(1)
                    else:
                        on = [v[j][0] for j, (k, _) in enumerate(t.a) if (k >> i) & 1]
                        r.append(self.orn(on))
            elif o == 'not': r = [-v[0][0]]
            elif o == 'and': r = [self.and2(v[0][0], v[1][0])]
            elif o == 'ite': r = self.ite(v[0][0], v[1], v[2])
            elif o == 'eq': r = [self.andn([-self.xor2(x, y) for x, y in zip(v[0], v[1])])]
            elif o == 'ult': r = [self.ult_(v[0], v[1])]
            elif o == 'slt': r = [self.ult_(v[0][:-1] + [-v[0][-1]], v[1][:-1] + [-v[1][-1]])]
            elif o == 'zext': r = v[0] + [-1]*(w - len(v[0]))
            elif o == 'sext': r = v[0] + [v[0][-1]]*(w - len(v[0]))
            elif o == 'ext': r = v[0][t.a[1]:t.a[1]+w]
            elif o == 'concat': r = v[1] + v[0]
            elif o == 'neg': r = self.negate(v[0])
            elif o == 'bnot': r = [-x for x in v[0]]
            elif o == 'add': r = self.adder(v[0], v[1], -1)[0]
            elif o == 'sub': r = self.adder(v[0], [-x for x in v[1]], 1)[0]
            elif o == 'mul': r = self.mul(v[0], v[1])
            elif o == 'band': r = [self.and2(x, y) for x, y in zip(v[0], v[1])]
            elif o == 'bor': r = [self.or2(x, y) for x, y in zip(v[0], v[1])]
            elif o == 'bxor': r = [self.xor2(x, y) for x, y in zip(v[0], v[1])]
            elif o in ('shl', 'lshr', 'ashr'): r = self.shift(v[0], v[1], o)
            elif o in ('udiv', 'urem'):
                k = ('dr', ch[0].id, ch[1].id)
                if k not in self.hash: self.hash[k] = self.divrem(v[0], v[1])
                r = self.hash[k][0 if o == 'udiv' else 1]
            elif o in ('sdiv', 'srem'):
                sa, sb = v[0][-1], v[1][-1]
                a = self.ite(sa, self.negate(v[0]), v[0]); b = self.ite(sb, self.negate(v[1]), v[1])
                q, m = self.divrem(a, b)
                if o == 'sdiv':
                    s = self.xor2(sa, sb); r = self.ite(s, self.negate(q), q)
                else: r = self.ite(sa, self.negate(m), m)
            else: raise tm.Unsup('blast ' + o)
            if o not in ('not', 'and', 'S', 'v'):
                n = t.hi.bit_length()
                if n < w: r = r[:n] + [-1]*(w - n)
            B[t.id] = r
        return B[root.id]

    def cnf(self, root):
        """clauses of the cone of literal root; returns (nvars, clause text lines, varmap)"""
        gates = self.gates
        num = {1: 1}; out = ['1 0\n']
        st = [abs(root)]; seen = {1}
        order = []
        while st:
            v = st.pop()
            if v in seen: continue
            seen.add(v); num[v] = len(num) + 1; order.append(v)
            g = gates.get(v)
            if g is not None:
                for x in g[1:]:
                    x = x if x > 0 else -x
                    if x not in seen: st.append(x)
        n = lambda l: num[l] if l > 0 else -num[-l]
        for v in order:
            g = gates.get(v)
            if g is None: continue
            k = g[0]; y = num[v]
            if k == '&':
                a, b = n(g[1]), n(g[2])
                out.append('-%d %d 0\n-%d %d 0\n%d %d %d 0\n' % (y, a, y, b, y, -a, -b))
            elif k == '^':
                a, b = n(g[1]), n(g[2])
                out.append('-%d %d %d 0\n-%d %d %d 0\n%d %d %d 0\n%d %d %d 0\n' % (y, a, b, y, -a, -b, y, -a, b, y, a, -b))
            elif k == '?':
                c, a, b = n(g[1]), n(g[2]), n(g[3])
                out.append('-%d %d %d 0\n%d %d %d 0\n-%d %d %d 0\n%d %d %d 0\n' % (y, -c, a, y, -c, -a, y, c, b, y, c, -b))
            elif k == 'm':
                a, b, c = n(g[1]), n(g[2]), n(g[3])
                for p, q in ((a, b), (a, c), (b, c)):
                    out.append('-%d %d %d 0\n%d %d %d 0\n' % (y, p, q, y, -p, -q))
            elif k == '|':
                ls = [n(x) for x in g[1:]]
                out.append('-%d %s 0\n' % (y, ' '.join(map(str, ls))))
                for x in ls: out.append('%d %d 0\n' % (y, -x))
        out.append('%d 0\n' % n(root))
        return num, out

    def check(self, t, timeout=600, want_model=True):
        """('unsat',None) / ('sat',env) / ('unknown',why)"""
        t0 = time.time()
        try:
            self.queries += 1
            r = self.conv(t)[0]
            if r == -1: self.unsat += 1; return 'unsat', None
            if r == 1: self.sat += 1; return 'sat', {}
            if self.side: r = self.andn([r] + list(self.side))
            if r == -1: self.unsat += 1; return 'unsat', None
            num, out = self.cnf(r)
            text = ''.join(out)
            nc = text.count('\n')
            self.maxclauses = max(self.maxclauses, nc); self.maxvars = max(self.maxvars, len(num))
            fd, path = tempfile.mkstemp(suffix='.cnf', prefix='vf'); 
            try:
                with os.fdopen(fd, 'w') as f:
                    f.write('p cnf %d %d\n' % (len(num), nc)); f.write(text)
                cmd = [SAT, '-q', path] if 'minisat' not in SAT else None
                if cmd is None: return self.minisat(path, num, timeout)
                try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
                except subprocess.TimeoutExpired: return 'unknown', 'timeout'
                if p.returncode == 20: self.unsat += 1; return 'unsat', None
                if p.returncode != 10: return 'unknown', 'solver exit %d %s' % (p.returncode, p.stderr[-200:])
                self.sat += 1
                if not want_model: return 'sat', {}
                return 'sat', self.model(num, (x for l in p.stdout.split(b'\n') if l.startswith(b'v') for x in l.split()[1:]))
            finally: os.unlink(path)
        finally: self.time += time.time() - t0
    def minisat(self, path, num, timeout):
        o = path + '.out'
        try:
            p = subprocess.run([SAT, '-verb=0', path, o], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
            ls = open(o).read().split('\n')
            if ls[0].startswith('UNSAT'): self.unsat += 1; return 'unsat', None
            if ls[0].startswith('SAT'): self.sat += 1; return 'sat', self.model(num, ls[1].split())
            return 'unknown', ls[0]
        except subprocess.TimeoutExpired: return 'unknown', 'timeout'
        finally:
            if os.path.exists(o): os.unlink(o)
    def model(self, num, toks):
        pos = set()
        for x in toks:
            k = int(x)
            if k > 0: pos.add(k)
        env = {}
        for name, bits in self.inputs.items():
            v = 0
            for i, l in enumerate(bits):
                k = num.get(l)
                if k is not None and k in pos: v |= 1 << i
            env[name] = v
        return env
    def feasible(self, t):
        if t.op == 'c': return bool(t.a)
        r, _ = self.check(t, 60, False)
        return r != 'unsat'
