"""Hash-consed bit-vector terms with constant folding, unsigned intervals and
"value summaries" (S nodes: a finite map constant -> guard), the form in which loop
counters, lengths and array indices stay tractable through path merging.

Width-1 terms are booleans.  All arithmetic is modulo 2^w, as in LLVM IR."""

class Unsup(Exception): pass
class T:
    __slots__ = ('op', 'w', 'a', 'id', 'lo', 'hi', 'z')
    def __repr__(self): return show(self)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o

_tab = {}
_cnt = [0]
MAXS = 70       # max number of leaves in a value summary
MAXP = 260      # max number of leaf pairs combined by a binary operation

_SAMEW = {'add','sub','mul','udiv','urem','sdiv','srem','band','bor','bxor','shl','lshr','ashr'}
def _mk(op, w, a, lo=0, hi=None):
    if op in _SAMEW: assert a[0].w == w and a[1].w == w, (op, w, a)
    elif op in ('eq','ult','slt'): assert a[0].w == a[1].w and a[0].w > 1, (op, a)
    elif op == 'and': assert a[0].w == 1 and a[1].w == 1
    elif op == 'concat': assert w == a[0].w + a[1].w
    elif op == 'ext': assert a[1] + w <= a[0].w and a[0].w > 1
    elif op in ('zext', 'sext'): assert w > a[0].w > 1
    k = (op, w, a)
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.w = w; t.a = a; t.id = _cnt[0]; _cnt[0] += 1
        t.lo = lo; t.hi = (1 << w) - 1 if hi is None else hi; t.z = None
        _tab[k] = t
    return t

def reset():
    """drop all terms (between independent queries)"""
    keep = {(TRUE.op, TRUE.w, TRUE.a): TRUE, (FALSE.op, FALSE.w, FALSE.a): FALSE}
    _memo.clear(); CT.clear(); _tab.clear(); _tab.update(keep); _cc.clear(); _cc[(1, 1)] = TRUE; _cc[(0, 1)] = FALSE

_cc = {}
def const(v, w):
    v &= (1 << w) - 1
    t = _cc.get((v, w))
    if t is None:
        t = _mk('c', w, v, v, v); _cc[(v, w)] = t
    return t
FALSE = const(0, 1); TRUE = const(1, 1)
def boolc(b): return TRUE if b else FALSE
def var(name, w): return _mk('v', w, name)
_fresh = [0]
def fresh(w, pre='undef'):
    _fresh[0] += 1
    return var('%s_%d' % (pre, _fresh[0]), w)

def is_c(t): return t.op == 'c'

# ------------------------------------------------------------ booleans (AIG with local rewriting)
def not_(a):
    if a.op == 'c': return FALSE if a.a else TRUE
    if a.op == 'not': return a.a[0]
    return _mk('not', 1, (a,))

def _lits(t):
    """conjunction children (t,) or (x,y) for an and node"""
    return t.a if t.op == 'and' else None

def and_(a, b):
    if a is b: return a
    if a.op == 'c': return b if a.a else FALSE
    if b.op == 'c': return a if b.a else FALSE
    if (a.op == 'not' and a.a[0] is b) or (b.op == 'not' and b.a[0] is a): return FALSE
    if a.op == 'and':
        x, y = a.a
        if x is b or y is b: return a
        nb = not_(b)
        if x is nb or y is nb: return FALSE
    if b.op == 'and':
        x, y = b.a
        if x is a or y is a: return b
        na = not_(a)
        if x is na or y is na: return FALSE
        if a.op == 'and':
            p, q = a.a
            for s in (p, q):
                ns = not_(s)
                if x is ns or y is ns: return FALSE
            if (p is x or p is y): return and_(q, b) if not (q is x or q is y) else b
            if (q is x or q is y): return and_(p, b)
    # a & !(a & y) = a & !y
    for u, v in ((a, b), (b, a)):
        if v.op == 'not' and v.a[0].op == 'and':
            x, y = v.a[0].a
            nu = not_(u)
            if x is u: return and_(u, not_(y))
            if y is u: return and_(u, not_(x))
            if x is nu or y is nu: return u
            if u.op == 'and':
                p, q = u.a
                if x is p or x is q: return and_(u, not_(y))
                if y is p or y is q: return and_(u, not_(x))
                np, nq = not_(p), not_(q)
                if x is np or x is nq or y is np or y is nq: return u
    # !(p & q) & !(p & !q) = !p
    if a.op == 'not' and b.op == 'not' and a.a[0].op == 'and' and b.a[0].op == 'and':
        p, q = a.a[0].a; x, y = b.a[0].a
        for (u, v) in ((p, q), (q, p)):
            nv = not_(v)
            if (x is u and y is nv) or (y is u and x is nv): return not_(u)
    # comparisons against constants on the same term: x==c1 & x==c2, x==c & !(x==d)
    if a.op == 'eq' and b.op == 'eq' and a.a[0] is b.a[0] and a.a[1].op == 'c' and b.a[1].op == 'c':
        return FALSE
    for u, v in ((a, b), (b, a)):
        if u.op == 'eq' and u.a[1].op == 'c':
            t = u.a[0]; cv = u.a[1]
            if v.op == 'not' and v.a[0].op == 'eq' and v.a[0].a[0] is t and v.a[0].a[1].op == 'c':
                return u if v.a[0].a[1] is not cv else FALSE
            if v.op == 'ult' and v.a[0] is t and v.a[1].op == 'c': return u if cv.a < v.a[1].a else FALSE
            if v.op == 'ult' and v.a[1] is t and v.a[0].op == 'c': return u if v.a[0].a < cv.a else FALSE
            if v.op == 'not' and v.a[0].op == 'ult':
                q = v.a[0]
                if q.a[0] is t and q.a[1].op == 'c': return FALSE if cv.a < q.a[1].a else u
                if q.a[1] is t and q.a[0].op == 'c': return FALSE if q.a[0].a < cv.a else u
    if a.id > b.id: a, b = b, a
    return _mk('and', 1, (a, b))

def or_(a, b): return not_(and_(not_(a), not_(b)))
def and_all(xs):
    r = TRUE
    for x in xs: r = and_(r, x)
    return r
def or_all(xs):
    """OR of a list, combining pairs that simplify first"""
    xs = list(dict.fromkeys(xs))
    if TRUE in xs: return TRUE
    xs = [x for x in xs if x is not FALSE]
    if not xs: return FALSE
    if 2 < len(xs) <= 12:
        changed = True
        while changed and len(xs) > 1:
            changed = False
            for i in range(len(xs)-1, 0, -1):
                for j in range(i-1, -1, -1):
                    c0 = _cnt[0]
                    r = or_(xs[i], xs[j])
                    if simple_or(r, xs[i], xs[j]):
                        xs[j] = r; del xs[i]; changed = True; break
                if changed: break
            if TRUE in xs: return TRUE
    r = xs[-1]
    for x in reversed(xs[:-1]): r = or_(x, r)
    return r
def simple_or(r, x, y):
    """did or(x,y) simplify (is r not just the plain disjunction node)?"""
    if r.op == 'not' and r.a[0].op == 'and':
        p, q = r.a[0].a
        nx, ny = not_(x), not_(y)
        return not ((p is nx and q is ny) or (p is ny and q is nx))
    return True
def xor1(a, b): return or_(and_(a, not_(b)), and_(not_(a), b))

# ------------------------------------------------------------ value summaries
def leaves(t):
    """tuple of (const value, guard) if t is a constant or a summary, else None"""
    if t.op == 'c': return ((t.a, TRUE),)
    if t.op == 'S': return t.a
    return None
def mkS(pairs, w):
    """pairs: iterable (value, guard); guards disjoint, exhaustive on live paths"""
    d = {}
    for v, g in pairs:
        if g is FALSE: continue
        o = d.get(v)
        d[v] = g if o is None else or_(o, g)
    if not d: return const(0, w)
    if len(d) == 1: return const(next(iter(d)), w)
    if w == 1:
        return d[1]
    if len(d) > MAXS:
        ks = sorted(d)
        r = const(ks[-1], w)
        for k in ks[:-1]: r = _rawite(d[k], const(k, w), r)
        return r
    a = tuple(sorted(d.items()))
    return _mk('S', w, a, a[0][0], a[-1][0])

def restrict(t, dead):
    """drop leaves whose guard is known false"""
    a = tuple(x for x in t.a if x[1].id not in dead)
    if len(a) == len(t.a) or not a: return t
    if len(a) == 1: return const(a[0][0], t.w)
    return _mk('S', t.w, a, a[0][0], a[-1][0])

def _rawite(c, x, y):
    return _mk('ite', x.w, (c, x, y), min(x.lo, y.lo), max(x.hi, y.hi))

def ite(c, x, y):
    assert x.w == y.w and c.w == 1, (x.w, y.w, c.w)
    if c.op == 'c': return x if c.a else y
    if x is y: return x
    w = x.w
    if w == 1:
        if x.op == 'c': return or_(c, y) if x.a else and_(not_(c), y)
        if y.op == 'c': return or_(not_(c), x) if y.a else and_(c, x)
        if x is c: return or_(c, y)
        if y is c: return and_(c, x)
        return or_(and_(c, x), and_(not_(c), y))
    if c.op == 'not': c = c.a[0]; x, y = y, x
    lx = leaves(x)
    if lx is not None:
        ly = leaves(y)
        if ly is not None:
            nc = not_(c)
            if len(lx) + len(ly) <= 2*MAXS:
                return mkS([(v, and_(c, g)) for v, g in lx] + [(v, and_(nc, g)) for v, g in ly], w)
    if x.op == 'ite' and x.a[0] is c: return ite(c, x.a[1], y)
    if y.op == 'ite' and y.a[0] is c: return ite(c, x, y.a[2])
    if y.op == 'ite' and y.a[1] is x: return ite(or_(c, y.a[0]), x, y.a[2])
    if x.op == 'ite' and x.a[2] is y: return ite(and_(c, x.a[0]), x.a[1], y)
    # push through zext so narrow summaries/intervals survive
    if x.op == 'zext' and y.op == 'zext' and x.a[0].w == y.a[0].w:
        return zext(ite(c, x.a[0], y.a[0]), w)
    if x.op == 'zext' and y.op == 'c' and y.a < (1 << x.a[0].w):
        return zext(ite(c, x.a[0], const(y.a, x.a[0].w)), w)
    if y.op == 'zext' and x.op == 'c' and x.a < (1 << y.a[0].w):
        return zext(ite(c, const(x.a, y.a[0].w), y.a[0]), w)
    return _rawite(c, x, y)

def _s(v, w): return v - (1 << w) if v >> (w-1) else v

def _fold(op, x, y, w):
    if op == 'add': return x + y
    if op == 'sub': return x - y
    if op == 'mul': return x * y
    if op == 'band': return x & y
    if op == 'bor': return x | y
    if op == 'bxor': return x ^ y
    if op == 'shl': return x << y if y < w else 0
    if op == 'lshr': return x >> y if y < w else 0
    if op == 'ashr': return _s(x, w) >> min(y, w-1)
    if op == 'udiv': return (1 << w) - 1 if y == 0 else x // y
    if op == 'urem': return x if y == 0 else x % y
    if op == 'sdiv':
        a, b = _s(x, w), _s(y, w)
        if b == 0: return 1 if a < 0 else -1
        q = abs(a) // abs(b)
        return q if (a < 0) == (b < 0) else -q
    if op == 'srem':
        a, b = _s(x, w), _s(y, w)
        if b == 0: return a
        r = abs(a) % abs(b)
        return -r if a < 0 else r
    if op == 'eq': return int(x == y)
    if op == 'ult': return int(x < y)
    if op == 'slt': return int(_s(x, w) < _s(y, w))
    raise AssertionError(op)

CT = {}    # boolean term id -> ids of summary guards that are false when the term holds
def _rec(t, dead):
    if t.op == 'c': return
    o = CT.get(t.id)
    CT[t.id] = frozenset(dead) if o is None else o | frozenset(dead)
def _bin_s(op, x, y, w, rw):
    if rw == 1:
        r = _bin_s0(op, x, y, w, rw)
        if r is not None and r.op != 'c':
            if (x.op == 'S') != (y.op == 'S'):
                if x.op == 'S': tr = [(g, _fold(op, v, y.a, w)) for v, g in x.a]
                else: tr = [(g, _fold(op, x.a, v, w)) for v, g in y.a]
                _rec(r, [g.id for g, b in tr if not b])
                _rec(not_(r), [g.id for g, b in tr if b])
        return r
    return _bin_s0(op, x, y, w, rw)
def _bin_s0(op, x, y, w, rw):
    """fold constants and summaries; None if not applicable"""
    lx = leaves(x)
    if lx is None: return None
    ly = leaves(y)
    if ly is None: return None
    m = (1 << rw) - 1
    if len(lx) == 1 and len(ly) == 1: return const(_fold(op, lx[0][0], ly[0][0], w), rw)
    if len(lx) * len(ly) > MAXP: return None
    if len(ly) == 1:
        c = ly[0][0]
        return mkS([(_fold(op, v, c, w) & m, g) for v, g in lx], rw)
    if len(lx) == 1:
        c = lx[0][0]
        return mkS([(_fold(op, c, v, w) & m, g) for v, g in ly], rw)
    return mkS([(_fold(op, v, u, w) & m, and_(g, h)) for v, g in lx for u, h in ly], rw)

def add(x, y):
    w = x.w
    if w == 1: return xor1(x, y)
    r = _bin_s('add', x, y, w, w)
    if r is not None: return r
    if x.op == 'c': x, y = y, x
    if y.op == 'c':
        if y.a == 0: return x
        if x.op == 'add' and x.a[1].op == 'c': return add(x.a[0], const(x.a[1].a + y.a, w))
    else:
        if x.op == 'add' and x.a[1].op == 'c': return add(add(x.a[0], y), x.a[1])
        if y.op == 'add' and y.a[1].op == 'c': return add(add(x, y.a[0]), y.a[1])
        if x.op == 'neg': 
            if x.a[0] is y: return const(0, w)
        if y.op == 'neg':
            if y.a[0] is x: return const(0, w)
        if x.id > y.id: x, y = y, x
    lo, hi = x.lo + y.lo, x.hi + y.hi
    if hi >> w:
        if lo >> w and hi >> w == lo >> w: lo &= (1 << w)-1; hi &= (1 << w)-1
        else: lo, hi = 0, (1 << w) - 1
    return _mk('add', w, (x, y), lo, hi)
def neg(x):
    if x.op == 'c': return const(-x.a, x.w)
    if x.op == 'S': return mkS([((-v) & ((1 << x.w)-1), g) for v, g in x.a], x.w)
    if x.op == 'neg': return x.a[0]
    if x.op == 'add' and x.a[1].op == 'c': return add(neg(x.a[0]), const(-x.a[1].a, x.w))
    return _mk('neg', x.w, (x,))
def sub(x, y):
    w = x.w
    if x is y: return const(0, w)
    if w == 1: return xor1(x, y)
    r = _bin_s('sub', x, y, w, w)
    if r is not None: return r
    if y.op == 'c': return add(x, const(-y.a, w))
    # (a + c) - a, (a+c)-(a+d)
    bx, cx = (x.a[0], x.a[1].a) if x.op == 'add' and x.a[1].op == 'c' else (x, 0)
    by, cy = (y.a[0], y.a[1].a) if y.op == 'add' and y.a[1].op == 'c' else (y, 0)
    if bx is by: return const(cx - cy, w)
    if bx.op == 'add':
        if bx.a[0] is by: return add(bx.a[1], const(cx - cy, w))
        if bx.a[1] is by: return add(bx.a[0], const(cx - cy, w))
    if x.lo >= y.hi: return _mk('sub', w, (x, y), x.lo - y.hi, x.hi - y.lo)
    if x.op == 'c':
        if x.a == 0: return neg(y)
    return _mk('sub', w, (x, y))
def mul(x, y):
    w = x.w
    if w == 1: return and_(x, y)
    r = _bin_s('mul', x, y, w, w)
    if r is not None: return r
    if x.op == 'c': x, y = y, x
    if y.op == 'c':
        if y.a == 0: return y
        if y.a == 1: return x
        if y.a & (y.a - 1) == 0: return shl(x, const(y.a.bit_length()-1, w))
    elif x.id > y.id: x, y = y, x
    hi = x.hi * y.hi
    if hi >> w: return _mk('mul', w, (x, y))
    return _mk('mul', w, (x, y), x.lo * y.lo, hi)
def udiv(x, y):
    w = x.w
    r = _bin_s('udiv', x, y, w, w)
    if r is not None: return r
    if y.op == 'c' and y.a:
        if y.a == 1: return x
        if y.a & (y.a - 1) == 0: return lshr(x, const(y.a.bit_length()-1, w))
        return _mk('udiv', w, (x, y), x.lo // y.a, x.hi // y.a)
    if y.lo > 0: return _mk('udiv', w, (x, y), x.lo // y.hi, x.hi // y.lo)
    return _mk('udiv', w, (x, y))
def urem(x, y):
    w = x.w
    r = _bin_s('urem', x, y, w, w)
    if r is not None: return r
    if y.op == 'c' and y.a:
        if y.a == 1: return const(0, w)
        if y.a & (y.a - 1) == 0: return band(x, const(y.a - 1, w))
        if x.hi < y.a: return x
    if y.lo > 0: return _mk('urem', w, (x, y), 0, min(x.hi, y.hi - 1))
    return _mk('urem', w, (x, y))
def sdiv(x, y):
    w = x.w
    r = _bin_s('sdiv', x, y, w, w)
    if r is not None: return r
    if not (x.hi >> (w-1)) and not (y.hi >> (w-1)): return udiv(x, y)
    return _mk('sdiv', w, (x, y))
def srem(x, y):
    w = x.w
    r = _bin_s('srem', x, y, w, w)
    if r is not None: return r
    if not (x.hi >> (w-1)) and not (y.hi >> (w-1)): return urem(x, y)
    return _mk('srem', w, (x, y))

def band(x, y):
    w = x.w
    if w == 1: return and_(x, y)
    if x is y: return x
    r = _bin_s('band', x, y, w, w)
    if r is not None: return r
    if x.op == 'c': x, y = y, x
    if y.op == 'c':
        m = y.a
        if m == 0: return y
        if m == (1 << w) - 1: return x
        if m & (m+1) == 0:     # low mask
            k = m.bit_length()
            if x.hi <= m: return x
            return zext(extract(x, 0, k), w)
        # contiguous mask (high part)
        tz = (m & -m).bit_length() - 1
        mm = m >> tz
        if mm & (mm+1) == 0:
            k = mm.bit_length()
            return shl(zext(extract(x, tz, k), w), const(tz, w))
        if x.op == 'band' and x.a[1].op == 'c': return band(x.a[0], const(x.a[1].a & m, w))
        return _mk('band', w, (x, y), 0, min(x.hi, m))
    if x.id > y.id: x, y = y, x
    return _mk('band', w, (x, y), 0, min(x.hi, y.hi))
def _nz(t):
    """mask of bits that may be non-zero (cheap)"""
    k = ('nz', t.id)
    r = _memo.get(k)
    if r is None: r = _memo[k] = _nz_(t)
    return r
def _nz_(t):
    if t.op == 'c': return t.a
    if t.op == 'zext': return _nz(t.a[0])
    if t.op == 'shl' and t.a[1].op == 'c': return (_nz(t.a[0]) << t.a[1].a) & ((1 << t.w) - 1)
    if t.op == 'concat': return (_nz(t.a[0]) << t.a[1].w) | _nz(t.a[1])
    if t.op == 'bor': return _nz(t.a[0]) | _nz(t.a[1])
    if t.op == 'S':
        m = 0
        for v, _ in t.a: m |= v
        return m
    if t.op == 'ite': return _nz(t.a[1]) | _nz(t.a[2])
    return (1 << t.hi.bit_length()) - 1
def _parts(t):
    """list of (lo bit, term) disjoint pieces whose OR (shifted) is t"""
    if t.op == 'c' and t.a == 0: return []
    if t.op == 'zext': return _parts(t.a[0])
    if t.op == 'concat': return _parts(t.a[1]) + [(o + t.a[1].w, p) for o, p in _parts(t.a[0])]
    if t.op == 'shl' and t.a[1].op == 'c' and t.a[0].hi << t.a[1].a < (1 << t.w):
        return [(o + t.a[1].a, p) for o, p in _parts(t.a[0])]
    return [(0, t)]
def bor(x, y):
    w = x.w
    if w == 1: return or_(x, y)
    if x is y: return x
    r = _bin_s('bor', x, y, w, w)
    if r is not None: return r
    if x.op == 'c': x, y = y, x
    if y.op == 'c':
        if y.a == 0: return x
        if y.a == (1 << w) - 1: return y
    # disjoint pieces -> concat form
    if (_nz(x) & _nz(y)) == 0:
        ps = [(o, p) for o, p in _parts(x) + _parts(y)]
        ps2 = []
        ok = True
        for o, p in ps:
            if p.op == 'c':
                if p.a: ps2.append((o, p.a.bit_length(), p))
            else:
                nb = max(1, p.hi.bit_length())
                if o + nb > w: ok = False; break
                ps2.append((o, nb, p))
        if ok:
            ps2.sort(key=lambda q: q[0])
            pos = 0; pieces = []
            for o, nb, p in ps2:
                if o < pos: ok = False; break
                if o > pos: pieces.append(const(0, o - pos))
                pieces.append(extract(p, 0, nb) if p.w > nb else (zext(p, nb) if p.w < nb else p))
                pos = o + nb
            if ok:
                if pos < w: pieces.append(const(0, w - pos))
                r = pieces[0]
                for p in pieces[1:]: r = concat(p, r)
                return r
    if x.id > y.id and y.op != 'c': x, y = y, x
    return _mk('bor', w, (x, y), max(x.lo, y.lo), (1 << max(x.hi, y.hi).bit_length()) - 1)
def bxor(x, y):
    w = x.w
    if w == 1: return xor1(x, y)
    if x is y: return const(0, w)
    r = _bin_s('bxor', x, y, w, w)
    if r is not None: return r
    if x.op == 'c': x, y = y, x
    if y.op == 'c':
        if y.a == 0: return x
        if y.a == (1 << w) - 1: return bnot(x)
    elif x.id > y.id: x, y = y, x
    return _mk('bxor', w, (x, y), 0, (1 << max(x.hi, y.hi).bit_length()) - 1)
def bnot(x):
    w = x.w
    if w == 1: return not_(x)
    if x.op == 'c': return const(~x.a, w)
    if x.op == 'bnot': return x.a[0]
    if x.op == 'S': return mkS([((~v) & ((1 << w)-1), g) for v, g in x.a], w)
    m = (1 << w) - 1
    return _mk('bnot', w, (x,), m - x.hi, m - x.lo)
def shl(x, y):
    w = x.w
    r = _bin_s('shl', x, y, w, w)
    if r is not None: return r
    if y.op == 'c':
        k = y.a
        if k == 0: return x
        if k >= w: return const(0, w)
        if x.hi << k < (1 << w):
            if x.op == 'shl' and x.a[1].op == 'c': return shl(x.a[0], const(k + x.a[1].a, w))
            return _mk('shl', w, (x, y), x.lo << k, x.hi << k)
        return concat(extract(x, 0, w - k), const(0, k))
    if y.op == 'S':
        return _dist_shift(shl, x, y)
    return _mk('shl', w, (x, y))
def _dist_shift(f, x, y):
    r = None
    for v, g in reversed(y.a):
        t = f(x, const(v, y.w))
        r = t if r is None else ite(g, t, r)
    return r
def lshr(x, y):
    w = x.w
    r = _bin_s('lshr', x, y, w, w)
    if r is not None: return r
    if y.op == 'c':
        k = y.a
        if k == 0: return x
        if k >= w: return const(0, w)
        return zext(extract(x, k, w - k), w)
    if y.op == 'S': return _dist_shift(lshr, x, y)
    return _mk('lshr', w, (x, y), 0, x.hi)
def ashr(x, y):
    w = x.w
    r = _bin_s('ashr', x, y, w, w)
    if r is not None: return r
    if not (x.hi >> (w-1)): return lshr(x, y) if y.hi < w else _mk('ashr', w, (x, y), 0, x.hi)
    if y.op == 'c':
        k = y.a
        if k == 0: return x
        if k >= w: k = w - 1
        return sext(extract(x, k, w - k), w)
    if y.op == 'S': return _dist_shift(ashr, x, y)
    return _mk('ashr', w, (x, y))

def zext(x, w):
    if x.w == w: return x
    if x.op == 'c': return const(x.a, w)
    if x.op == 'zext': return zext(x.a[0], w)
    if x.op == 'S': return _mk('S', w, x.a, x.lo, x.hi)
    if x.w == 1: return mkS([(1, x), (0, not_(x))], w)
    return _mk('zext', w, (x,), x.lo, x.hi)
def sext(x, w):
    if x.w == w: return x
    if x.op == 'c': return const(_s(x.a, x.w), w)
    if x.w == 1: return mkS([((1 << w)-1, x), (0, not_(x))], w)
    if x.op == 'S': return mkS([(_s(v, x.w) & ((1 << w)-1), g) for v, g in x.a], w)
    if not (x.hi >> (x.w - 1)): return zext(x, w)
    if x.op == 'sext': return sext(x.a[0], w)
    return _mk('sext', w, (x,))
_memo = {}
def extract(x, lo, n):
    if lo == 0 and n == x.w: return x
    if x.op == 'c': return const(x.a >> lo, n)
    k = (x.id, lo, n)
    r = _memo.get(k)
    if r is None: r = _memo[k] = _extract(x, lo, n)
    return r
def _extract(x, lo, n):
    if x.op == 'c': return const(x.a >> lo, n)
    if x.op == 'S': return mkS([((v >> lo) & ((1 << n)-1), g) for v, g in x.a], n)
    if x.op == 'ext': return extract(x.a[0], x.a[1] + lo, n)
    if x.op == 'concat':
        h, l = x.a
        if lo >= l.w: return extract(h, lo - l.w, n)
        if lo + n <= l.w: return extract(l, lo, n)
        return concat(extract(h, 0, lo + n - l.w), extract(l, lo, l.w - lo))
    if x.op == 'zext':
        y = x.a[0]
        if lo >= y.w: return const(0, n)
        if lo + n <= y.w: return extract(y, lo, n)
        return zext(extract(y, lo, y.w - lo), n)
    if x.op == 'sext':
        y = x.a[0]
        if lo + n <= y.w: return extract(y, lo, n)
        if lo < y.w: return sext(extract(y, lo, y.w - lo), n)
    if x.hi >> lo == 0: return const(0, n)
    if x.op == 'shl' and x.a[1].op == 'c':
        k = x.a[1].a
        if lo >= k: return extract(x.a[0], lo - k, n)      # no bits were lost (see shl)
        if lo + n <= k: return const(0, n)
        return concat(extract(x.a[0], 0, lo + n - k), const(0, k - lo))
    if x.op in ('band','bor','bxor'):
        f = {'band': band, 'bor': bor, 'bxor': bxor}[x.op]
        return f(extract(x.a[0], lo, n), extract(x.a[1], lo, n))
    if x.op == 'bnot': return bnot(extract(x.a[0], lo, n))
    if x.op == 'ite': return ite(x.a[0], extract(x.a[1], lo, n), extract(x.a[2], lo, n))
    if lo == 0 and x.op in ('add','mul','sub') and n < x.w:
        f = {'add': add, 'mul': mul, 'sub': sub}[x.op]
        return f(extract(x.a[0], 0, n), extract(x.a[1], 0, n))
    if n == 1 and False: pass
    if lo == 0: lo_, hi_ = (x.lo, x.hi) if x.hi < (1 << n) else (0, None)
    else: lo_, hi_ = (x.lo >> lo, x.hi >> lo) if x.hi >> lo < (1 << n) else (0, None)
    return _mk('ext', n, (x, lo), lo_, hi_)
def concat(h, l):
    w = h.w + l.w
    if h.op == 'c' and l.op == 'c': return const((h.a << l.w) | l.a, w)
    if h.op == 'c' and h.a == 0: return zext(l, w)
    if h.w == 1 : h2 = None
    if h.op == 'zext':     # zeros on top float outwards
        return zext(concat(h.a[0], l), w)
    lh, ll = leaves(h), leaves(l)
    if lh is not None and ll is not None and len(lh)*len(ll) <= MAXP:
        return mkS([((v << l.w) | u, and_(g, k)) for v, g in lh for u, k in ll], w)
    if h.op == 'ext' and l.op == 'ext' and h.a[0] is l.a[0] and h.a[1] == l.a[1] + l.w:
        return extract(h.a[0], l.a[1], w)
    if h.op == 'ext' and l.op == 'concat' and l.a[0].op == 'ext' and l.a[0].a[0] is h.a[0] and h.a[1] == l.a[0].a[1] + l.a[0].w:
        return concat(extract(h.a[0], l.a[0].a[1], h.w + l.a[0].w), l.a[1])
    # canonical: right-nested (low part is the atom list tail)
    if h.op == 'concat':
        return concat(h.a[0], concat(h.a[1], l))
    if l.op == 'zext' and h.w >= 1:
        return _mk('concat', w, (h, l), (h.lo << l.w) | l.lo, (h.hi << l.w) | ((1 << l.w)-1))
    return _mk('concat', w, (h, l), (h.lo << l.w) | l.lo, (h.hi << l.w) | ((1 << l.w)-1))

def eq(x, y):
    if x is y: return TRUE
    k = ('e', x.id, y.id)
    r = _memo.get(k)
    if r is None: r = _memo[k] = _eq(x, y)
    return r
def _eq(x, y):
    w = x.w
    if w == 1: return not_(xor1(x, y))
    if x.op == 'c': x, y = y, x
    if x.hi < y.lo or y.hi < x.lo: return FALSE
    if x.op == 'c' and y.op == 'c': return boolc(x.a == y.a)
    if y.op == 'c':
        c = y.a
        if x.op == 'S':
            for v, g in x.a:
                if v == c:
                    _rec(g, [h.id for u, h in x.a if u != c])
                    return g
            return FALSE
        if x.op == 'zext':
            n = x.a[0].w
            return eq(x.a[0], const(c, n)) if c < (1 << n) else FALSE
        if x.op == 'sext':
            n = x.a[0].w
            return eq(x.a[0], const(c, n)) if (_s(c, w) == _s(c & ((1 << n)-1), n)) else FALSE
        if x.op == 'add' and x.a[1].op == 'c': return eq(x.a[0], const(c - x.a[1].a, w))
        if x.op == 'neg': return eq(x.a[0], const(-c, w))
        if x.op == 'bnot': return eq(x.a[0], const(~c, w))
        if x.op == 'bxor' and x.a[1].op == 'c': return eq(x.a[0], const(c ^ x.a[1].a, w))
        if x.op == 'shl' and x.a[1].op == 'c':
            k = x.a[1].a
            if c & ((1 << k)-1): return FALSE
            return eq(x.a[0], const(c >> k, w))
        if x.op == 'concat':
            h, l = x.a
            return and_(eq(h, const(c >> l.w, h.w)), eq(l, const(c, l.w)))
        if x.op == 'ite':
            a, b = x.a[1], x.a[2]
            if a.op in ('c', 'S') or b.op in ('c', 'S') or a.hi < c or a.lo > c or b.hi < c or b.lo > c:
                return ite(x.a[0], eq(a, y), eq(b, y))
        return _mk('eq', 1, (x, y))
    r = _bin_s('eq', x, y, w, 1)
    if r is not None: return r
    if x.op == 'zext' and y.op == 'zext':
        n = max(x.a[0].w, y.a[0].w)
        if n < w: return eq(zext(x.a[0], n), zext(y.a[0], n))
    if x.op == 'concat' and y.op == 'concat' and x.a[1].w == y.a[1].w:
        return and_(eq(x.a[0], y.a[0]), eq(x.a[1], y.a[1]))
    if x.op == 'ite' and y.op == 'ite' and x.a[0] is y.a[0]:
        return ite(x.a[0], eq(x.a[1], y.a[1]), eq(x.a[2], y.a[2]))
    bx, cx = (x.a[0], x.a[1].a) if x.op == 'add' and x.a[1].op == 'c' else (x, 0)
    by, cy = (y.a[0], y.a[1].a) if y.op == 'add' and y.a[1].op == 'c' else (y, 0)
    if bx is by: return boolc(((cx - cy) & ((1 << w)-1)) == 0)
    if x.id > y.id: x, y = y, x
    return _mk('eq', 1, (x, y))

def ult(x, y):
    if x is y: return FALSE
    k = ('u', x.id, y.id)
    r = _memo.get(k)
    if r is None: r = _memo[k] = _ult(x, y)
    return r
def _ult(x, y):
    w = x.w
    if w == 1: return and_(not_(x), y)
    if x.hi < y.lo: return TRUE
    if x.lo >= y.hi: return FALSE
    r = _bin_s('ult', x, y, w, 1)
    if r is not None: return r
    if y.op == 'c':
        if y.a == 1: return eq(x, const(0, w))
        if y.a == (1 << w) - 1: return not_(eq(x, y))
        if x.op == 'zext': return ult(x.a[0], const(y.a, x.a[0].w))     # y.a <= x.hi fits
        if x.op == 'ite':
            a, b = x.a[1], x.a[2]
            if a.op in ('c','S') or b.op in ('c','S'): return ite(x.a[0], ult(a, y), ult(b, y))
    if x.op == 'c':
        if x.a == 0: return not_(eq(y, x))
        if y.op == 'zext': return ult(const(x.a, y.a[0].w), y.a[0])
        if y.op == 'ite':
            a, b = y.a[1], y.a[2]
            if a.op in ('c','S') or b.op in ('c','S'): return ite(y.a[0], ult(x, a), ult(x, b))
    if x.op == 'zext' and y.op == 'zext':
        n = max(x.a[0].w, y.a[0].w)
        if n < w: return ult(zext(x.a[0], n), zext(y.a[0], n))
    return _mk('ult', 1, (x, y))
def ule(x, y): return not_(ult(y, x))
def slt(x, y):
    if x is y: return FALSE
    w = x.w
    r = _bin_s('slt', x, y, w, 1)
    if r is not None: return r
    h = w - 1
    xs = 0 if not (x.hi >> h) else (1 if x.lo >> h else None)
    ys = 0 if not (y.hi >> h) else (1 if y.lo >> h else None)
    if xs is not None and ys is not None:
        if xs == ys: return ult(x, y)
        return TRUE if xs == 1 else FALSE
    if x.op == 'sext' and y.op == 'sext' and x.a[0].w == y.a[0].w: return slt(x.a[0], y.a[0])
    if x.op == 'sext' and y.op == 'c':
        n = x.a[0].w; c = _s(y.a, w)
        if -(1 << (n-1)) <= c < (1 << (n-1)): return slt(x.a[0], const(c, n))
        return TRUE if c > 0 else FALSE
    if y.op == 'sext' and x.op == 'c':
        n = y.a[0].w; c = _s(x.a, w)
        if -(1 << (n-1)) <= c < (1 << (n-1)): return slt(const(c, n), y.a[0])
        return TRUE if c < 0 else FALSE
    if y.op == 'c' and y.a == 0 and w > 1: return eq(extract(x, h, 1), TRUE)
    return _mk('slt', 1, (x, y))
def sle(x, y): return not_(slt(y, x))

def show(t, d=4):
    if t.op == 'c': return '%d:%d' % (t.a, t.w)
    if t.op == 'v': return t.a
    if d == 0: return '#%d' % t.id
    if t.op == 'S': return 'S{' + ', '.join('%d:%s' % (v, show(g, d-1)) for v, g in t.a[:6]) + ('...' if len(t.a) > 6 else '') + '}'
    return '%s(%s)' % (t.op, ', '.join(show(x, d-1) if isinstance(x, T) else str(x) for x in t.a))

def size(ts):
    seen = set(); st = list(ts)
    while st:
        t = st.pop()
        if t.id in seen: continue
        seen.add(t.id)
        if t.op == 'S': st += [g for _, g in t.a]
        elif t.op not in ('c', 'v'): st += [x for x in t.a if isinstance(x, T)]
    return len(seen)

def evaluate(roots, env, val=None):
    """concrete value of terms under env: name -> int (missing = 0)"""
    if val is None: val = {}
    for r0 in roots:
        st = [r0]
        while st:
            t = st[-1]
            if t.id in val: st.pop(); continue
            o = t.op
            if o == 'c': val[t.id] = t.a; st.pop(); continue
            if o == 'v': val[t.id] = env.get(t.a, 0) & ((1 << t.w)-1); st.pop(); continue
            ch = [g for _, g in t.a] if o == 'S' else [x for x in t.a if isinstance(x, T)]
            todo = [c for c in ch if c.id not in val]
            if todo: st += todo; continue
            st.pop()
            w = t.w; m = (1 << w)-1
            if o == 'S':
                r = t.a[-1][0]
                for v, g in t.a:
                    if val[g.id]: r = v; break
            else:
                v = [val[c.id] for c in ch]
                if o == 'not': r = 1 - v[0]
                elif o == 'and': r = v[0] & v[1]
                elif o == 'ite': r = v[1] if v[0] else v[2]
                elif o == 'neg': r = -v[0] & m
                elif o == 'bnot': r = ~v[0] & m
                elif o == 'zext': r = v[0]
                elif o == 'sext': r = _s(v[0], ch[0].w) & m
                elif o == 'ext': r = (v[0] >> t.a[1]) & m
                elif o == 'concat': r = (v[0] << ch[1].w) | v[1]
                else: r = _fold(o, v[0], v[1], ch[0].w) & m
            val[t.id] = r
    return val
