"""IEEE-754 binary32/binary64 operations as bit-vector terms (round to nearest, ties to even, default
environment).  LLVM's floating-point instructions are expanded into these, so that the solver decides them
like any other bit-vector operation."""
from term import *

FMT = {64: (11, 52), 32: (8, 23)}

def parts(x):
    eb, mb = FMT[x.w]
    s = extract(x, x.w - 1, 1); e = extract(x, mb, eb); m = extract(x, 0, mb)
    return s, e, m

def is_nan(x):
    s, e, m = parts(x)
    return and_(eq(e, const(-1, e.w)), not_(eq(m, const(0, m.w))))
def is_inf(x):
    s, e, m = parts(x)
    return and_(eq(e, const(-1, e.w)), eq(m, const(0, m.w)))
def is_zero(x): return eq(extract(x, 0, x.w - 1), const(0, x.w - 1))
def qnan(w):
    eb, mb = FMT[w]
    return const(((1 << eb) - 1) << mb | 1 << (mb - 1), w)
def inf(s, w):
    eb, mb = FMT[w]
    return concat(s, const(((1 << eb) - 1) << mb, w - 1))
def zero(s, w): return concat(s, const(0, w - 1))
def bit(b, w): return ite(b, const(1, w), const(0, w))

E = 16          # width of (signed) working exponents
def unpack(x):
    """sign, exponent of the least significant bit (signed, unbiased), integer mantissa"""
    eb, mb = FMT[x.w]; bias = (1 << (eb - 1)) - 1
    s, e, m = parts(x)
    sub_ = eq(e, const(0, eb))
    ee = ite(sub_, const(1, E), zext(e, E))
    mant = concat(bit(not_(sub_), 1) if False else ite(sub_, FALSE, TRUE), m)
    return s, sub(ee, const(bias + mb, E)), mant

def shr_sticky(m, n):
    """m >> n, or-ing everything shifted out into the lowest bit; n is an E-bit unsigned count"""
    big = ult(const(m.w - 1, E), n)
    k = zext(n, m.w) if m.w > E else extract(n, 0, m.w) if m.w < E else n
    k = ite(big, const(m.w - 1, m.w), k)
    r = lshr(m, k)
    lost = not_(eq(shl(r, k), m))
    lost = ite(big, not_(eq(m, const(0, m.w))), lost)
    r = ite(big, const(0, m.w), r)
    return bor(r, zext(lost, m.w))

def round_pack(s, ex, m, w):
    """the w-bit float nearest to (-1)^s * m * 2^ex; m == 0 gives a zero of sign s; ex signed"""
    eb, mb = FMT[w]; bias = (1 << (eb - 1)) - 1
    W = max(m.w, mb + 4)
    if m.w < W: m = zext(m, W)
    z = eq(m, const(0, W))
    k = 1
    while k * 2 < W: k *= 2
    e = add(ex, const(W - 1 + bias, E))                       # biased exponent of the top bit
    while k:
        c = eq(extract(m, W - k, k), const(0, k))
        m = ite(c, shl(m, const(k, W)), m); e = ite(c, sub(e, const(k, E)), e); k //= 2
    sub_ = slt(e, const(1, E))
    m = ite(sub_, shr_sticky(m, sub(const(1, E), e)), m)
    top = extract(m, W - 1 - mb, mb + 1)
    g = extract(m, W - 2 - mb, 1)
    rest = not_(eq(extract(m, 0, W - 2 - mb), const(0, W - 2 - mb)))
    up = and_(g, or_(rest, extract(top, 0, 1)))
    ef = ite(sub_, const(0, E), sub(e, const(1, E)))          # the implicit bit adds one to the exponent field
    ovf = slt(const((1 << eb) - 2, E), e)
    body = add(shl(zext(extract(ef, 0, eb), w), const(mb, w)), zext(top, w))
    body = add(body, zext(up, w))
    r = concat(s, extract(body, 0, w - 1))
    return ite(z, zero(s, w), ite(ovf, inf(s, w), r))

def fadd(x, y):
    w = x.w; eb, mb = FMT[w]
    c = ult(extract(x, 0, w - 1), extract(y, 0, w - 1))
    a, b = ite(c, y, x), ite(c, x, y)
    sa, ea, ma = unpack(a); sb, eb_, mb_ = unpack(b)
    W = mb + 5
    A = shl(zext(ma, W), const(3, W)); B = shr_sticky(shl(zext(mb_, W), const(3, W)), sub(ea, eb_))
    same = eq1(sa, sb)
    m = ite(same, add(A, B), sub(A, B))
    r = round_pack(sa, sub(ea, const(3, E)), m, w)
    r = ite(eq(m, const(0, W)), zero(ite(same, sa, FALSE), w), r)
    r = ite(is_inf(a), ite(and_(is_inf(b), not_(same)), qnan(w), a), r)
    return ite(or_(is_nan(x), is_nan(y)), qnan(w), r)

def eq1(a, b): return not_(xor1(a, b))

def fmul(x, y):
    w = x.w; eb, mb = FMT[w]
    sx, ex, mx = unpack(x); sy, ey, my = unpack(y)
    s = xor1(sx, sy); W = 2 * (mb + 1)
    m = mul(zext(mx, W), zext(my, W))
    r = round_pack(s, add(ex, ey), m, w)
    r = ite(or_(is_inf(x), is_inf(y)), ite(or_(is_zero(x), is_zero(y)), qnan(w), inf(s, w)), r)
    return ite(or_(is_nan(x), is_nan(y)), qnan(w), r)

def fp(op, x, y):
    if x.w not in FMT or y.w != x.w: raise Unsup('float width')
    if op == 'fadd': return fadd(x, y)
    if op == 'fsub': return fadd(x, bxor(y, const(1 << (y.w - 1), y.w)))
    if op == 'fmul': return fmul(x, y)
    raise Unsup(op)

def fpcast(op, x, w):
    if op in ('uitofp', 'sitofp'):
        if w not in FMT: raise Unsup(op)
        s = FALSE
        if x.w == 1: x = zext(x, 8)
        if op == 'sitofp':
            s = extract(x, x.w - 1, 1); x = ite(s, neg(x), x)
        return ite(eq(x, const(0, x.w)), const(0, w), round_pack(s, const(0, E), x, w))
    if op in ('fptrunc', 'fpext'):
        if x.w not in FMT or w not in FMT: raise Unsup(op)
        s, ex, m = unpack(x)
        r = round_pack(s, ex, m, w)
        r = ite(is_inf(x), inf(s, w), r)
        return ite(is_nan(x), qnan(w), r)
    if op in ('fptoui', 'fptosi'):
        if x.w not in FMT: raise Unsup(op)
        s, ex, m = unpack(x); W = max(w, m.w) + 1
        m = zext(m, W)
        negex = slt(ex, const(0, E))
        n = ite(negex, neg(ex), ex); big = ult(const(W - 1, E), n)
        k = zext(n, W) if W > E else extract(n, 0, W)
        k = ite(big, const(0, W), k)
        r = ite(big, const(0, W), ite(negex, lshr(m, k), shl(m, k)))   # out of range is poison: any value will do
        r = ite(s, neg(r), r)
        return extract(r, 0, w)
    raise Unsup(op)

def fcmp(p, x, y):
    if p in ('true', 'false'): return boolc(p == 'true')
    if x.w not in FMT: raise Unsup('float width')
    un = or_(is_nan(x), is_nan(y))
    if p == 'uno': return un
    if p == 'ord': return not_(un)
    z = and_(is_zero(x), is_zero(y))
    sx = extract(x, x.w - 1, 1); sy = extract(y, y.w - 1, 1)
    ax = extract(x, 0, x.w - 1); ay = extract(y, 0, y.w - 1)
    e = or_(z, eq(x, y))
    lt = ite(sx, ite(sy, ult(ay, ax), not_(z)), ite(sy, FALSE, ult(ax, ay)))
    r = {'eq': e, 'ne': not_(e), 'lt': lt, 'le': or_(lt, e), 'gt': not_(or_(lt, e)), 'ge': not_(lt)}[p[1:]]
    return and_(not_(un), r) if p[0] == 'o' else or_(un, r)

def fabs(x): return concat(FALSE, extract(x, 0, x.w - 1))
def fpclass(x, mask):
    s, e, m = parts(x)
    q = and_(is_nan(x), extract(m, m.w - 1, 1)); sn = and_(is_nan(x), not_(q))
    z = is_zero(x); i = is_inf(x); sb = and_(eq(e, const(0, e.w)), not_(z)); no = and_all([not_(is_nan(x)), not_(z), not_(i), not_(sb)])
    r = FALSE
    for k, c in enumerate([sn, q, and_(s, i), and_(s, no), and_(s, sb), and_(s, z), and_(not_(s), z), and_(not_(s), sb), and_(not_(s), no), and_(not_(s), i)]):
        if mask >> k & 1: r = or_(r, c)
    return r
