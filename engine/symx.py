"""Symbolic executor for LLVM IR with path merging (bounded model checking).

One pass over the unrolled control-flow graph in topological order; at every join the
path conditions, SSA values and memory are merged.  Loops are unrolled until their
continuation is impossible (by simplification or, failing that, by a solver query), so
no loop is ever cut short: a loop that does not end within `max_iter` raises Bound.

Obligations (vf_assert, memory accesses, sanitizer traps, library preconditions) are
collected as (kind, id, formula that must be unsatisfiable)."""
import sys, re
import term as tm, fp as fpm
from term import (T, TRUE, FALSE, const, and_, or_, not_, ite, and_all, or_all, mkS, leaves, add, sub, mul, shl, eq, ult,
                  slt, zext, sext, extract, concat)
from llir import Unsupported, BIN, CAST

sys.setrecursionlimit(20000)

class Bound(Exception): pass

class PC:
    __slots__ = ('par', 'lit', 'depth', 'full', 'dead')
    def __init__(self, par, lit):
        self.par = par; self.lit = lit
        if par is None: self.depth = 0; self.full = lit; self.dead = frozenset()
        else:
            self.depth = par.depth + 1; self.full = and_(par.full, lit)
            d = tm.CT.get(lit.id); self.dead = par.dead
            n = not_(lit)
            if d: self.dead = self.dead | d
            if n.op != 'c': self.dead = self.dead | {n.id}

def known(pc, c):
    """truth of literal c under the recent history of pc, or None"""
    nc = not_(c); n = 0
    while pc is not None and n < 40:
        l = pc.lit
        if l is c: return True
        if l is nc: return False
        pc = pc.par; n += 1
    return None

def extend(pc, lit):
    if lit is TRUE: return pc
    k = known(pc, lit)
    if k is True: return pc
    if k is False: return PC(pc, FALSE)
    return PC(pc, lit)

def join(pcs):
    if len(pcs) == 1: return pcs[0], [TRUE]
    anc = pcs[0]
    for p in pcs[1:]:
        a, b = anc, p
        while a.depth > b.depth: a = a.par
        while b.depth > a.depth: b = b.par
        while a is not b: a = a.par; b = b.par
        anc = a
    rels = []
    for p in pcs:
        ls = []
        while p is not anc: ls.append(p.lit); p = p.par
        rels.append(and_all(reversed(ls)))
    o = or_all(rels)
    return (anc if o is TRUE else PC(anc, o)), rels

class Obj:
    __slots__ = ('id', 'size', 'kind', 'name', 'init', 'base', 'ro')
    def __init__(self, id, size, kind, name='', init=None, ro=False):
        self.id = id; self.size = size; self.kind = kind; self.name = name; self.init = init; self.ro = ro
        self.base = (id + 1) << 32
    def __repr__(self): return 'Obj%d(%s,%s)' % (self.id, self.kind, self.name)

class Ptr:
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = alts
    def __repr__(self): return 'Ptr' + repr([(tm.show(g, 1), o, tm.show(f, 2)) for g, o, f in self.alts])
Z64 = const(0, 64)
NULLOBJ = Obj(-1, 0, 'null', 'null')
NULLOBJ.base = 0
def null(): return Ptr(((TRUE, NULLOBJ, const(0, 64)),))

class Agg:
    __slots__ = ('v',)
    def __init__(self, v): self.v = v

class Mem:
    __slots__ = ('d', 'own')
    def __init__(self, d=None):
        self.d = {} if d is None else d; self.own = set()
    def fork(self):
        self.own = set()
        return Mem(dict(self.d))

def same(a, b):
    if a is b: return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return len(a.alts) == len(b.alts) and all(x[0] is y[0] and x[1] is y[1] and x[2] is y[2] for x, y in zip(a.alts, b.alts))
    if isinstance(a, Agg) and isinstance(b, Agg):
        return len(a.v) == len(b.v) and all(same(x, y) for x, y in zip(a.v, b.v))
    return False

class Fn:
    """per-function static information"""
    pass

class Exec:
    def __init__(self, mod, cfg=None):
        self.m = mod; cfg = cfg or {}
        self.max_iter = cfg.get('max_iter', 300)
        self.check_from = cfg.get('check_from', 20)
        self.model = cfg.get('model'); self.pool = [] if self.model else None
        self.solver = cfg.get('solver')          # callable: PC formula -> bool feasible
        self.stubs = cfg.get('stubs', {})
        self.nobj = 0
        self.globs = {}
        self.fninfo = {}
        self.oblig = []; self.covers = []; self.outs = []
        self.ubs = []
        self.tids = {}
        self.stats = {'instr': 0, 'feas': 0, 'calls': 0, 'loops': 0, 'maxloop': 0}
        self.encoded = set()
        self.depth = 0
        self.exc_types = {}     # exc object id -> type
        self.symcache = {}
        self._sz = {}
        self.IN = None
        self.ninputs = 0
        self.caught = []
        self.static_guard = {}

    # ------------------------------------------------------------ layout
    def resolve(self, t): return self.m.types[t[1]] if t[0] == 'st' else t
    def sa(self, t):
        r = self._sz.get(t)
        if r is None: r = self._sz[t] = self._sa(t)
        return r
    def _sa(self, t):
        k = t[0]
        if k == 'i':
            n = t[1]
            for w in (8, 16, 32, 64, 128):
                if n <= w: return w//8, w//8
            return ((n + 127)//128)*16, 16
        if k in ('ptr', 'double'): return 8, 8
        if k == 'float': return 4, 4
        if k == 'x86_fp80': return 16, 16
        if k == 'arr':
            s, a = self.sa(t[2]); return s*t[1], a
        if k == 'vec':
            s, a = self.sa(t[2]); return s*t[1], s*t[1]
        if k == 'st': return self.sa(self.m.types[t[1]])
        if k == 'lst':
            off, al = 0, 1
            for e in t[2]:
                s, a = self.sa(e)
                if t[1]: a = 1
                off = (off + a - 1)//a*a + s; al = max(al, a)
            return (off + al - 1)//al*al, al
        if k == 'opaque': return 0, 1
        raise Unsupported('size of %r' % (t,))
    def size(self, t): return self.sa(t)[0]
    def foff(self, t, idx):
        off = 0
        for j, e in enumerate(t[2]):
            s, a = self.sa(e)
            if t[1]: a = 1
            off = (off + a - 1)//a*a
            if j == idx: return off
            off += s

    # ------------------------------------------------------------ objects
    def new_obj(self, size, kind, name='', init=None, ro=False):
        o = Obj(self.nobj, size, kind, name, init, ro); self.nobj += 1
        return o
    def ptr(self, o, off=0): return Ptr(((TRUE, o, const(off, 64)),))
    def glob(self, g):
        while g in self.m.aliases: g = self.m.aliases[g][1]
        if isinstance(g, tuple): g = g[1]
        o = self.globs.get(g)
        if o is None:
            if g in self.m.globals:
                t, v, c = self.m.globals[g]
                try: sz = self.size(t)
                except Unsupported: sz = 0
                if v is None: sz = max(sz, 64)
                o = self.new_obj(sz, 'global', g, None, c)
                self.globs[g] = o
                cells = {}
                if v is not None: self.init_cells(cells, 0, t, v)
                o.init = cells
            elif g in self.m.funcs or g in self.m.decls:
                o = self.new_obj(1, 'fn', g); o.init = {}
                self.globs[g] = o
            else: raise Unsupported('unknown global ' + g)
        return o
    def init_cells(self, cells, off, t, v):
        r = self.resolve(t); k = v[0]
        if k == 'undef': return
        if k == 'zero':
            if r[0] == 'i': cells[off] = (self.size(r), const(0, self.size(r)*8)); return
            if r[0] == 'ptr': cells[off] = (8, null()); return
            if r[0] in ('float','double'): cells[off] = (self.size(r), const(0, self.size(r)*8)); return
            if r[0] in ('arr', 'vec'):
                s = self.size(r[2])
                for i in range(r[1]): self.init_cells(cells, off + i*s, r[2], v)
                return
            if r[0] == 'lst':
                for i, e in enumerate(r[2]): self.init_cells(cells, off + self.foff(r, i), e, v)
                return
        if k == 'cstr':
            for i, b in enumerate(cstr_bytes(v[1])): cells[off+i] = (1, const(b, 8))
            return
        if k == 'agg':
            if r[0] in ('arr', 'vec'):
                s = self.size(r[2])
                for i, (a, b) in enumerate(v[1]): self.init_cells(cells, off + i*s, a, b)
            else:
                for i, (a, b) in enumerate(v[1]): self.init_cells(cells, off + self.foff(r, i), a, b)
            return
        x = self.cval(t, v)
        n = self.size(r)
        if isinstance(x, T) and x.w != n*8: x = zext(x, n*8)
        cells[off] = (n, x)

    # ------------------------------------------------------------ constants / operands
    def cval(self, t, v):
        k = v[0]
        if k == 'int': return const(v[1], t[1])
        if k == 'g': return self.ptr(self.glob(v[1]))
        if k == 'null': return null()
        if k in ('undef', 'zero'):
            r = self.resolve(t)
            if r[0] == 'i': return const(0, r[1])
            if r[0] == 'ptr': return null()
            if r[0] == 'lst': return Agg([self.cval(e, v) for e in r[2]])
            if r[0] in ('arr','vec'): return Agg([self.cval(r[2], v) for _ in range(r[1])])
            if r[0] == 'double': return const(0, 64)
            if r[0] == 'float': return const(0, 32)
            raise Unsupported('zero of %r' % (t,))
        if k == 'agg': return Agg([self.cval(a, b) for a, b in v[1]])
        if k == 'gep': return self.gep(v[1], [(ot, self.cval(ot, ov)) for ot, ov in v[2]])
        if k == 'cast': return self.cast(v[1], v[2], self.cval(v[2], v[3]), v[4])
        if k == 'cbin': return self.bin(v[1], self.cval(v[2], v[3]), self.cval(v[2], v[4]), None)
        if k in ('flt', 'fhex'):
            import struct
            if k == 'fhex':
                if not re.fullmatch(r'0x[0-9A-Fa-f]{16}', v[1]): raise Unsupported('float const ' + v[1])
                b = int(v[1], 16)
                d = struct.unpack('>d', b.to_bytes(8, 'big'))[0]
            else: d = float(v[1])
            if t[0] == 'double': return const(struct.unpack('>Q', struct.pack('>d', d))[0], 64)
            return const(struct.unpack('>I', struct.pack('>f', d))[0], 32)
        raise Unsupported('const %r' % (v,))
    def val(self, regs, t, v):
        if v[0] == 'l':
            return regs[v[1]]
        return self.cval(t, v)

    # ------------------------------------------------------------ merging
    def merge(self, rels, vals):
        """value selected by the (disjoint, covering) conditions rels; None = undef"""
        groups = []
        for r, v in zip(rels, vals):
            if v is None: continue
            for g in groups:
                if same(g[1], v): g[0].append(r); break
            else: groups.append([[r], v])
        if not groups: return None
        if len(groups) == 1: return groups[0][1]
        v0 = groups[0][1]
        if isinstance(v0, T):
            for _, v in groups:
                if not isinstance(v, T):
                    return self.merge_ptr([(or_all(g), self.to_ptr(x)) for g, x in groups])
            conds = [or_all(g) for g, _ in groups]
            # most complex last
            r = groups[-1][1]
            for c, (_, v) in reversed(list(zip(conds[:-1], groups[:-1]))): r = ite(c, v, r)
            return r
        if isinstance(v0, Ptr): return self.merge_ptr([(or_all(g), self.to_ptr(x)) for g, x in groups])
        if isinstance(v0, Agg):
            conds = [or_all(g) for g, _ in groups]
            return Agg([self.merge(conds, [v.v[i] for _, v in groups]) for i in range(len(v0.v))])
        raise Unsupported('merge ' + repr(v0))
    def to_ptr(self, x):
        return x if isinstance(x, Ptr) else self.int2ptr(x)
    def merge_ptr(self, items):
        by = {}
        for c, p in items:
            for g, o, f in p.alts:
                gg = and_(c, g)
                if gg is FALSE: continue
                by.setdefault(o.id, (o, []))[1].append((gg, f))
        alts = []
        for o, l in by.values():
            fs = {}
            for g, f in l: fs.setdefault(f.id, (f, []))[1].append(g)
            guard = or_all([g for g, _ in l])
            l2 = [(or_all(gs), f) for f, gs in fs.values()]
            f = l2[-1][1]
            for g, x in reversed(l2[:-1]): f = ite(g, x, f)
            alts.append((guard, o, f))
        if not alts: return null()
        if len(alts) == 1: return Ptr(((TRUE, alts[0][1], alts[0][2]),))
        return Ptr(tuple(alts))
    def merge_mem(self, rels, mems):
        if len(mems) == 1: return mems[0]
        base = mems[0]
        out = Mem()
        d = out.d
        n = len(mems)
        xs = [(r, m.d['exc']) for r, m in zip(rels, mems) if 'exc' in m.d]
        if xs:   # the exception being handled
            d['exc'] = xs[0][1] if all(x is xs[0][1] for _, x in xs) else tuple(self.merge([r for r, _ in xs], [Agg(list(x)) for _, x in xs]).v)
        for oid, c0 in base.d.items():
            if oid == 'exc': continue
            cs = [c0]; ok = True; ident = True
            for m in mems[1:]:
                c = m.d.get(oid)
                if c is None: ok = False; break
                if c is not c0: ident = False
                cs.append(c)
            if not ok: 
                o = self.gobj.get(oid)
                if o is None: continue
                # global (initial contents where absent)
                cs = [m.d.get(oid, o.init) for m in mems]
                ident = False
            if ident: d[oid] = c0
            else: d[oid] = self.merge_cells(rels, cs); out.own.add(oid)
        for m in mems[1:]:
            for oid in m.d:
                if oid not in base.d and oid not in d and oid != 'exc':
                    o = self.gobj.get(oid)
                    if o is not None:
                        cs = [mm.d.get(oid, o.init) for mm in mems]
                        d[oid] = self.merge_cells(rels, cs); out.own.add(oid)
                    elif oid in self.heapids:
                        # heap block allocated on some paths only: keep (accesses through guarded pointers)
                        cs = [mm.d[oid] for mm in mems if oid in mm.d]
                        rr = [r for r, mm in zip(rels, mems) if oid in mm.d]
                        d[oid] = cs[0] if all(c is cs[0] for c in cs) else self.merge_cells(rr, cs)
        for oid in base.d:
            if oid not in d and oid in self.heapids:
                cs = [mm.d[oid] for mm in mems if oid in mm.d]
                rr = [r for r, mm in zip(rels, mems) if oid in mm.d]
                d[oid] = cs[0] if all(c is cs[0] for c in cs) else self.merge_cells(rr, cs)
        return out
    gobj = {}
    heapids = set()
    def merge_cells(self, rels, cs):
        # group identical cell maps
        gs = []
        for r, c in zip(rels, cs):
            for g in gs:
                if g[1] is c: g[0].append(r); break
            else: gs.append(([r], c))
        if len(gs) == 1: return gs[0][1]
        rels = [or_all(g) for g, _ in gs]; cs = [c for _, c in gs]
        out = {}
        keys = set()
        for c in cs: keys.update(c)
        conflict = False
        for k in sorted(keys):
            ns = set(c[k][0] for c in cs if k in c)
            if len(ns) > 1: conflict = True; break
        if not conflict:
            # overlapping cells with different starts?
            pos = -1
            for k in sorted(keys):
                n = next(c[k][0] for c in cs if k in c)
                if k < pos: conflict = True; break
                pos = k + n
        if conflict:
            cs = [self.normalise(c, cs) for c in cs]
            keys = set()
            for c in cs: keys.update(c)
        for k in keys:
            vals = []; n = None
            for c in cs:
                e = c.get(k)
                if e is None: vals.append(None)
                else: vals.append(e[1]); n = e[0]
            v = self.merge(rels, vals)
            if v is not None: out[k] = (n, v)
        return out
    def normalise(self, c, cs):
        """split cells at every boundary used in any of cs"""
        cuts = set()
        for x in cs:
            for k, (n, _) in x.items(): cuts.add(k); cuts.add(k+n)
        out = {}
        for k, (n, v) in c.items():
            ins = sorted(x for x in cuts if k < x < k+n)
            if not ins: out[k] = (n, v); continue
            if isinstance(v, Ptr): v = self.ptr2int(v)
            p = k
            for q in ins + [k+n]:
                out[p] = (q-p, extract(v, 8*(p-k), 8*(q-p))); p = q
        return out

    # ------------------------------------------------------------ memory
    def cells(self, mem, o):
        c = mem.d.get(o.id)
        if c is None and o.kind in ('global', 'fn'): return o.init
        return c
    def wcells(self, mem, o):
        c = mem.d.get(o.id)
        if c is None:
            if o.kind != 'global': return None
            c = dict(o.init); mem.d[o.id] = c; mem.own.add(o.id); self.gobj[o.id] = o
            return c
        if o.id not in mem.own:
            c = dict(c); mem.d[o.id] = c; mem.own.add(o.id)
        return c
    def ob(self, kind, id, t):
        if t is not FALSE: self.oblig.append((kind, id, t))

    def enum(self, mem, p, n, pc, what):
        """list of (guard, obj, concrete offset) an n-byte access through p may touch; out-of-bounds => obligation"""
        out = []
        if not isinstance(p, Ptr): p = self.int2ptr(p)
        p = self.restrict(p, pc)
        for g, o, f in p.alts:
            if o.kind == 'null':
                self.ob('MEM', what + ' through null', and_(pc.full, g)); continue
            cs = self.cells(mem, o)
            if cs is None:
                self.ob('MEM', what + ' of dead object ' + o.name, and_(pc.full, g)); continue
            if o.kind == 'fn':
                self.ob('MEM', what + ' of function', and_(pc.full, g)); continue
            sz = o.size
            if isinstance(sz, T):
                # symbolic size: need off + n <= size
                lim = sz
                ok = and_(not_(ult(lim, const(n, 64))), not_(ult(sub(lim, const(n, 64)), f)))
                self.ob('MEM', what + ' out of bounds of ' + o.name, and_(and_(pc.full, g), not_(ok)))
                sz = sz.hi
            if f.op == 'c':
                if f.a + n > sz:
                    self.ob('MEM', '%s out of bounds of %s (offset %d, %d bytes, size %d)' % (what, o.name, f.a if f.a < 1 << 63 else f.a - (1 << 64), n, sz), and_(pc.full, g)); continue
                out.append((g, o, f.a)); continue
            lv = leaves(f)
            if lv is not None:
                for v, lg in lv:
                    gg = and_(g, lg)
                    if v + n > sz: self.ob('MEM', what + ' out of bounds of ' + o.name, and_(pc.full, gg)); continue
                    if gg is FALSE: continue
                    out.append((gg, o, v))
                continue
            if f.hi + n > sz:
                self.ob('MEM', what + ' out of bounds of ' + o.name, and_(and_(pc.full, g), ult(const(sz - n, 64), f) if sz >= n else TRUE))
            st = stride(f)
            hi = min(f.hi, sz - n)
            lo = f.lo
            r = rem(f, st)
            k = lo + ((r - lo) % st)
            if (hi - k)//st > 600: raise Unsupported('symbolic offset with too many candidates: ' + tm.show(f))
            while k <= hi:
                out.append((and_(g, eq(f, const(k, 64))), o, k)); k += st
        return out

    def rd(self, mem, o, off, n, cs=None):
        """value (T of 8n bits, or Ptr) at concrete offset; None if entirely uninitialised"""
        if cs is None: cs = self.cells(mem, o)
        e = cs.get(off)
        if e is not None:
            if e[0] == n: return e[1]
            if e[0] > n:
                v = e[1]
                if isinstance(v, Ptr): v = self.ptr2int(v)
                return extract(v, 0, 8*n)
        # assemble from pieces
        p = off; parts = []; got = False
        end = off + n
        while p < end:
            e = cs.get(p); base = p
            if e is None:
                for q in range(p-1, p-17, -1):
                    x = cs.get(q)
                    if x is not None:
                        if q + x[0] > p: e = x; base = q
                        break
            if e is None:
                parts.append(None); p += 1; continue
            take = min(base + e[0], end) - p
            v = e[1]
            if isinstance(v, Ptr): v = self.ptr2int(v)
            parts.append(extract(v, 8*(p-base), 8*take)); p += take; got = True
        if not got: return None
        r = None
        for x in parts:
            if x is None: x = tm.fresh(8)
            r = x if r is None else concat(x, r)
        return r
    def wr(self, mem, o, off, n, v):
        cs = self.wcells(mem, o)
        e = cs.get(off)
        if e is not None and e[0] == n: cs[off] = (n, v); return
        # clear overlaps
        for q in range(off-16, off+n):
            x = cs.get(q)
            if x is None or q + x[0] <= off: continue
            del cs[q]
            xv = x[1]
            if q < off or q + x[0] > off + n:
                if isinstance(xv, Ptr): xv = self.ptr2int(xv)
                if q < off: cs[q] = (off-q, extract(xv, 0, 8*(off-q)))
                if q + x[0] > off + n:
                    cs[off+n] = (q + x[0] - off - n, extract(xv, 8*(off+n-q), 8*(q+x[0]-off-n)))
        cs[off] = (n, v)

    def load(self, mem, p, t, pc):
        r = self.resolve(t)
        if r[0] == 'lst':
            return Agg([self.load(mem, self.padd(p, self.foff(r, i)), e, pc) for i, e in enumerate(r[2])])
        if r[0] in ('arr', 'vec'):
            s = self.size(r[2])
            return Agg([self.load(mem, self.padd(p, i*s), r[2], pc) for i in range(r[1])])
        n = (r[1] + 7)//8 if r[0] == 'i' else self.size(r)
        if r[0] == 'i' and r[1] in (1,): n = 1
        acc = self.enum(mem, p, n, pc, 'load')
        if not acc:
            v = None
        elif len(acc) == 1: v = self.rd(mem, acc[0][1], acc[0][2], n)
        else:
            vals = [self.rd(mem, o, k, n) for _, o, k in acc]
            v = self.merge([g for g, _, _ in acc], vals)
        if v is None:
            if r[0] == 'ptr': return null()
            v = tm.fresh(8*n)
        if r[0] == 'ptr':
            return v if isinstance(v, Ptr) else self.int2ptr(v)
        if isinstance(v, Ptr): v = self.ptr2int(v)
        if r[0] == 'i' and r[1] != v.w: v = extract(v, 0, r[1])
        return v
    def store(self, mem, p, t, v, pc):
        r = self.resolve(t)
        if isinstance(v, Agg):
            if r[0] == 'lst':
                for i, e in enumerate(r[2]): self.store(mem, self.padd(p, self.foff(r, i)), e, v.v[i], pc)
            else:
                s = self.size(r[2])
                for i in range(r[1]): self.store(mem, self.padd(p, i*s), r[2], v.v[i], pc)
            return
        n = (r[1] + 7)//8 if r[0] == 'i' else self.size(r)
        if isinstance(v, T) and v.w != 8*n: v = zext(v, 8*n)
        acc = self.enum(mem, p, n, pc, 'store')
        self.store_acc(mem, acc, n, v, pc)
    def store_acc(self, mem, acc, n, v, pc):
        for g, o, k in acc:
            if o.ro: self.ob('MEM', 'store to constant ' + o.name, and_(pc.full, g))
        if len(acc) == 1:
            self.wr(mem, acc[0][1], acc[0][2], n, v); return
        for g, o, k in acc:
            old = self.rd(mem, o, k, n)
            self.wr(mem, o, k, n, self.merge([g, not_(g)], [v, old]))
    def padd(self, p, k):
        if k == 0: return p
        if not isinstance(p, Ptr): p = self.int2ptr(p)
        kk = const(k, 64)
        return Ptr(tuple((g, o, add(f, kk)) for g, o, f in p.alts))
    def paddt(self, p, t):
        if not isinstance(p, Ptr): p = self.int2ptr(p)
        return Ptr(tuple((g, o, add(f, t)) for g, o, f in p.alts))
    def ptr2int(self, p):
        a = p.alts
        r = add(a[-1][2], const(a[-1][1].base, 64))
        for g, o, f in reversed(a[:-1]): r = ite(g, add(f, const(o.base, 64)), r)
        return r
    def int2ptr(self, x):
        lv = leaves(x)
        if lv is not None:
            alts = []
            for v, g in lv:
                o, off = self.addr(v)
                alts.append((g, self.ptr(o, off)))
            return self.merge_ptr(alts)
        if x.op == 'add' and x.a[1].op == 'c':
            o, off = self.addr(x.a[1].a)
            if o is not NULLOBJ: return Ptr(((TRUE, o, add(x.a[0], const(off, 64))),))
        if x.op == 'ite': return self.merge_ptr([(x.a[0], self.int2ptr(x.a[1])), (not_(x.a[0]), self.int2ptr(x.a[2]))])
        raise Unsupported('inttoptr ' + tm.show(x))
    def addr(self, v):
        if v == 0: return NULLOBJ, 0
        k = (v >> 32) - 1
        o = self.byid.get(k)
        if o is None: return NULLOBJ, v
        return o, v - o.base
    @property
    def byid(self):
        d = {}
        for o in self.globs.values(): d[o.id] = o
        for o in self.allobjs: d[o.id] = o
        return d
    allobjs = []

    def copy(self, mem, d, s, n, pc, move):
        """memcpy / memmove with constant n"""
        if n == 0: return
        sa = self.enum(mem, s, n, pc, 'memcpy read'); da = self.enum(mem, d, n, pc, 'memcpy write')
        if not sa or not da: return
        # chunk structure: cut points of all sources
        cuts = {0, n}
        for _, o, k in sa:
            cs = self.cells(mem, o)
            for q, (m, _) in (cs.items() if len(cs) < 4*n else [(q, cs[q]) for q in range(k-16, k+n) if q in cs]):
                for x in (q - k, q + m - k):
                    if 0 < x < n: cuts.add(x)
        cl = sorted(cuts); items = []
        for a, b in zip(cl, cl[1:]):
            if b - a > 16:
                # uninitialised gap
                vals = [self.rd(mem, o, k+a, 1) for _, o, k in sa]
                if all(v is None for v in vals): continue
            vals = [self.rd(mem, o, k+a, b-a) for _, o, k in sa]
            v = self.merge([g for g, _, _ in sa], vals) if len(sa) > 1 else vals[0]
            if v is None: continue
            items.append((a, b-a, v))
        for a, m, v in items:
            self.store_acc(mem, [(g, o, k+a) for g, o, k in da], m, v, pc)
    def copy_sym(self, mem, d, s, n, pc):
        """symbolic length: bytewise, conditional"""
        lv = leaves(n)
        mx = n.hi
        if mx > 512: raise Unsupported('memcpy of symbolic length up to %d' % mx)
        # read all first (memmove semantics), only where k < n
        vals = []
        k = 0
        def bound(p):
            b = 0
            for g, o, f in p.alts:
                sz = o.size.hi if isinstance(o.size, T) else o.size
                b = max(b, sz - f.lo if f.lo <= sz else 0)
            return b
        lim = min(mx, bound(d), bound(s))
        if lim < mx:
            self.ob('MEM', 'copy longer than the objects', and_(pc.full, ult(const(lim, 64), n)))
        for k in range(lim):
            c = ult(const(k, 64), n)
            if c is FALSE: break
            pk = extend(pc, c)
            if pk.full is FALSE: continue
            vals.append((k, c, pk, self.load(mem, self.padd(s, k), ('i', 8), pk)))
        for k, c, pk, v in vals:
            acc = self.enum(mem, self.padd(d, k), 1, pk, 'memcpy write')
            self.store_acc(mem, [(and_(c, g), o, q) for g, o, q in acc] if c is not TRUE else acc, 1, v, pk) if c is TRUE or len(acc) > 1 else self.cond_store(mem, acc, c, v)
    def cond_store(self, mem, acc, c, v):
        for g, o, k in acc:
            gg = and_(c, g)
            old = self.rd(mem, o, k, 1)
            self.wr(mem, o, k, 1, self.merge([gg, not_(gg)], [v, old]))
    def fill(self, mem, d, v, n, pc):
        if n.op == 'c':
            k = n.a
            if k == 0: return
            acc = self.enum(mem, d, k, pc, 'memset')
            if len(acc) == 1:
                g, o, off = acc[0]
                cs = self.wcells(mem, o)
                # keep existing cell structure where cells lie entirely inside; otherwise bytes/words
                p = off; end = off + k
                zero = v.op == 'c' and v.a == 0
                while p < end:
                    e = cs.get(p)
                    if e is not None and p + e[0] <= end: m = e[0]
                    elif zero and p % 8 == 0 and p + 8 <= end and not any((p+j) in cs for j in range(1, 8)): m = 8
                    else: m = 1
                    w = const(0, 8*m) if zero else v
                    if not zero:
                        w = v
                        for _ in range(m-1): w = concat(v, w)
                    self.wr(mem, o, p, m, w); p += m
                return
            for i in range(k): self.store_acc(mem, [(g, o, q+i) for g, o, q in acc], 1, v, pc)
            return
        if n.hi > 512: raise Unsupported('memset symbolic length')
        for k in range(n.hi):
            c = ult(const(k, 64), n)
            pk = extend(pc, c)
            if pk.full is FALSE: continue
            acc = self.enum(mem, self.padd(d, k), 1, pk, 'memset')
            self.cond_store(mem, acc, c, v)

    # ------------------------------------------------------------ operations
    def gep(self, t, ops):
        p = ops[0][1]
        if not isinstance(p, Ptr): p = self.int2ptr(p)
        off = Z64
        cur = t
        off = const(0, 64)
        for k, (ot, ov) in enumerate(ops[1:]):
            if k == 0: s = self.size(cur)
            else:
                r = self.resolve(cur)
                if r[0] == 'lst':
                    off = add(off, const(self.foff(r, ov.a), 64)); cur = r[2][ov.a]; continue
                s = self.size(r[2]); cur = r[2]
            if isinstance(ov, Ptr): ov = self.ptr2int(ov)
            x = sext(ov, 64) if ov.w < 64 else extract(ov, 0, 64)
            off = add(off, mul(x, const(s, 64)))
        if off.op == 'c' and off.a == 0: return p
        return Ptr(tuple((g, o, add(f, off)) for g, o, f in p.alts))

    def psub(self, x, y):
        """difference of two pointer-valued integers"""
        conds = []; vals = []
        for g, o, f in x.alts:
            for h, q, k in y.alts:
                gg = and_(g, h)
                if gg is FALSE: continue
                conds.append(gg)
                vals.append(sub(f, k) if o is q else sub(add(f, const(o.base, 64)), add(k, const(q.base, 64))))
        if len(x.alts) > 1 and len(y.alts) > 1 and [(a[0], a[1]) for a in x.alts] == [(a[0], a[1]) for a in y.alts]:
            conds = [a[0] for a in x.alts]; vals = [sub(a[2], b[2]) for a, b in zip(x.alts, y.alts)]
        elif {a[1].id for a in x.alts} == {a[1].id for a in y.alts}:
            # same objects: the guards select the same alternative whenever they are about the same choice
            pass
        return self.merge(conds, vals)
    def bin(self, op, x, y, pc):
        if op == 'sub' and isinstance(x, Ptr) and isinstance(y, Ptr): return self.psub(x, y)
        if op == 'add' and isinstance(x, Ptr) and isinstance(y, T): return self.paddt(x, y)
        if op == 'add' and isinstance(y, Ptr) and isinstance(x, T): return self.paddt(y, x)
        if op == 'sub' and isinstance(x, Ptr) and isinstance(y, T): return self.paddt(x, tm.neg(y))
        if isinstance(x, Ptr): x = self.ptr2int(x)
        if isinstance(y, Ptr): y = self.ptr2int(y)
        if isinstance(x, Agg): return Agg([self.bin(op, a, b, pc) for a, b in zip(x.v, y.v)])
        if op == 'add': return add(x, y)
        if op == 'sub': return sub(x, y)
        if op == 'mul': return mul(x, y)
        if op == 'and': return tm.band(x, y)
        if op == 'or': return tm.bor(x, y)
        if op == 'xor': return tm.bxor(x, y)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if pc is not None and y.lo == 0: self.ob('DIV0', op, and_(pc.full, eq(y, const(0, y.w))))
            return {'udiv': tm.udiv, 'urem': tm.urem, 'sdiv': tm.sdiv, 'srem': tm.srem}[op](x, y)
        if op in ('shl', 'lshr', 'ashr'):
            w = x.w
            # count >= width is poison in LLVM; use the x86 meaning (masked count).  UB itself is judged
            # at source level through -fsanitize=shift traps.
            if y.hi >= w:
                if w & (w-1) == 0: y = tm.band(y, const(w-1, w))
            return {'shl': tm.shl, 'lshr': tm.lshr, 'ashr': tm.ashr}[op](x, y)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'): return fpm.fp(op, x, y)
        raise Unsupported(op)

    def cast(self, op, t, x, t2):
        if isinstance(x, Agg):
            if op == 'bitcast': raise Unsupported('vector bitcast')
            return Agg([self.cast(op, t[2], e, t2[2]) for e in x.v])
        if op == 'ptrtoint' and t2[1] == 64: return x
        if isinstance(x, Ptr) and op in ('zext', 'sext', 'bitcast') and t[0] == 'i': x = self.ptr2int(x)
        if op == 'ptrtoint':
            v = self.ptr2int(x) if isinstance(x, Ptr) else x
            return extract(v, 0, t2[1]) if t2[1] < 64 else zext(v, t2[1])
        if op == 'inttoptr': return x if isinstance(x, Ptr) else self.int2ptr(zext(x, 64) if x.w < 64 else extract(x, 0, 64))
        if op == 'trunc':
            if isinstance(x, Ptr): x = self.ptr2int(x)
            return extract(x, 0, t2[1])
        if op == 'zext': return zext(x, t2[1])
        if op == 'sext': return sext(x, t2[1])
        if op == 'bitcast':
            return x
        if op in ('uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc'):
            return fpm.fpcast(op, x, 64 if t2[0] == 'double' else 32 if t2[0] == 'float' else t2[1])
        raise Unsupported(op)

    def icmp(self, p, t, x, y):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            x = self.to_ptr(x); y = self.to_ptr(y)
            if p in ('eq', 'ne'):
                r = FALSE
                for g, o, f in x.alts:
                    for h, q, k in y.alts:
                        if o is q: r = or_(r, and_(and_(g, h), eq(f, k)))
                        elif o.kind == 'null' or q.kind == 'null': pass
                return r if p == 'eq' else not_(r)
            conds = []
            for g, o, f in x.alts:
                for h, q, k in y.alts:
                    gg = and_(g, h)
                    if gg is FALSE: continue
                    if o is q:
                        c = self.icmp('s' + p[1:], None, f, k)
                    else: c = self.icmp(p, None, add(f, const(o.base, 64)), add(k, const(q.base, 64)))
                    conds.append(and_(gg, c))
            return or_all(conds)
        if isinstance(x, Agg): return Agg([self.icmp(p, t, a, b) for a, b in zip(x.v, y.v)])
        if p == 'eq': return eq(x, y)
        if p == 'ne': return not_(eq(x, y))
        if p == 'ult': return ult(x, y)
        if p == 'ugt': return ult(y, x)
        if p == 'ule': return not_(ult(y, x))
        if p == 'uge': return not_(ult(x, y))
        if p == 'slt': return slt(x, y)
        if p == 'sgt': return slt(y, x)
        if p == 'sle': return not_(slt(y, x))
        if p == 'sge': return not_(slt(x, y))
        raise Unsupported(p)

    # ------------------------------------------------------------ functions
    def info(self, name):
        fi = self.fninfo.get(name)
        if fi: return fi
        f = self.m.funcs[name]
        fi = Fn(); fi.f = f
        succ = {}
        for b in f.blocks:
            t = b.ins[-1]; A = t.a
            if t.op == 'br': s = [A['d']] if 'd' in A else [A['t'], A['f']]
            elif t.op == 'switch': s = list(dict.fromkeys([d for _, d in A['cases']] + [A['d']]))
            elif t.op == 'invoke': s = [A['n'], A['u']]
            else: s = []
            succ[b.name] = s
        entry = f.blocks[0].name
        reach = set(); stk = [entry]
        while stk:
            x = stk.pop()
            if x in reach: continue
            reach.add(x); stk += succ[x]
        pos = {b.name: i for i, b in enumerate(f.blocks)}
        def order(nodes, start, isloop):
            sub_ = nodes - {start}
            idx = {}; low = {}; st = []; on = set(); comps = []; cnt = 0
            roots = [s for s in succ[start] if s in sub_] + sorted(sub_, key=lambda n: pos[n])
            for r0 in roots:
                if r0 in idx: continue
                work = [(r0, iter([s for s in succ[r0] if s in sub_]))]
                idx[r0] = low[r0] = cnt; cnt += 1; st.append(r0); on.add(r0)
                while work:
                    u, it = work[-1]; adv = False
                    for w in it:
                        if w not in idx:
                            idx[w] = low[w] = cnt; cnt += 1; st.append(w); on.add(w)
                            work.append((w, iter([s for s in succ[w] if s in sub_]))); adv = True
                            break
                        elif w in on: low[u] = min(low[u], idx[w])
                    if adv: continue
                    work.pop()
                    if work: low[work[-1][0]] = min(low[work[-1][0]], low[u])
                    if low[u] == idx[u]:
                        c = []
                        while True:
                            w = st.pop(); on.discard(w); c.append(w)
                            if w == u: break
                        comps.append(c)
            res = [start]
            for c in reversed(comps):
                cs = set(c)
                if len(c) == 1:
                    if c[0] in succ[c[0]]: res.append(('loop', c[0], [c[0]]))
                    else: res.append(c[0])
                    continue
                hs = [x for x in c if any(x in succ[y] for y in nodes if y not in cs)]
                if len(hs) != 1: raise Unsupported('irreducible loop in ' + name)
                res.append(('loop', hs[0], order(cs, hs[0], True)))
            return res
        items = order(reach, entry, False)
        if entry in {s for n in reach for s in succ[n]}: raise Unsupported('loop to entry')
        fi.items = items
        fi.blocks = {}
        for b in f.blocks:
            if b.name not in reach: continue
            phis = [i for i in b.ins if i.op == 'phi']
            fi.blocks[b.name] = (phis, [i for i in b.ins if i.op != 'phi'])
        fi.phimap = {bn: {} for bn in fi.blocks}
        for bn, (phis, _) in fi.blocks.items():
            for p in phis:
                for pb, v in p.a['inc']:
                    fi.phimap[bn].setdefault(pb, []).append((p.res, p.ty, v))
        self.fninfo[name] = fi
        return fi

    def call(self, name, args, mem, pc):
        """returns (normal, exceptional): each (pc, mem, value) or None"""
        fi = self.info(name)
        self.depth += 1
        self.stats['calls'] += 1
        if self.depth > 200: raise Bound('recursion depth in ' + name)
        regs = {}
        for (t, nm, bv), a in zip(fi.f.params, args):
            if bv is not None:
                o = self.new_obj(self.size(bv), 'stack', 'byval'); self.allobjs.append(o)
                mem.d[o.id] = {}; mem.own.add(o.id)
                self.copy(mem, self.ptr(o), a, self.size(bv), pc, False)
                a = self.ptr(o)
            regs[nm] = a
        fr = Fn(); fr.fi = fi; fr.regs = regs; fr.rets = []; fr.excs = []; fr.allocas = []; fr.pending = {}; fr.name = name; fr.hpcs = {}
        fr.pending[fi.items[0]] = [(pc, None, mem, ())]
        self.items(fr, fi.items)
        self.depth -= 1
        def fin(l):
            if not l: return None
            if len(l) == 1: p, m, v = l[0]
            else:
                p, rels = join([x[0] for x in l])
                m = self.merge_mem(rels, [x[1] for x in l])
                v = self.merge(rels, [x[2] for x in l])
            for oid in fr.allocas:
                m.d.pop(oid, None); m.own.discard(oid)
            return p, m, v
        return fin(fr.rets), fin(fr.excs)

    def items(self, fr, items):
        pend = fr.pending
        for it in items:
            if isinstance(it, str):
                e = pend.pop(it, None)
                if e: self.block(fr, it, e)
            else:
                _, h, body = it
                e = pend.pop(h, None); k = 0
                self.stats['loops'] += 1
                while e:
                    pend[h] = e
                    self.items(fr, body)
                    e = pend.pop(h, None)
                    if not e: break
                    k += 1
                    e = [x for x in e if x[0].full is not FALSE]
                    if not e: break
                    if k >= self.check_from and self.solver is not None and (k & (k-1)) == 0 and self.feas_needed(fr, h, e):
                        self.stats['feas'] += 1
                        if not self.solver(or_all([x[0].full for x in e])): break
                    if k > self.max_iter:
                        b = Bound('loop in %s at %s not finished after %d iterations' % (fr.name, h, k)); b.cond = or_all([x[0].full for x in e])
                        raise b
                if k > self.stats['maxloop']: self.stats['maxloop'] = k

    def decide(self, pc, c):
        """c, or its value when the path condition implies one (models kept from earlier queries answer most of the questions)"""
        t = f = False
        for env, val in self.pool:
            tm.evaluate([pc.full, c], env, val)
            if val[pc.full.id]:
                if val[c.id]: t = True
                else: f = True
                if t and f: return c
        for side in (True, False):
            if t if side else f: continue
            self.stats['prune'] = self.stats.get('prune', 0) + 1
            r = self.model(and_(pc.full, c if side else not_(c)))
            if r[0] == 'unsat': return FALSE if side else TRUE
            if r[0] == 'sat': self.pool.append((r[1], {})); del self.pool[:-24]
        return c
    def feas_needed(self, fr, h, e):
        # a continuation that was unconditional in this iteration needs no query of its own
        return not (len(e) == 1 and e[0][0] is fr.hpcs.get(h))

    def restrict(self, v, pc):
        if isinstance(v, T):
            if v.op == 'S': return tm.restrict(v, pc.dead)
        elif isinstance(v, Ptr):
            if len(v.alts) == 1 and v.alts[0][2].op != 'S': return v
            al = [(g, o, tm.restrict(f, pc.dead) if f.op == 'S' else f) for g, o, f in v.alts if g.id not in pc.dead]
            if len(al) == 1: al = [(TRUE, al[0][1], al[0][2])]
            if al: return Ptr(tuple(al))
        return v
    def edge(self, fr, src, dst, pc, mem, last):
        if pc.full is FALSE: return
        inc = fr.fi.phimap[dst].get(src)
        vals = ()
        if inc:
            regs = fr.regs
            vals = tuple(None if v[0] == 'undef' else self.restrict(self.val(regs, t, v), pc) for _, t, v in inc)
        fr.pending.setdefault(dst, []).append((pc, src, mem if last else mem.fork(), vals))

    def block(self, fr, name, edges):
        phis, ins = fr.fi.blocks[name]
        regs = fr.regs
        if len(edges) == 1:
            pc, src, mem, vals = edges[0]
            if phis:
                for (r, t, _), v in zip(fr.fi.phimap[name][src], vals):
                    regs[r] = v if v is not None else self.cval(t, ('undef',))
        else:
            pc, rels = join([e[0] for e in edges])
            if pc.full is FALSE: return
            mem = self.merge_mem(rels, [e[2] for e in edges])
            if phis:
                order = [x[0] for x in fr.fi.phimap[name][edges[0][1]]]
                ty = {x[0]: x[1] for x in fr.fi.phimap[name][edges[0][1]]}
                cols = []
                for e in edges:
                    cols.append({x[0]: v for x, v in zip(fr.fi.phimap[name][e[1]], e[3])})
                for r in order:
                    v = self.merge(rels, [c[r] for c in cols])
                    regs[r] = v if v is not None else self.cval(ty[r], ('undef',))
        st = self.stats
        fr.hpcs[name] = pc
        for i in ins:
            st['instr'] += 1
            op = i.op; A = i.a
            if op in BIN:
                regs[i.res] = self.bin(op, self.val(regs, i.ty, A['x']), self.val(regs, i.ty, A['y']), pc)
            elif op == 'icmp':
                regs[i.res] = self.icmp(A['pred'], A['ty'], self.val(regs, A['ty'], A['x']), self.val(regs, A['ty'], A['y']))
            elif op == 'load':
                regs[i.res] = self.load(mem, self.val(regs, ('ptr',), A['p']), i.ty, pc)
            elif op == 'store':
                if A['v'][0] != 'undef':
                    self.store(mem, self.val(regs, ('ptr',), A['p']), A['ty'], self.val(regs, A['ty'], A['v']), pc)
            elif op == 'getelementptr':
                regs[i.res] = self.gep(A['ty'], [(t, self.val(regs, t, v)) for t, v in A['ops']])
            elif op in CAST:
                regs[i.res] = self.cast(op, A['ty'], self.val(regs, A['ty'], A['x']), i.ty)
            elif op == 'select':
                c = self.val(regs, ('i', 1), A['c'])
                x = None if A['x'][0] == 'undef' else self.val(regs, i.ty, A['x']); y = None if A['y'][0] == 'undef' else self.val(regs, i.ty, A['y'])
                v = x if c is TRUE else y if c is FALSE else self.merge([c, not_(c)], [x, y])
                regs[i.res] = v if v is not None else self.cval(i.ty, ('undef',))
            elif op == 'br':
                if 'd' in A:
                    self.edge(fr, name, A['d'], pc, mem, True)
                else:
                    c = self.val(regs, ('i', 1), A['c'])
                    if c.op != 'c':
                        k = known(pc, c)
                        if k is not None: c = TRUE if k else FALSE
                        elif self.pool is not None: c = self.decide(pc, c)
                    if c is TRUE: self.edge(fr, name, A['t'], pc, mem, True)
                    elif c is FALSE: self.edge(fr, name, A['f'], pc, mem, True)
                    else:
                        self.edge(fr, name, A['t'], PC(pc, c), mem, False)
                        self.edge(fr, name, A['f'], PC(pc, not_(c)), mem, True)
                return
            elif op == 'switch':
                v = self.val(regs, A['ty'], A['v'])
                tg = {}
                rest = TRUE
                for cv, d in A['cases']:
                    c = eq(v, const(cv[1], v.w))
                    tg.setdefault(d, []).append(c); rest = and_(rest, not_(c))
                tg.setdefault(A['d'], []).append(rest)
                l = [(d, or_all(cs)) for d, cs in tg.items()]
                l = [(d, c) for d, c in l if c is not FALSE and and_(pc.full, c) is not FALSE]
                for q, (d, c) in enumerate(l):
                    self.edge(fr, name, d, extend(pc, c), mem, q == len(l)-1)
                return
            elif op == 'ret':
                fr.rets.append((pc, mem, None if A['v'] is None else self.val(regs, i.ty, A['v'])))
                return
            elif op == 'alloca':
                n = A['n']
                cnt = 1 if n is None else self.val(regs, ('i', 64), n).a
                o = self.new_obj(self.size(A['ty'])*cnt, 'stack', fr.name + ':' + (i.res or ''))
                self.allobjs.append(o)
                mem.d[o.id] = {}; mem.own.add(o.id); fr.allocas.append(o.id)
                regs[i.res] = self.ptr(o)
            elif op == 'call' or op == 'invoke':
                r = self.do_call(fr, name, i, pc, mem)
                if r is None: return
                norm, exc = r
                if exc is not None:
                    if op == 'invoke':
                        fr.curexc = None
                        regs[('exc', A['u'], name)] = exc[2]
                        p2, m2, v2 = exc
                        if p2.full is not FALSE:
                            inc = fr.fi.phimap[A['u']].get(name)
                            vals = tuple(self.val(regs, t, v) for _, t, v in inc) if inc else ()
                            fr.pending.setdefault(A['u'], []).append((p2, name, m2, vals))
                            fr.excval = getattr(fr, 'excval', {})
                            fr.excval.setdefault(A['u'], []).append((p2, v2))
                    else: fr.excs.append(exc)
                if norm is None: return
                pc, mem, v = norm
                if pc.full is FALSE: return
                if i.res is not None: regs[i.res] = v
                if op == 'invoke':
                    self.edge(fr, name, A['n'], pc, mem, True)
                    return
            elif op == 'landingpad':
                l = fr.excval.pop(name)
                if len(l) == 1: v = l[0][1]
                else:
                    _, rels = join([x[0] for x in l]); v = self.merge(rels, [x[1] for x in l])
                # v = Agg[ptr, tid]
                tid = v.v[1]
                sel = const(0, 32)
                for c in reversed(A['clauses']):
                    if c[0] == 'filter': raise Unsupported('filter')
                    if c[1][0] == 'null': sel = const(0x7fff, 32); continue
                    g = FALSE
                    want = self.tid(c[1][1])
                    for tv, tg_ in leaves(tid):
                        if want in self.bases(tv): g = or_(g, tg_)
                    sel = ite(g, const(want, 32), sel)
                    if g is TRUE: pass
                self.lasttid = tid
                regs[i.res] = Agg([v.v[0], sel])
                mem.d['exc'] = (v.v[0], tid)
            elif op == 'resume':
                ex = mem.d.get('exc')
                v = self.val(regs, A['ty'], A['v'])
                fr.excs.append((pc, mem, Agg([v.v[0], ex[1]])))
                return
            elif op == 'extractvalue':
                v = self.val(regs, A['ty'], A['v'])
                for j in A['idx']: v = v.v[j]
                regs[i.res] = v
            elif op == 'insertvalue':
                v = self.val(regs, i.ty, A['v'])
                e = self.val(regs, A['ety'], A['e'])
                def ins_(v, idx):
                    l = list(v.v)
                    l[idx[0]] = e if len(idx) == 1 else ins_(l[idx[0]], idx[1:])
                    return Agg(l)
                regs[i.res] = ins_(v, A['idx'])
            elif op == 'freeze':
                regs[i.res] = self.val(regs, i.ty, A['x'])
            elif op == 'unreachable':
                self.ob('UNREACHABLE', 'unreachable code in ' + fr.name, pc.full)
                return
            elif op == 'extractelement':
                v = self.val(regs, A['ty'], A['v']); k = self.val(regs, ('i', 64), A['i'])
                regs[i.res] = v.v[k.a]
            elif op == 'insertelement':
                v = self.val(regs, i.ty, A['v']); k = self.val(regs, ('i', 64), A['i']); l = list(v.v)
                l[k.a] = self.val(regs, A['ety'], A['e']); regs[i.res] = Agg(l)
            elif op == 'fcmp':
                regs[i.res] = fpm.fcmp(A['pred'], self.val(regs, A['ty'], A['x']), self.val(regs, A['ty'], A['y']))
            elif op == 'fneg':
                x = self.val(regs, i.ty, A['x'])
                regs[i.res] = tm.bxor(x, const(1 << (x.w-1), x.w))
            else:
                raise Unsupported('exec ' + i.line)
        raise AssertionError('fell off block')

    def tid(self, g):
        r = self.tids.get(g)
        if r is None: r = self.tids[g] = len(self.tids) + 1
        return r
    KNOWN = {'@_ZTISt11logic_error': '@_ZTISt9exception', '@_ZTISt13runtime_error': '@_ZTISt9exception', '@_ZTISt16invalid_argument': '@_ZTISt11logic_error',
      '@_ZTISt12length_error': '@_ZTISt11logic_error', '@_ZTISt12out_of_range': '@_ZTISt11logic_error', '@_ZTISt9bad_alloc': '@_ZTISt9exception',
      '@_ZTISt14overflow_error': '@_ZTISt13runtime_error'}
    def bases(self, tid):
        g = next(k for k, v in self.tids.items() if v == tid)
        r = [tid]
        while True:
            n = None
            gl = self.m.globals.get(g)
            if gl and gl[1] is not None and gl[1][0] == 'agg' and len(gl[1][1]) == 3:
                b = gl[1][1][2][1]
                if b[0] == 'g': n = b[1]
            elif g in self.KNOWN: n = self.KNOWN[g]
            if n is None: return r
            r.append(self.tid(n)); g = n

    # ------------------------------------------------------------ calls
    def do_call(self, fr, bname, i, pc, mem):
        A = i.a; regs = fr.regs; c = A['callee']
        if c[0] == 'g': n = c[1]
        else:
            p = self.val(regs, ('ptr',), c)
            if not isinstance(p, Ptr) or len(p.alts) != 1 or p.alts[0][1].kind != 'fn': raise Unsupported('indirect call ' + i.line + repr(p))
            n = p.alts[0][1].name
        while n in self.m.aliases: n = self.m.aliases[n][1][1]
        args = A['args']
        if n.startswith('@llvm.'):
            return (pc, mem, self.intrinsic(fr, n[6:], i, args, pc, mem)), None
        vals = [self.val(regs, t, v) for t, v in args]
        s = self.stubs.get(n)
        if s is None and n not in self.m.funcs:
            s = getattr(self, 'x_' + re.sub(r'\W', '_', n[1:]), None)
            if s is None:
                for rx, f in self.stubs.get('regex', ()):
                    if rx.search(n): s = f; break
            if s is None: raise Unsupported('external function ' + n)
            return s(i, vals, pc, mem, args)
        if s is not None: return s(self, i, vals, pc, mem, args)
        self.encoded.add(n)
        return self.call(n, vals, mem, pc)

    def intrinsic(self, fr, b, i, args, pc, mem):
        regs = fr.regs
        def V(k):
            r = self.val(regs, args[k][0], args[k][1])
            return self.ptr2int(r) if isinstance(r, Ptr) and args[k][0][0] == 'i' else r
        if b.startswith('lifetime.start'):
            p = V(1)
            for g, o, f in p.alts:
                if o.kind == 'stack' and f.op == 'c' and f.a == 0:
                    mem.d[o.id] = {}; mem.own.add(o.id)
            return None
        if b.startswith('lifetime.end'):
            p = V(1)
            if len(p.alts) == 1:
                o = p.alts[0][1]
                if o.kind == 'stack': mem.d.pop(o.id, None); mem.own.discard(o.id)
            return None
        if b.startswith(('experimental.noalias', 'dbg', 'assume', 'invariant', 'donothing', 'prefetch', 'var.annotation')): return None
        if b.startswith(('memcpy', 'memmove')):
            n = V(2)
            if n.op == 'c': self.copy(mem, self.to_ptr(V(0)), self.to_ptr(V(1)), n.a, pc, True)
            else: self.copy_sym(mem, self.to_ptr(V(0)), self.to_ptr(V(1)), n, pc)
            return None
        if b.startswith('memset'):
            self.fill(mem, self.to_ptr(V(0)), V(1), V(2), pc); return None
        if b.startswith('ubsantrap'):
            self.ob('UB', V(0).a, pc.full); return None
        if b == 'trap':
            self.ob('TRAP', 0, pc.full); return None
        if b.startswith('expect'): return V(0)
        mm = re.match(r'(umin|umax|smin|smax)\.i(\d+)$', b)
        if mm:
            x, y = V(0), V(1)
            lt = ult(x, y) if mm.group(1)[0] == 'u' else slt(x, y)
            return ite(lt, x, y) if mm.group(1).endswith('min') else ite(lt, y, x)
        mm = re.match(r'(ctlz|cttz|ctpop|bswap|abs|bitreverse)\.i(\d+)$', b)
        if mm:
            x = V(0); w = x.w; k = mm.group(1)
            if k == 'bswap':
                r = None
                for j in range(w//8):
                    e = extract(x, 8*j, 8); r = e if r is None else concat(r, e)
                return r
            if k == 'bitreverse':
                r = None
                for j in range(w):
                    e = extract(x, j, 1); r = e if r is None else concat(r, e)
                return r
            if k == 'abs': return ite(slt(x, const(0, w)), tm.neg(x), x)
            if k == 'ctpop':
                r = const(0, w)
                for j in range(w): r = add(r, zext(extract(x, j, 1), w))
                return r
            pairs = []; none = TRUE
            rng = range(w-1, -1, -1) if k == 'ctlz' else range(w)
            for q, j in enumerate(rng):
                bit = extract(x, j, 1)
                pairs.append((q, and_(none, bit))); none = and_(none, not_(bit))
            pairs.append((w, none))
            # up to 129 leaves: bypass the usual limit
            r = const(w, w)
            save = tm.MAXS; tm.MAXS = 200
            try: r = mkS(pairs, w)
            finally: tm.MAXS = save
            return r
        mm = re.match(r'(fshl|fshr)\.i(\d+)$', b)
        if mm:
            x, y, z = V(0), V(1), V(2); w = x.w
            z = tm.urem(z, const(w, w)); cc = concat(x, y); zz = zext(z, 2*w)
            if mm.group(1) == 'fshl': return extract(tm.shl(cc, zz), w, w)
            return extract(tm.lshr(cc, zz), 0, w)
        mm = re.match(r'([us])(add|sub|mul)\.with\.overflow\.i(\d+)$', b)
        if mm:
            x, y = V(0), V(1); w = x.w; k = mm.group(2)
            ex = zext if mm.group(1) == 'u' else sext
            W = 2*w if k == 'mul' else w + 1
            f = {'add': add, 'sub': sub, 'mul': mul}[k]
            wide = f(ex(x, W), ex(y, W)); r = f(x, y)
            return Agg([r, not_(eq(ex(r, W), wide))])
        mm = re.match(r'u(add|sub)\.sat\.i(\d+)$', b)
        if mm:
            x, y = V(0), V(1); w = x.w
            if mm.group(1) == 'sub': return ite(ult(x, y), const(0, w), sub(x, y))
            r = add(x, y); return ite(ult(r, x), const(-1, w), r)
        if b.startswith('eh.typeid.for'): return const(self.tid(args[0][1][1]), 32)
        if b.startswith('objectsize'): return const(-1, 64)
        if b.startswith('is.constant'): return FALSE
        if b.startswith('stacksave'): return null()
        if b.startswith('stackrestore'): return None
        if b.startswith('fabs'):
            x = V(0); return tm.band(x, const((1 << (x.w-1)) - 1, x.w))
        mm = re.match(r'(is\.fpclass|fabs|copysign|fmuladd)\.f(32|64)$', b)
        if mm:
            k = mm.group(1); x = V(0)
            if k == 'fabs': return fpm.fabs(x)
            if k == 'copysign': return concat(extract(V(1), x.w - 1, 1), extract(x, 0, x.w - 1))
            if k == 'fmuladd': return fpm.fadd(fpm.fmul(x, V(1)), V(2))     # no fused instruction on the x86-64 baseline
            return fpm.fpclass(x, V(1).a)
        raise Unsupported('intrinsic ' + b)

    # ---- externals
    def text_of(self, p):
        (g, o, f), = self.to_ptr(p).alts
        k = f.a; r = []
        while o.init[k][1].a: r.append(chr(o.init[k][1].a)); k += 1
        return ''.join(r)
    def x_vf_assert(self, i, v, pc, mem, args):
        key = (v[1].a, self.text_of(v[2]))
        self.ob('A', key, and_(pc.full, not_(v[0])))
        self.stats['asserts'] = self.stats.get('asserts', 0) + 1
        self.seen.setdefault(key, []).append(pc.full)
        return (pc, mem, None), None
    seen = {}
    def x_vf_assume(self, i, v, pc, mem, args):
        p = extend(pc, v[0])
        if p.full is FALSE: return None, None
        return (p, mem, None), None
    def x_vf_cover(self, i, v, pc, mem, args):
        self.covers.append(((v[1].a, self.text_of(v[2])), and_(pc.full, v[0])))
        return (pc, mem, None), None
    def x_vf_out(self, i, v, pc, mem, args):
        self.outs.append((pc.full, v[0])); return (pc, mem, None), None
    def x___assert_fail(self, i, v, pc, mem, args):
        self.ob('LIBASSERT', 'assert() in library', pc.full); return None, None
    def x__ZSt9terminatev(self, i, v, pc, mem, args):
        self.ob('TERMINATE', 'std::terminate', pc.full); return None, None
    def x_abort(self, i, v, pc, mem, args):
        self.ob('ABORT', 'abort', pc.full); return None, None
    def x__ZSt21__glibcxx_assert_failPKciS0_S0_(self, i, v, pc, mem, args):
        self.ob('STDASSERT', 'libstdc++ assertion', pc.full); return None, None
    def x__Znwm(self, i, v, pc, mem, args):
        n = v[0]
        if n.op != 'c' and n.hi > 4096 and (self.solver is None or self.solver(and_(pc.full, tm.ult(const(4096, 64), n)))):
            raise Unsupported('allocation of unbounded size ' + tm.show(n))
        o = self.new_obj(n.a if n.op == 'c' else n, 'heap', 'heap'); self.allobjs.append(o); self.heapids.add(o.id)
        mem.d[o.id] = {}; mem.own.add(o.id)
        return (pc, mem, self.ptr(o)), None
    x__Znam = x__Znwm
    def x__ZdlPv(self, i, v, pc, mem, args):
        p = self.to_ptr(v[0])
        for g, o, f in p.alts:
            if o.kind == 'null': continue
            if o.kind != 'heap' or mem.d.get(o.id) is None:
                self.ob('MEM', 'delete of ' + o.kind + ' object', and_(pc.full, g))
            elif g is TRUE: mem.d.pop(o.id)
            if f.op != 'c' or f.a != 0: self.ob('MEM', 'delete of interior pointer', and_(and_(pc.full, g), not_(eq(f, const(0, 64)))))
        return (pc, mem, None), None
    x__ZdlPvm = x__ZdlPv
    x__ZdaPv = x__ZdlPv
    def x___cxa_allocate_exception(self, i, v, pc, mem, args):
        o = self.new_obj(v[0].a, 'heap', 'exception'); self.allobjs.append(o); self.heapids.add(o.id)
        mem.d[o.id] = {}; mem.own.add(o.id)
        return (pc, mem, self.ptr(o)), None
    def x___cxa_free_exception(self, i, v, pc, mem, args): return (pc, mem, None), None
    def x___cxa_throw(self, i, v, pc, mem, args):
        return None, (pc, mem, Agg([v[0], const(self.tid(args[1][1][1]), 32)]))
    def x___cxa_begin_catch(self, i, v, pc, mem, args): return (pc, mem, v[0]), None
    def x___cxa_end_catch(self, i, v, pc, mem, args): return (pc, mem, None), None
    def x___cxa_rethrow(self, i, v, pc, mem, args):
        ex = mem.d['exc']; return None, (pc, mem, Agg([ex[0], ex[1]]))
    def x_strlen(self, i, v, pc, mem, args):
        p = self.to_ptr(v[0]); pairs = []; run = TRUE; k = 0
        while True:
            pk = extend(pc, run)
            b = self.load(mem, self.padd(p, k), ('i', 8), pk)
            z = eq(b, const(0, 8))
            pairs.append((k, and_(run, z))); run = and_(run, not_(z)); k += 1
            if run is FALSE or k > 400: break
            if all(k >= (o.size.hi if isinstance(o.size, T) else o.size) - f.lo for g, o, f in p.alts): break
        return (pc, mem, mkS(pairs, 64)), None
    def x_memcmp(self, i, v, pc, mem, args):
        a, b, n = self.to_ptr(v[0]), self.to_ptr(v[1]), v[2]
        if n.hi > 512: raise Unsupported('memcmp length')
        r = const(0, 32); items = []
        for k in range(n.hi):
            c = ult(const(k, 64), n)
            pk = extend(pc, c)
            x = self.load(mem, self.padd(a, k), ('i', 8), pk); y = self.load(mem, self.padd(b, k), ('i', 8), pk)
            items.append((c, x, y))
        for c, x, y in reversed(items):
            d = ite(eq(x, y), r, ite(ult(x, y), const(-1, 32), const(1, 32)))
            r = ite(c, d, const(0, 32))
        return (pc, mem, r), None
    x_bcmp = x_memcmp
    def x_memchr(self, i, v, pc, mem, args):
        p = self.to_ptr(v[0]); ch = extract(v[1], 0, 8); n = v[2]; found = []; run = TRUE
        for k in range(n.hi):
            c = and_(run, ult(const(k, 64), n))
            if c is FALSE: break
            b = self.load(mem, self.padd(p, k), ('i', 8), extend(pc, c))
            found.append((and_(c, eq(b, ch)), self.padd(p, k))); run = and_(c, not_(eq(b, ch)))
        none = not_(or_all([g for g, _ in found]))
        return (pc, mem, self.merge_ptr(found + [(none, null())])), None
    def x_memcpy(self, i, v, pc, mem, args):
        n = v[2]
        if n.op == 'c': self.copy(mem, self.to_ptr(v[0]), self.to_ptr(v[1]), n.a, pc, True)
        else: self.copy_sym(mem, self.to_ptr(v[0]), self.to_ptr(v[1]), n, pc)
        return (pc, mem, v[0]), None
    x_memmove = x_memcpy
    def x_memset(self, i, v, pc, mem, args):
        self.fill(mem, self.to_ptr(v[0]), extract(v[1], 0, 8), v[2], pc); return (pc, mem, v[0]), None

    def x_wmemset(self, i, v, pc, mem, args):
        if v[2].op != 'c' or v[2].a > 512: raise Unsupported('wmemset of symbolic length')
        p = self.to_ptr(v[0])
        for k in range(v[2].a): self.store(mem, self.padd(p, 4 * k), ('i', 32), v[1], pc)
        return (pc, mem, v[0]), None
    def x_wmemcpy(self, i, v, pc, mem, args):
        n = shl(v[2], const(2, 64)); return self.x_memcpy(i, [v[0], v[1], n], pc, mem, args)
    x_wmemmove = x_wmemcpy
    def x_wcslen(self, i, v, pc, mem, args):
        p = self.to_ptr(v[0]); pairs = []; run = TRUE; k = 0
        while True:
            pk = extend(pc, run)
            b = self.load(mem, self.padd(p, 4 * k), ('i', 32), pk)
            z = eq(b, const(0, 32))
            pairs.append((k, and_(run, z))); run = and_(run, not_(z)); k += 1
            if run is FALSE or k > 400: break
            if all(k * 4 >= (o.size.hi if isinstance(o.size, T) else o.size) - f.lo for g, o, f in p.alts): break
        return (pc, mem, mkS(pairs, 64)), None
    # std::runtime_error: message text is not modelled
    def x__ZNSt13runtime_errorC2EPKc(self, i, v, pc, mem, args): return (pc, mem, None), None
    x__ZNSt13runtime_errorC1EPKc = x__ZNSt13runtime_errorC2EPKc
    x__ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE = x__ZNSt13runtime_errorC2EPKc
    x__ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE = x__ZNSt13runtime_errorC2EPKc
    x__ZNSt13runtime_errorD2Ev = x__ZNSt13runtime_errorC2EPKc
    x__ZNSt13runtime_errorD1Ev = x__ZNSt13runtime_errorC2EPKc
    for _e in ('12out_of_range', '11logic_error', '12length_error', '16invalid_argument', '12domain_error', '11range_error', '14overflow_error'):
        for _k in ('C1EPKc', 'C2EPKc', 'C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', 'C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', 'D1Ev', 'D2Ev'):
            locals()['x__ZNSt' + _e + _k] = x__ZNSt13runtime_errorC2EPKc
    def std_throw(self, ti, pc, mem):
        o = self.new_obj(16, 'heap', 'exception'); self.allobjs.append(o); self.heapids.add(o.id)
        mem.d[o.id] = {}; mem.own.add(o.id)
        return None, (pc, mem, Agg([self.ptr(o), const(self.tid(ti), 32)]))
    def x__ZSt20__throw_length_errorPKc(self, i, v, pc, mem, args): return self.std_throw('@_ZTISt12length_error', pc, mem)
    def x__ZSt19__throw_logic_errorPKc(self, i, v, pc, mem, args): return self.std_throw('@_ZTISt11logic_error', pc, mem)
    def x__ZSt17__throw_bad_allocv(self, i, v, pc, mem, args): return self.std_throw('@_ZTISt9bad_alloc', pc, mem)
    def x__ZSt28__throw_bad_array_new_lengthv(self, i, v, pc, mem, args): return self.std_throw('@_ZTISt9bad_alloc', pc, mem)
    def x__ZSt24__throw_out_of_range_fmtPKcz(self, i, v, pc, mem, args): return self.std_throw('@_ZTISt12out_of_range', pc, mem)
    def x_toupper(self, i, v, pc, mem, args):
        x = v[0]; c = and_(tm.ule(const(97, 32), x), tm.ule(x, const(122, 32)))
        return (pc, mem, ite(c, sub(x, const(32, 32)), x)), None
    def x_tolower(self, i, v, pc, mem, args):
        x = v[0]; c = and_(tm.ule(const(65, 32), x), tm.ule(x, const(90, 32)))
        return (pc, mem, ite(c, add(x, const(32, 32)), x)), None
    def x___cxa_guard_acquire(self, i, v, pc, mem, args):
        b = self.load(mem, self.to_ptr(v[0]), ('i', 8), pc)
        return (pc, mem, zext(eq(b, const(0, 8)), 32)), None
    def x___cxa_guard_release(self, i, v, pc, mem, args):
        self.store(mem, self.to_ptr(v[0]), ('i', 8), const(1, 8), pc)
        return (pc, mem, None), None
    def x___cxa_guard_abort(self, i, v, pc, mem, args): return (pc, mem, None), None
    def x___cxa_atexit(self, i, v, pc, mem, args): return (pc, mem, const(0, 32)), None

    # ------------------------------------------------------------ entry
    def run(self, fname, nin, param, concrete=None, width=8):
        """harness(const uint8_t* IN, unsigned P)"""
        self.gobj = {}; self.heapids = set(); self.allobjs = []; self.seen = {}
        pc = PC(None, TRUE); mem = Mem()
        o = self.new_obj(nin, 'input', 'IN'); self.allobjs.append(o)
        cells = {}
        for k in range(nin):
            cells[k] = (1, tm.var('in%d' % k, 8) if concrete is None else const(concrete[k], 8))
        mem.d[o.id] = cells; self.IN = o
        norm, exc = self.call(fname, [self.ptr(o), const(param, 32)], mem, pc)
        if exc is not None:
            self.ob('ESCAPE', 'exception escaped', exc[0].full)
        return norm

def cstr_bytes(s):
    out = []; i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return out

def stride(f):
    r = tm._memo.get(('st', f.id))
    if r is None: r = tm._memo[('st', f.id)] = _stride(f)
    return r
def _stride(f):
    """largest power-of-two-ish step known to divide f - rem(f)"""
    if f.op == 'c': return 1 << 62
    if f.op == 'shl' and f.a[1].op == 'c': return 1 << f.a[1].a
    if f.op == 'mul' and f.a[1].op == 'c': return f.a[1].a
    if f.op == 'add':
        import math
        return math.gcd(stride(f.a[0]), stride(f.a[1]))
    if f.op == 'zext': return stride(f.a[0])
    if f.op == 'concat' and f.a[1].op == 'c': return 1 << f.a[1].w
    if f.op == 'S':
        import math
        g = 0
        for v, _ in f.a: g = math.gcd(g, v - f.a[0][0])
        return g or 1
    if f.op == 'ite':
        import math
        a, b = stride(f.a[1]), stride(f.a[2])
        return math.gcd(math.gcd(a, b), abs(rem(f.a[1], 1 << 62) - rem(f.a[2], 1 << 62))) or 1
    return 1
def rem(f, st):
    k = ('rm', f.id, st)
    r = tm._memo.get(k)
    if r is None: r = tm._memo[k] = _rem(f, st)
    return r
def _rem(f, st):
    if f.op == 'c': return f.a % st
    if f.op == 'add': return (rem(f.a[0], st) + rem(f.a[1], st)) % st
    if f.op == 'zext': return rem(f.a[0], st)
    if f.op == 'concat' and f.a[1].op == 'c': return f.a[1].a % st
    if f.op == 'S': return f.a[0][0] % st
    if f.op == 'ite': return rem(f.a[1], st)
    return 0
