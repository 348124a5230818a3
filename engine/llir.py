#!/usr/bin/env python3
"""Parser for textual LLVM IR (clang 18, opaque pointers).  Anything it does not know
raises Unsupported: it never guesses."""
import re, sys

class Unsupported(Exception):
    pass

TOK = re.compile(r'''
   (?P<cstr>c"[^"]*")
 | (?P<local>%(?:"[^"]*"|[-\w.$]+))
 | (?P<glob>@(?:"[^"]*"|[-\w.$]+))
 | (?P<str>"[^"]*")
 | (?P<meta>!(?:[\w.]+|"[^"]*")?)
 | (?P<attr>\#\d+)
 | (?P<flt>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<int>-?\d+)
 | (?P<dots>\.\.\.)
 | (?P<id>[A-Za-z_$][\w.$-]*)
 | (?P<p>[\[\](){}<>,=*:|])
 | (?P<ws>\s+)
''', re.X)

def tokenize(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            if s[i] == ';':
                break
            raise Unsupported('token at: ' + s[i:i+60])
        i = m.end()
        if m.lastgroup != 'ws':
            out.append(m.group())
    return out

# ---------------------------------------------------------------- types
# types are tuples: ('i',n) ('ptr',) ('void',) ('float',) ('double',) ('arr',n,t)
# ('st',name) named struct, ('lst',packed,(t..)) literal struct, ('vec',n,t), ('meta',), ('label',)
PARAM_ATTRS = {'noundef','zeroext','signext','nonnull','noalias','nocapture','readonly','writeonly','readnone','returned',
  'inreg','immarg','noreturn','writable','dead_on_unwind','dead_on_return','nofree','swiftself','allocptr','initializes'}
LINKAGE = {'dso_local','private','internal','external','linkonce_odr','linkonce','weak','weak_odr','common','appending',
  'unnamed_addr','local_unnamed_addr','hidden','protected','default','available_externally','thread_local','fastcc','ccc','coldcc',
  'constant_','externally_initialized','cold','dllimport','tailcc','extern_weak'}
FLAGS = {'nuw','nsw','exact','inbounds','disjoint','nneg','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','volatile','nusw','samesign'}

class Module:
    def __init__(self):
        self.types = {}; self.globals = {}; self.funcs = {}; self.decls = {}; self.aliases = {}
        self.order = []

class P:
    """token cursor"""
    def __init__(self, toks):
        self.t = toks; self.i = 0
    def peek(self, k=0):
        return self.t[self.i+k] if self.i+k < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def eat(self, x):
        if self.peek() == x:
            self.i += 1; return True
        return False
    def need(self, x):
        if not self.eat(x):
            raise Unsupported('expected %s got %s in %s' % (x, self.peek(), ' '.join(self.t)[:300]))
    def balanced(self):
        # skip a parenthesised group
        self.need('('); d = 1
        while d:
            x = self.next()
            if x == '(': d += 1
            elif x == ')': d -= 1

    def type(self):
        x = self.next()
        if re.fullmatch(r'i\d+', x): t = ('i', int(x[1:]))
        elif x == 'ptr': t = ('ptr',)
        elif x in ('void','float','double','x86_fp80','label','metadata','token','opaque','half','fp128'): t = (x,)
        elif x == '[':
            n = int(self.next()); self.need('x'); e = self.type(); self.need(']'); t = ('arr', n, e)
        elif x == '<':
            if self.peek() == '{':
                self.next(); t = ('lst', True, self._stbody()); self.need('>')
            else:
                n = int(self.next()); self.need('x'); e = self.type(); self.need('>'); t = ('vec', n, e)
        elif x == '{':
            t = ('lst', False, self._stbody())
        elif x[0] == '%': t = ('st', x)
        else: raise Unsupported('type ' + x)
        # function type?
        if self.peek() == '(' and t[0] != 'ptr' or (self.peek() == '(' and t == ('ptr',) and self.peek(1) in ('ptr','i32','i64','...',')')):
            j = self.i
            try:
                self.balanced()
                self.lastfn = True
            except IndexError:
                self.i = j
        return t
    def _stbody(self):
        r = []
        if self.eat('}'): return ()
        while True:
            r.append(self.type())
            if self.eat('}'): return tuple(r)
            self.need(',')

    def attrs(self):
        """skip parameter attributes; return byval type if present"""
        byval = None
        while True:
            x = self.peek()
            if x in PARAM_ATTRS: self.next()
            elif x == 'align':
                self.next()
                if self.peek() == '(': self.balanced()
                else: self.next()
            elif x in ('dereferenceable','dereferenceable_or_null','range','memory'):
                self.next(); self.balanced()
            elif x in ('sret','byval','elementtype','byref','preallocated'):
                self.next(); self.need('('); t = self.type(); self.need(')')
                if x == 'byval': byval = t
            else: return byval

    # constants / operands; returns AST
    def value(self, ty):
        x = self.next()
        if x[0] == '%': return ('l', x)
        if x[0] == '@': return ('g', x)
        if re.fullmatch(r'-?\d+', x): return ('int', int(x))
        if x == 'true': return ('int', 1)
        if x == 'false': return ('int', 0)
        if x in ('null',): return ('null',)
        if x in ('undef','poison'): return ('undef',)
        if x == 'zeroinitializer': return ('zero',)
        if x.startswith('c"'): return ('cstr', x[2:-1])
        if re.fullmatch(r'-?\d+\.\d+(e[+-]?\d+)?', x): return ('flt', x)
        if x.startswith('0x'): return ('fhex', x)
        if x == '{':
            return ('agg', self._vals('}'))
        if x == '[':
            return ('agg', self._vals(']'))
        if x == '<':
            if self.eat('{'):
                r = self._vals('}'); self.need('>'); return ('agg', r)
            return ('agg', self._vals('>'))
        if x == 'getelementptr':
            while self.peek() in FLAGS or self.peek() == 'inrange':
                self.next()
                if self.peek() == '(' and self.t[self.i-1] == 'inrange': self.balanced()
            self.need('('); t = self.type(); self.need(',')
            ops = []
            while True:
                while self.peek() == 'inrange': self.next()
                ot = self.type(); ops.append((ot, self.value(ot)))
                if self.eat(')'): break
                self.need(',')
            return ('gep', t, ops)
        if x in ('inttoptr','ptrtoint','bitcast','trunc','zext','sext'):
            self.need('('); t = self.type(); v = self.value(t); self.need('to'); t2 = self.type(); self.need(')')
            return ('cast', x, t, v, t2)
        if x in ('add','sub','mul','shl','and','or','xor'):
            while self.peek() in FLAGS: self.next()
            self.need('('); t = self.type(); a = self.value(t); self.need(','); t2 = self.type(); b = self.value(t2); self.need(')')
            return ('cbin', x, t, a, b)
        raise Unsupported('value ' + x + ' in ' + ' '.join(self.t)[:200])
    def _vals(self, end):
        r = []
        if self.eat(end): return r
        while True:
            t = self.type(); r.append((t, self.value(t)))
            if self.eat(end): return r
            self.need(',')

class Func:
    def __init__(self):
        self.params = []; self.blocks = []; self.ret = None; self.name = None; self.vararg = False

class Block:
    def __init__(self, name):
        self.name = name; self.ins = []

class Ins:
    __slots__ = ('op','res','ty','a','line')
    def __init__(self, op, res, ty, a, line):
        self.op = op; self.res = res; self.ty = ty; self.a = a; self.line = line

CAST = {'trunc','zext','sext','bitcast','inttoptr','ptrtoint','fptoui','fptosi','uitofp','sitofp','fpext','fptrunc','addrspacecast'}
BIN = {'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'}

def parse_ins(line):
    toks = tokenize(line)
    # cut metadata suffix: ", !tbaa !5"
    cut = len(toks)
    for k in range(len(toks)-1):
        if toks[k] == ',' and toks[k+1][0] == '!':
            cut = k; break
    toks = toks[:cut]
    p = P(toks)
    res = None
    if p.peek(1) == '=' and p.peek()[0] == '%':
        res = p.next(); p.next()
    op = p.next()
    if op in ('tail','musttail','notail'): op = p.next()
    A = {}
    ty = None
    if op == 'ret':
        t = p.type(); A['v'] = None if t == ('void',) else p.value(t); ty = t
    elif op == 'br':
        if p.eat('label'): A['d'] = p.next()
        else:
            t = p.type(); A['c'] = p.value(t); p.need(','); p.need('label'); A['t'] = p.next(); p.need(','); p.need('label'); A['f'] = p.next()
    elif op == 'switch':
        t = p.type(); A['ty'] = t; A['v'] = p.value(t); p.need(','); p.need('label'); A['d'] = p.next(); p.need('[')
        cs = []
        while not p.eat(']'):
            ct = p.type(); cv = p.value(ct); p.need(','); p.need('label'); cs.append((cv, p.next()))
        A['cases'] = cs
    elif op in BIN:
        while p.peek() in FLAGS: p.next()
        ty = p.type(); A['x'] = p.value(ty); p.need(','); A['y'] = p.value(ty)
    elif op == 'fneg':
        while p.peek() in FLAGS: p.next()
        ty = p.type(); A['x'] = p.value(ty)
    elif op in ('icmp','fcmp'):
        while p.peek() in FLAGS: p.next()
        A['pred'] = p.next()
        while p.peek() in FLAGS: p.next()
        A['ty'] = p.type(); A['x'] = p.value(A['ty']); p.need(','); A['y'] = p.value(A['ty']); ty = ('i',1)
    elif op in CAST:
        while p.peek() in FLAGS: p.next()
        A['ty'] = p.type(); A['x'] = p.value(A['ty']); p.need('to'); ty = p.type()
    elif op == 'select':
        while p.peek() in FLAGS: p.next()
        ct = p.type(); A['c'] = p.value(ct); p.need(','); ty = p.type(); A['x'] = p.value(ty); p.need(','); p.type(); A['y'] = p.value(ty)
        if ct != ('i',1): raise Unsupported('vector select')
    elif op == 'phi':
        while p.peek() in FLAGS: p.next()
        ty = p.type(); inc = []
        while True:
            p.need('['); v = p.value(ty); p.need(','); b = p.next(); p.need(']'); inc.append((b, v))
            if not p.eat(','): break
        A['inc'] = inc
    elif op == 'alloca':
        p.eat('inalloca'); A['ty'] = p.type(); ty = ('ptr',); A['n'] = None
        while p.eat(','):
            if p.eat('align'): p.next()
            else:
                t = p.type(); A['n'] = p.value(t)
    elif op == 'load':
        if p.eat('atomic'): pass
        p.eat('volatile'); ty = p.type(); p.need(','); t = p.type(); A['p'] = p.value(t)
    elif op == 'store':
        if p.eat('atomic'): pass
        p.eat('volatile'); A['ty'] = p.type(); A['v'] = p.value(A['ty']); p.need(','); t = p.type(); A['p'] = p.value(t)
    elif op == 'getelementptr':
        while p.peek() in FLAGS: p.next()
        A['ty'] = p.type(); ops = []
        while p.eat(','):
            t = p.type(); ops.append((t, p.value(t)))
        A['ops'] = ops; ty = ('ptr',)
    elif op in ('call','invoke'):
        while p.peek() in FLAGS or p.peek() in LINKAGE: p.next()
        p.attrs()
        ty = p.type()
        if p.peek() == '(':
            p.balanced()
        A['callee'] = p.value(('ptr',)) if p.peek() not in ('asm',) else None
        if A['callee'] is None: raise Unsupported('inline asm: ' + line)
        p.need('('); args = []
        while not p.eat(')'):
            t = p.type()
            if t == ('metadata',):
                # skip until , or )
                d = 0
                while not (d == 0 and p.peek() in (',', ')')):
                    x = p.next(); d += (x in '({[') - (x in ')}]')
                args.append((t, None))
            else:
                p.attrs(); args.append((t, p.value(t)))
            p.eat(',')
        A['args'] = args
        while p.peek() is not None and p.peek()[0] == '#': p.next()
        if op == 'invoke':
            while p.peek() != 'to': p.next()
            p.need('to'); p.need('label'); A['n'] = p.next(); p.need('unwind'); p.need('label'); A['u'] = p.next()
    elif op == 'landingpad':
        ty = p.type(); A['cleanup'] = False; A['clauses'] = []
        while p.peek() is not None:
            x = p.next()
            if x == 'cleanup': A['cleanup'] = True
            elif x == 'catch': t = p.type(); A['clauses'].append(('catch', p.value(t)))
            elif x == 'filter': t = p.type(); A['clauses'].append(('filter', t, p.value(t)))
            else: raise Unsupported('landingpad ' + line)
    elif op == 'resume':
        A['ty'] = p.type(); A['v'] = p.value(A['ty'])
    elif op == 'unreachable':
        pass
    elif op == 'extractvalue':
        A['ty'] = p.type(); A['v'] = p.value(A['ty']); idx = []
        while p.eat(','): idx.append(int(p.next()))
        A['idx'] = idx
    elif op == 'insertvalue':
        ty = p.type(); A['v'] = p.value(ty); p.need(','); A['ety'] = p.type(); A['e'] = p.value(A['ety']); idx = []
        while p.eat(','): idx.append(int(p.next()))
        A['idx'] = idx
    elif op == 'freeze':
        ty = p.type(); A['x'] = p.value(ty)
    elif op == 'extractelement':
        A['ty'] = p.type(); A['v'] = p.value(A['ty']); p.need(','); t = p.type(); A['i'] = p.value(t); ty = A['ty'][2]
    elif op == 'insertelement':
        ty = p.type(); A['v'] = p.value(ty); p.need(','); A['ety'] = p.type(); A['e'] = p.value(A['ety']); p.need(','); t = p.type(); A['i'] = p.value(t)
    elif op == 'shufflevector':
        A['ty'] = p.type(); A['x'] = p.value(A['ty']); p.need(','); p.type(); A['y'] = p.value(A['ty']); p.need(','); t = p.type(); A['m'] = p.value(t); A['mty'] = t; ty = ('vec', t[1], A['ty'][2])
    else:
        raise Unsupported('instruction: ' + line)
    return Ins(op, res, ty, A, line)

def parse_module(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    while i < len(lines):
        ln = lines[i]
        if ln.startswith('%') and ' = type ' in ln:
            p = P(tokenize(ln)); n = p.next(); p.need('='); p.need('type')
            if p.peek() == 'opaque': m.types[n] = ('opaque',)
            else: m.types[n] = p.type()
        elif ln.startswith('@'):
            parse_global(m, ln)
        elif ln.startswith('declare'):
            f = parse_sig(ln); m.decls[f.name] = f
        elif ln.startswith('define'):
            f = parse_sig(ln); i += 1
            cur = None; body = []
            while lines[i] != '}':
                l = lines[i]
                i += 1
                if not l.strip(): continue
                mm = re.match(r'((?:"[^"]*"|[-\w.$]+)):(\s*;.*)?$', l)
                if mm and not l.startswith(' '):
                    cur = Block('%' + mm.group(1)); f.blocks.append(cur); continue
                l2 = l
                if re.match(r'\s+switch ', l) and ']' not in l.split('[')[-1]:
                    while lines[i].strip() != ']' and not lines[i].strip().startswith(']'):
                        l2 += ' ' + lines[i]; i += 1
                    l2 += ' ' + lines[i]; i += 1
                while i < len(lines) and re.match(r'    +\S', lines[i]):
                    l2 += ' ' + lines[i].strip(); i += 1
                if cur is None:
                    n = len(f.params); cur = Block(None); f.blocks.append(cur)
                cur.ins.append(l2)
            for b in f.blocks:
                b.ins = [parse_ins(x.strip()) for x in b.ins]
            # entry block name
            if f.blocks[0].name is None:
                k = sum(1 for p_ in f.params if re.fullmatch(r'%\d+', p_[1]))
                f.blocks[0].name = '%' + str(k)
            m.funcs[f.name] = f; m.order.append(f.name)
        i += 1
    return m

def parse_global(m, ln):
    p = P(tokenize(ln)); n = p.next(); p.need('=')
    ext = False
    while True:
        x = p.peek()
        if x in LINKAGE:
            if x in ('external','extern_weak'): ext = True
            p.next()
            if x == 'thread_local' and p.peek() == '(': p.balanced()
        elif x == 'addrspace': p.next(); p.balanced()
        else: break
    x = p.next()
    if x == 'alias':
        p.type(); p.need(','); t = p.type(); m.aliases[n] = p.value(t); return
    if x == 'ifunc': raise Unsupported(ln)
    assert x in ('constant','global'), ln
    t = p.type()
    v = None
    if not ext:
        v = p.value(t)
    m.globals[n] = (t, v, x == 'constant')

def parse_sig(ln):
    p = P(tokenize(ln)); p.next(); f = Func()
    while p.peek() in LINKAGE: p.next()
    p.attrs()
    f.ret = p.type()
    f.name = p.next(); p.need('(')
    k = 0
    while not p.eat(')'):
        if p.eat('...'): f.vararg = True; continue
        t = p.type(); bv = p.attrs()
        if p.peek() is not None and p.peek()[0] == '%': nm = p.next()
        else: nm = '%' + str(k)
        if re.fullmatch(r'%\d+', nm): k += 1
        f.params.append((t, nm, bv)); p.eat(',')
    return f
