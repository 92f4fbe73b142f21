"""Symbolic execution / verification-condition generation over LLVM IR exported by irx."""
import json, sys, re, math, os
from terms import *
import terms as TT

CELLS = 4096        # larger objects are arrays, smaller ones cells

class Unsup(Exception): pass

# ---------------------------------------------------------------- types
_tyc = {}
def ty(s):
    r = _tyc.get(s)
    if r is None:
        r, k = _ty(s, 0); _tyc[s] = r
    return r
def _ty(s, i):
    c = s[i]
    if c == 'i' :
        m = re.compile(r'i(\d+)').match(s, i); w = int(m.group(1)); return ('int', w), m.end()
    if s.startswith('double', i): return ('fp', 'D'), i + 6
    if s.startswith('float', i): return ('fp', 'F'), i + 5
    if s.startswith('x87', i): return ('x87',), i + 3
    if s.startswith('ptr', i): return ('ptr',), i + 3
    if s.startswith('void', i): return ('void',), i + 4
    if c == '{':
        fs = []; i += 1
        if s[i] == '}': return ('agg', [], 0), i + 1
        while s[i] != '|':
            m = re.compile(r'(\d+):').match(s, i); t, i = _ty(s, m.end()); fs.append((int(m.group(1)), t))
            if s[i] == ',': i += 1
        m = re.compile(r'\|(\d+)\}').match(s, i)
        return ('agg', fs, int(m.group(1))), m.end()
    if c in '[<':
        m = re.compile(r'[\[<](\d+)x(\d+):').match(s, i)
        n, sz = int(m.group(1)), int(m.group(2)); t, i = _ty(s, m.end())
        if n > 100000: return ('agg', None, n * sz, t, sz), i + 1
        return ('agg', [(k * sz, t) for k in range(n)], n * sz), i + 1
    raise Unsup('type ' + s[i:])
def tsize(t):
    if t[0] == 'int': return (t[1] + 7) // 8
    if t[0] == 'fp': return 8 if t[1] == 'D' else 4
    if t[0] == 'ptr': return 8
    if t[0] == 'agg': return t[2]
    if t[0] == 'x87': return 16
    raise Unsup('size of %r' % (t,))

# ---------------------------------------------------------------- pointers
class P:
    """guarded pointer: alts = [(cond, obj, off)], conditions exclusive and exhaustive"""
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = alts
    def __repr__(self): return 'P' + repr([(c, o, f) for c, o, f in self.alts])
Z64 = bv(0, 64)
def ptr(obj, off=None): return P([(TRUE, obj, off if off is not None else bv(0, 64))])
NULL = ptr(0)
def p_ite(c, p, q):
    if c is TRUE: return p
    if c is FALSE: return q
    d = {}; order = []
    for k, o, f in p.alts:
        d[o] = (And(c, k), f); order.append(o)
    for k, o, f in q.alts:
        k2 = And(Not(c), k)
        if o in d:
            k1, f1 = d[o]
            d[o] = (Or(k1, k2), ite(c, f1, f) if f1 is not f else f)
        else:
            d[o] = (k2, f); order.append(o)
    alts = [(d[o][0], o, d[o][1]) for o in order if d[o][0] is not FALSE]
    if len(alts) == 1: alts = [(TRUE, alts[0][1], alts[0][2])]
    return P(alts)
def v_ite(c, a, b):
    if a is b or c is TRUE: return a
    if c is FALSE: return b
    if isinstance(a, P) or isinstance(b, P):
        if not isinstance(a, P): a = itop(a)
        if not isinstance(b, P): b = itop(b)
        return p_ite(c, a, b)
    if isinstance(a, tuple): return tuple(v_ite(c, x, y) for x, y in zip(a, b))
    return ite(c, a, b)
def addr_of(obj):
    if obj == 0: return bv(0, 64)
    n = 'addr!%s' % (obj if not isinstance(obj, tuple) else obj[1])
    RANGES[n] = (4096, (1 << 40))
    return scale(var(n, 64), 16)
_addrobj = {}
def ptoi(p):
    r = None
    for c, o, f in reversed(p.alts):
        a = addr_of(o)
        if o != 0: _addrobj[a.args[0].p] = o
        x = add(a, f)
        r = x if r is None else ite(c, x, r)
    return r
def itop(t):
    if t.op == 'bv': return ptr(0, t)
    if t.op == 'ite': return p_ite(t.args[0], itop(t.args[1]), itop(t.args[2]))
    if t.op == 'lin':
        av = [(k, a) for k, a in zip(t.p[1], t.args) if a.op == 'var' and isinstance(a.p, str) and a.p.startswith('addr!')]
        if len(av) == 1 and av[0][0] == 16:
            o = _addrobj[av[0][1].p]
            return ptr(o, sub(t, addr_of(o)))
    raise Unsup('inttoptr of %r' % (t,))

# ---------------------------------------------------------------- memory
M64 = (1 << 64) - 1
def leaves(t, d=0):
    """the values of a term that is a choice between constants"""
    if t.op == 'bv': return {t.p}
    if t.op == 'ite' and d < 40:
        a = leaves(t.args[1], d + 1)
        if a is None: return None
        b = leaves(t.args[2], d + 1)
        return None if b is None else a | b
    if t.op in ('add', 'lin') or t.op == 'bvadd': return leaves_lin(t, d)
    return None
def leaves_lin(t, d):
    c0, l = TT._lin(t)
    if len(l) == 1 and l[0][1] is t: return None
    vals = {c0 & M64}
    for k, x in l:
        ls = leaves(x, d + 1)
        if ls is None or len(ls) * len(vals) > 256: return None
        vals = {(v + k * y) & M64 for v in vals for y in ls}
    return vals
class Obj:
    __slots__ = ('id', 'size', 'kind', 'name', 'cells', 'regs', 'owner', 'freed', 'ro')
    def clone(self, owner):
        o = Obj(); o.id = self.id; o.size = self.size; o.kind = self.kind; o.name = self.name
        o.cells = dict(self.cells); o.regs = list(self.regs); o.owner = owner; o.freed = self.freed; o.ro = self.ro
        return o

class G:
    """path condition as linked list"""
    __slots__ = ('par', 'lit', 'd')
    def __init__(self, par, lit): self.par = par; self.lit = lit; self.d = par.d + 1 if par else 0
    def lits(self):
        r = []; g = self
        while g.par is not None: r.append(g.lit); g = g.par
        r.reverse(); return r
    def term(self): return And(*self.lits())
def g_root():
    return G(None, TRUE)
def g_push(g, lit):
    if lit is TRUE: return g
    out = g
    for l in (lit.args if lit.op == 'and' else (lit,)):
        # drop literals already known
        x = out; known = False; n = 0
        while x.par is not None and n < 40:
            if x.lit is l: known = True; break
            if x.lit is Not(l): return None
            x = x.par; n += 1
        if not known: out = G(out, l)
    return out
def g_common(a, b):
    while a.d > b.d: a = a.par
    while b.d > a.d: b = b.par
    while a is not b: a = a.par; b = b.par
    return a
def g_res(g, c):
    r = []
    while g is not c: r.append(g.lit); g = g.par
    r.reverse(); return r

class St:
    __slots__ = ('g', 'mem', 'tok')
    def __init__(self, g, mem): self.g = g; self.mem = mem; self.tok = object()
    def fork(self, g):
        s = St(g, dict(self.mem)); self.tok = object(); return s
    def w(self, oid):
        o = self.mem[oid]
        if o.owner is not self.tok:
            o = o.clone(self.tok); self.mem[oid] = o
        return o

class Ob:
    """obligation: guard literals => cond"""
    __slots__ = ('lits', 'cond', 'label', 'kind', 'loc', 'real', 'opts', 'eps')
    def __init__(self, lits, cond, label, kind, loc, real=None):
        self.lits = lits; self.cond = cond; self.label = label; self.kind = kind; self.loc = loc; self.real = real; self.eps = None

class Fn: pass

class Module:
    def __init__(self, js):
        self.fns = {}
        for n, f in js['functions'].items():
            F = Fn(); F.name = n; F.dem = f['dem']; F.ret = f['ret']; F.args = f['args']; F.decl = f.get('decl', False)
            F.file = f.get('file'); F.line = f.get('line'); F.noreturn = f['noreturn']
            if not F.decl:
                F.blocks = f['blocks']; F.loops = f['loops']; F.order = None
            self.fns[n] = F
        self.globals = js['globals']; self.copts = js['opts']

def succs(term):
    o = term['o']
    if o == 'br': return list(dict.fromkeys(term['s']))
    if o == 'switch': return list(dict.fromkeys([b for _, b in term['cs']] + [term['d']]))
    if o == 'invoke': return [term['nd']]
    return []

def wto(F):
    nb = len(F.blocks)
    sc = [succs(b[-1]) for b in F.blocks]
    loops = [(l['h'], set(l['b'])) for l in F.loops]   # preorder: outer first
    par = {}
    for i, (h, bs) in enumerate(loops):
        best = None
        for j, (h2, bs2) in enumerate(loops):
            if j != i and bs < bs2 or (j != i and bs <= bs2 and j < i):
                if best is None or len(loops[best][1]) > len(bs2): best = j
        par[i] = best
    inner = {}
    for b in range(nb):
        c = [i for i, (h, bs) in enumerate(loops) if b in bs]
        inner[b] = min(c, key=lambda i: len(loops[i][1])) if c else None
    order = []
    def rep(b, region):
        """representative of b in region (None or loop idx): b itself or child loop index"""
        i = inner[b]
        if i == region: return ('b', b)
        while par[i] != region:
            i = par[i]
            if i is None: return None
        return ('l', i)
    def topo(region, header):
        start = ('b', header)
        blocks = loops[region][1] if region is not None else set(range(nb))
        seen = set(); post = []
        def out(n):
            if n[0] == 'b': bl = [n[1]]
            else: bl = sorted(loops[n[1]][1])
            r = []
            for b in bl:
                for s in sc[b]:
                    if s not in blocks or s == header: continue
                    q = rep(s, region)
                    if q is not None and q != n and q not in r: r.append(q)
            return r
        st = [(start, iter(out(start)))]; seen.add(start)
        while st:
            n, it = st[-1]
            for q in it:
                if q not in seen:
                    seen.add(q); st.append((q, iter(out(q)))); break
            else:
                post.append(n); st.pop()
        for n in reversed(post):
            if n[0] == 'b': order.append(n[1])
            else: topo(n[1], loops[n[1]][0])
    topo(None, 0)
    F.order = {b: i for i, b in enumerate(order)}
    F.loopof = {}
    F.lp = loops
    F.headers = {h: i for i, (h, bs) in enumerate(loops)}

MATHFUN = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'exp', 'log', 'pow', 'sinh', 'cosh', 'tanh', 'fmod', 'cbrt', 'hypot', 'exp2', 'log10', 'log2'}

class Exec:
    def __init__(self, mod, stubs=None, opts=None, feasible=None):
        self.mod = mod; self.stubs = stubs or []
        self.opts = opts or {}
        self.obs = []; self.covers = {}
        self.oid = 1; self.uid = 0
        self.names = {}
        self.inputs = []          # (name, term, kind) in creation order
        self.touched = {}         # repo functions executed
        self.trusted = set()      # external functions modelled
        self.feasible = feasible
        self.stack = []
        self.base = {}
        self.steps = 0
        self.fnsym = None
        self.gid = {}
        self.ctors_done = False
        self.loopspecs = []; self.trusted_loops = set()
        self.unwound = 0
        self.gf2c = {}
    # ---- helpers
    def fresh(self, base, sort):
        self.uid += 1
        return var('%s!%d' % (base, self.uid), sort)
    def loc(self):
        f = self.stack[-1] if self.stack else None
        return '%s:%s' % (f[0].file or f[0].name, self.cur_line) if f else '?'
    def oblige(self, st, cond, label, kind):
        if cond is TRUE: return
        self.obs.append(Ob(st.g.lits(), cond, label, kind, self.where()))
    def where(self):
        if not self.stack: return '?'
        F, line = self.stack[-1]
        return '%s (%s:%s)' % (F.dem.split('(')[0][:80], (F.file or '').replace('/repo/', ''), self.cur_line)
    def new_obj(self, st, size, kind, name):
        o = Obj(); o.id = self.oid; self.oid += 1
        o.size = size; o.kind = kind; o.name = name; o.cells = {}; o.regs = []; o.owner = st.tok; o.freed = FALSE; o.ro = False
        st.mem[o.id] = o
        return o
    # ---- globals
    def gobj(self, st, name):
        oid = self.gid.get(name)
        if oid is None:
            g = self.mod.globals.get(name)
            if g is None: raise Unsup('global ' + name)
            oid = self.oid; self.oid += 1
            self.gid[name] = oid
            o = Obj(); o.id = oid; o.size = g['sz']; o.kind = 'global'; o.name = name; o.cells = {}; o.regs = []; o.owner = None; o.freed = FALSE
            o.ro = g['const']
            self.base[oid] = o
            if 'init' in g: self.init_cells(o, 0, ty(g['t']), g['init'])
        if oid not in st.mem: st.mem[oid] = self.base[oid]
        return oid
    def init_cells(self, o, off, t, c):
        if c[0] == 'zero':
            if t[0] == 'agg':
                if o.size > CELLS or t[1] is None:
                    o.regs.append((off, t[2], aconst(bv(0, 8)))); return
                for fo, ft in t[1]: self.init_cells(o, off + fo, ft, ['zero', None])
            elif t[0] == 'int': o.cells[off] = (tsize(t), bv(0, 8 * tsize(t)))
            elif t[0] == 'fp': o.cells[off] = (tsize(t), fc(0, t[1]))
            elif t[0] == 'ptr': o.cells[off] = (8, NULL)
        elif c[0] == 'agg':
            for (fo, ft), x in zip(t[1], c[2:]): self.init_cells(o, off + fo, ft, x)
        elif c[0] == 'undef': pass
        else:
            v = self.const(None, c)
            if v is not None:
                if t == ('int', 1): v = ite(v, bv(1, 8), bv(0, 8))
                o.cells[off] = (tsize(t), v)
    def const(self, st, c):
        k = c[0]
        if k == 'i':
            if c[1] == 1: return mk_bool(int(c[2]) != 0)
            return bv(int(c[2]), c[1])
        if k == 'f':
            if c[1] == 'x87': raise Unsup('x87 constant')
            return fc(int(c[2]), 'D' if c[1] == 'double' else 'F')
        if k == 'abs': return ptr(0, bv(c[1], 64))
        if k == 'fn': return ptr(('fn', c[1]))
        if k == 'g':
            if st is None:
                class D: pass
                d = D(); d.mem = {}
                return ptr(self.gobj(d, c[1]), bv(c[2], 64))
            return ptr(self.gobj(st, c[1]), bv(c[2], 64))
        if k == 'undef': return self.undef(ty(c[1]))
        if k == 'zero': return self.zero(ty(c[1]))
        if k == 'agg': return tuple(self.const(st, x) for x in c[2:])
        if k == 'p2i':
            return extract(ptoi(self.const(st, c[2])), c[1] - 1, 0)
        if k == 'cebin':
            a = self.const(st, c[2]); b = self.const(st, c[3])
            return sub(a, b) if c[1] == 'sub' else add(a, b)
        raise Unsup('constant %r' % (c,))
    def undef(self, t):
        if t[0] == 'int': return self.fresh('undef', 'B' if t[1] == 1 else t[1])
        if t[0] == 'fp': return self.fresh('undef', t[1])
        if t[0] == 'ptr': return NULL
        if t[0] == 'agg': return tuple(self.undef(x) for _, x in t[1])
        raise Unsup('undef')
    def zero(self, t):
        if t[0] == 'int': return FALSE if t[1] == 1 else bv(0, t[1])
        if t[0] == 'fp': return fc(0, t[1])
        if t[0] == 'ptr': return NULL
        if t[0] == 'agg': return tuple(self.zero(x) for _, x in t[1])
        raise Unsup('zero')
    # ---- memory access
    def to_int(self, v):
        if isinstance(v, P): return ptoi(v)
        if v.sort in ('D', 'F'): return fbits(v)
        if v.sort == 'B': return ite(v, bv(1, 8), bv(0, 8))
        return v
    def conv(self, v, t):
        if t[0] == 'int':
            v = self.to_int(v)
            if t[1] == 1: return eq(extract(v, 0, 0), bv(1, 1))
            if v.sort > t[1]: v = extract(v, t[1] - 1, 0)
            return v
        if t[0] == 'fp':
            if isinstance(v, P): v = ptoi(v)
            if v.sort in ('D', 'F'): return v
            return ffrom(v)
        if t[0] == 'ptr':
            if isinstance(v, P): return v
            return itop(self.to_int(v))
        raise Unsup('conv')
    def byte(self, o, off):
        for lo, n, arr in o.regs:
            if lo <= off < lo + n: return select(arr, bv(off - lo, 64))
        for d in range(0, 16):
            c = o.cells.get(off - d)
            if c is not None:
                if c[0] > d:
                    x = self.to_int(c[1])
                    return extract(x, 8 * d + 7, 8 * d)
                break
        if o.kind == 'global' and o.ro is None: pass
        v = var('uninit!%d!%d' % (o.id, off), 8)
        return v
    def rd(self, o, off, t):
        n = tsize(t)
        if t[0] == 'agg': return tuple(self.rd(o, off + fo, ft) for fo, ft in t[1])
        c = o.cells.get(off)
        if c is not None and c[0] == n: return self.conv(c[1], t)
        return self.conv(concat(*[self.byte(o, off + i) for i in reversed(range(n))]), t)
    def clear(self, o, off, n):
        """remove cells overlapping [off, off+n), splitting the rest into bytes"""
        for d in range(1, 16):
            c = o.cells.get(off - d)
            if c is not None:
                if c[0] > d:
                    x = self.to_int(c[1])
                    del o.cells[off - d]
                    for i in range(c[0]):
                        if off - d + i < off or off - d + i >= off + n: o.cells[off - d + i] = (1, extract(x, 8 * i + 7, 8 * i))
                break
        for k in range(off, off + n):
            c = o.cells.get(k)
            if c is not None:
                del o.cells[k]
                if k + c[0] > off + n:
                    x = self.to_int(c[1])
                    for i in range(off + n - k, c[0]): o.cells[k + i] = (1, extract(x, 8 * i + 7, 8 * i))
    def in_reg(self, o, off):
        for i, (lo, n, arr) in enumerate(o.regs):
            if lo <= off < lo + n: return i
        return None
    def wr(self, o, off, n, v):
        r = self.in_reg(o, off)
        if r is not None:
            lo, ln, arr = o.regs[r]
            x = self.to_int(v)
            for i in range(n): arr = store(arr, bv(off - lo + i, 64), extract(x, 8 * i + 7, 8 * i))
            o.regs[r] = (lo, ln, arr); return
        c = o.cells.get(off)
        if c is None or c[0] != n: self.clear(o, off, n)
        o.cells[off] = (n, v)
    def bounds(self, o, off, n):
        sz = o.size
        if isinstance(sz, int):
            if off.op == 'bv': return mk_bool(off.p + n <= sz)
            if sz < n: return FALSE
            return ule(off, bv(sz - n, 64))
        return And(ule(bv(n, 64), sz), ule(off, sub(sz, bv(n, 64))))
    def cands(self, o, off, n):
        """candidate concrete offsets of a symbolic offset"""
        c0, l = TT._lin(off)
        vals = {c0 & M64}
        for k, t in l:
            ls = leaves(t)
            if ls is None or len(ls) * len(vals) > 256: vals = None; break
            vals = {(v + k * x) & M64 for v in vals for x in ls}
        if vals is not None: return sorted(v for v in vals if not isinstance(o.size, int) or v + n <= o.size)
        g = 0
        for k, t in l:
            z = 0
            if t.op == 'concat' and t.args[-1].op == 'bv':
                q = t.args[-1]
                z = (q.p & -q.p).bit_length() - 1 if q.p else q.sort
            g = math.gcd(g, to_s(k, 64) << z)
        g = abs(g) or 1
        lo, hi = urange(off)
        if not isinstance(o.size, int): raise Unsup("symbolic offset into an object of symbolic size (%s): %s" % (o.name, str(off)[:200]))
        lo = max(lo, 0); hi = min(hi, o.size - n)
        st0 = c0 % g
        first = lo + ((st0 - lo) % g)
        return range(first, hi + 1, g)
    def access_objs(self, st, p, n, what):
        out = []
        for c, oid, off in p.alts:
            if oid == 0 or isinstance(oid, tuple):
                self.oblige(st, Not(c), 'valid pointer: no null/invalid dereference (%s)' % what, 'mem'); continue
            if oid not in st.mem:
                if oid in self.base: st.mem[oid] = self.base[oid]
                else: raise Unsup('dangling object')
            o = st.mem[oid]
            if o.freed is not FALSE: self.oblige(st, Implies(c, Not(o.freed)), 'no access after lifetime end (%s of %s)' % (what, o.name), 'mem')
            b = self.bounds(o, off, n)
            if b is not TRUE: self.oblige(st, Implies(c, b), 'access in bounds (%s of %s)' % (what, o.name), 'mem')
            out.append((c, o, off))
        return out
    def load(self, st, p, t):
        if t[0] == 'agg':
            return tuple(self.load(st, self.padd(p, fo), ft) for fo, ft in t[1])
        n = tsize(t)
        res = None
        for c, o, off in reversed(self.access_objs(st, p, n, 'read')):
            v = self.load1(st, o, off, n, t)
            if v is None: continue
            res = v if res is None else v_ite(c, v, res)
        if res is None:
            self.kill = True
            return self.undef(t)
        return res
    def sym_region(self, o, off):
        if not o.regs: return None
        c0, l = TT._lin(off)
        for i, (lo, n, arr) in enumerate(o.regs):
            if lo <= c0 < lo + n: return i
        for i, (lo, n, arr) in enumerate(o.regs):
            if lo <= c0 <= lo + n: return i
        return None
    def load1(self, st, o, off, n, t):
        if off.op == 'bv':
            if isinstance(o.size, int) and off.p + n > o.size: return None
            return self.rd(o, off.p, t)
        if off.op == 'ite' and not o.regs:
            a = self.load1(st, o, off.args[1], n, t); b = self.load1(st, o, off.args[2], n, t)
            if a is None: return b
            if b is None: return a
            return v_ite(off.args[0], a, b)
        r = self.sym_region(o, off)
        if r is not None:
            lo, ln, arr = o.regs[r]
            rel = sub(off, bv(lo, 64))
            if not (lo == 0 and ln == o.size): self.oblige(st, ule(rel, bv(ln - n, 64)), 'access inside its array (%s)' % o.name, 'mem')
            return self.conv(concat(*[select(arr, add(rel, bv(i, 64))) for i in reversed(range(n))]), t)
        if o.ro and t[0] == 'int':
            v = self.gf2_table(o, off, n, t)
            if v is not None: return v
        cs = self.cands(o, off, n)
        if len(cs) > self.opts.get('maxcand', 1200): raise Unsup('symbolic offset into %s with %d candidates' % (o.name, len(cs)))
        res = None
        cs = self.prune(st, o, off, cs, n, TRUE, t[0] == 'ptr')
        for k in reversed(cs):
            v = self.rd(o, k, t)
            res = v if res is None else v_ite(eq(off, bv(k, 64)), v, res)
        return res
    def gf2_table(self, o, off, n, t):
        """a constant table whose entries are an exclusive-or of per-index-bit constants (checked on every entry): read it bit by bit"""
        c0, l = TT._lin(off)
        if len(l) != 1: return None
        k, x = l[0]
        if k & (k - 1): return None
        bits = []; pos = 0
        for a in reversed(x.args if x.op == 'concat' else (x,)):
            if a.op == 'bv':
                c0 += a.p * (k << pos)
            else:
                if len(bits) + a.sort > 10: return None
                for i in range(a.sort): bits.append((extract(a, i, i), k << (pos + i)))
            pos += a.sort
        c0 &= (1 << 64) - 1
        m = len(bits)
        if m == 0: return None
        key = (o.id, c0, n, tuple(w for _, w in bits))
        basis = self.gf2c.get(key, 0)
        if basis == 0:
            basis = None
            vals = []
            for i in range(1 << m):
                k2 = c0 + sum(w for j, (_, w) in enumerate(bits) if i >> j & 1)
                if k2 + n > o.size: break
                v = self.rd(o, k2, t)
                if not isinstance(v, T) or v.op != 'bv': break
                vals.append(v.p)
            else:
                if m >= 3 and all(vals[i] == vals[i & (i - 1)] ^ vals[i & -i] ^ vals[0] for i in range(1, 1 << m)):
                    basis = [vals[0]] + [vals[1 << j] ^ vals[0] for j in range(m)]
            self.gf2c[key] = basis
        if basis is None: return None
        out = []
        for b in reversed(range(t[1])):
            r = bv(basis[0] >> b & 1, 1)
            for j in range(m):
                if basis[1 + j] >> b & 1: r = bxor(r, bits[j][0])
            out.append(r)
        return concat(*out)
    def prune(self, st, o, off, cs, n, c, isptr):
        """drop the candidate offsets that mix pointers with other data, where they are not feasible"""
        if self.feasible is None or o.regs: return cs
        out = []
        pc = [(k, m) for k, (m, v) in o.cells.items() if isinstance(v, P)]
        oc = [(k, m) for k, (m, v) in o.cells.items() if not isinstance(v, P)] if isptr else []
        if not pc and not isptr: return cs
        for k in cs:
            odd = any(a < k + n and k < a + m for a, m in (oc if isptr else pc))
            if odd and not self.feasible(st.g.lits() + [c, eq(off, bv(k, 64))]): continue
            out.append(k)
        return out
    def padd(self, p, k):
        if k == 0: return p
        return P([(c, o, add(f, bv(k, 64))) for c, o, f in p.alts])
    def store_(self, st, p, t, v):
        if t[0] == 'agg':
            for (fo, ft), x in zip(t[1], v): self.store_(st, self.padd(p, fo), ft, x)
            return
        n = tsize(t)
        if t == ('int', 1): v = ite(v, bv(1, 8), bv(0, 8))
        elif t[0] == 'int' and t[1] % 8: v = zext(v, 8 * n)
        accs = self.access_objs(st, p, n, 'write')
        for c, o, off in accs:
            if o.ro: self.oblige(st, Not(c), 'no write to constant data', 'mem')
            o = st.w(o.id)
            self.store1(st, c if len(accs) > 1 else TRUE, o, off, n, t, v)
        if not accs: self.kill = True
    def store1(self, st, c, o, off, n, t, v):
        st_t = ('int', 8 * n) if t[0] == 'int' else t
        if off.op == 'bv':
            if isinstance(o.size, int) and off.p + n > o.size: return
            if c is not TRUE: v = v_ite(c, v, self.rd(o, off.p, st_t))
            self.wr(o, off.p, n, v); return
        r = self.sym_region(o, off)
        if r is not None:
            lo, ln, arr = o.regs[r]
            rel = sub(off, bv(lo, 64))
            if not (lo == 0 and ln == o.size): self.oblige(st, Implies(c, ule(rel, bv(ln - n, 64))), 'write inside its array (%s)' % o.name, 'mem')
            x = self.to_int(v); na = arr
            for i in range(n): na = store(na, add(rel, bv(i, 64)), extract(x, 8 * i + 7, 8 * i))
            o.regs[r] = (lo, ln, ite(c, na, arr)); return
        cs = self.cands(o, off, n)
        if len(cs) > self.opts.get('maxcand', 1200): raise Unsup('symbolic offset write into %s with %d candidates' % (o.name, len(cs)))
        for k in self.prune(st, o, off, cs, n, c, t[0] == 'ptr'):
            old = self.rd(o, k, st_t)
            self.wr(o, k, n, v_ite(And(c, eq(off, bv(k, 64))), v, old))
    def memcpy(self, st, d, s, n):
        if n.op != 'bv':
            lo, hi = urange(n)
            if hi > 4096: raise Unsup('memcpy of symbolic size')
            # conditional byte copy
            bs = []
            for i in range(hi):
                c = ult(bv(i, 64), n)
                s2 = st
                g0 = st.g; g1 = g_push(g0, c)
                if g1 is None: break
                st.g = g1
                bs.append((c, self.load(st, self.padd(s, i), ('int', 8))))
                st.g = g0
            for i, (c, b) in enumerate(bs):
                g0 = st.g; g1 = g_push(g0, c)
                if g1 is None: break
                st.g = g1
                old = self.load(st, self.padd(d, i), ('int', 8))
                self.store_(st, self.padd(d, i), ('int', 8), ite(c, b, old))
                st.g = g0
            return
        n = n.p
        if n == 0: return
        da = self.access_objs(st, d, n, 'copy'); sa = self.access_objs(st, s, n, 'copy')
        if not da or not sa: self.kill = True; return
        if len(da) == 1 and len(sa) == 1 and da[0][2].op == 'bv' and sa[0][2].op == 'bv':
            so, sf = sa[0][1], sa[0][2].p
            if isinstance(so.size, int) and sf + n > so.size: self.kill = True; return
            pieces = []
            k = sf
            if any(lo < sf + n and lo + ln > sf for lo, ln, _ in so.regs):
                for lo, ln, arr in so.regs:
                    if lo == sf and ln == n:
                        do = st.w(da[0][1].id); df = da[0][2].p
                        for i, (l2, n2, a2) in enumerate(do.regs):
                            if l2 == df and n2 == n: do.regs[i] = (l2, n2, arr); return
                        if n > 256:
                            self.clear(do, df, n); do.regs.append((df, n, arr)); return
            while k < sf + n:
                c = so.cells.get(k)
                if c is not None and k + c[0] <= sf + n and self.in_reg(so, k) is None:
                    pieces.append((k - sf, c[0], c[1])); k += c[0]
                else:
                    # uninitialised or partial
                    has = self.in_reg(so, k) is not None
                    if not has:
                        for dd in range(1, 16):
                            q = so.cells.get(k - dd)
                            if q is not None:
                                has = q[0] > dd; break
                        if c is not None: has = True
                    if has: pieces.append((k - sf, 1, self.byte(so, k)))
                    else: pieces.append((k - sf, 1, None))
                    k += 1
            do = st.w(da[0][1].id); df = da[0][2].p
            for r, sz, v in pieces:
                if v is None:
                    if self.in_reg(do, df + r) is not None: self.wr(do, df + r, 1, self.byte(so, sf + r))
                    else: self.clear(do, df + r, 1)
                else: self.wr(do, df + r, sz, v)
            return
        vs = []
        k = 0
        # general case: copy by words where the source is word-structured
        step = 8 if n % 8 == 0 and n > 8 else (n if n in (1, 2, 4, 8) else 1)
        if n % 8 == 0: step = 8
        elif n % 4 == 0: step = 4
        for k in range(0, n, step):
            vs.append(self.load_any(st, self.padd(s, k), step))
        for i, k in enumerate(range(0, n, step)):
            v = vs[i]
            t = ('ptr',) if isinstance(v, P) else (('fp', v.sort) if v.sort in ('D', 'F') else ('int', 8 * step))
            self.store_(st, self.padd(d, k), t, v)
    def load_any(self, st, p, n):
        """load n bytes keeping the kind of the stored value when it is uniform"""
        kinds = set()
        for c, oid, off in p.alts:
            if oid in st.mem:
                o = st.mem[oid]
                if off.op == 'bv':
                    q = o.cells.get(off.p)
                    kinds.add('x' if q is None or q[0] != n else ('p' if isinstance(q[1], P) else q[1].sort))
                else:
                    for k in self.cands(o, off, n) if not o.regs else []:
                        q = o.cells.get(k)
                        kinds.add('x' if q is None or q[0] != n else ('p' if isinstance(q[1], P) else q[1].sort))
        if kinds == {'p'}: return self.load(st, p, ('ptr',))
        if kinds == {'D'}: return self.load(st, p, ('fp', 'D'))
        if kinds == {'F'}: return self.load(st, p, ('fp', 'F'))
        return self.load(st, p, ('int', 8 * n))
    def memset(self, st, d, v, n):
        if n.op != 'bv': raise Unsup('memset symbolic size')
        for c, o, off in self.access_objs(st, d, n.p, 'fill'):
            if off.op != 'bv': raise Unsup('memset symbolic offset')
            o = st.w(o.id)
            if c is TRUE and v.op == 'bv':
                r = self.in_reg(o, off.p)
                if r is not None and (o.regs[r][0], o.regs[r][1]) == (off.p, n.p): o.regs[r] = (off.p, n.p, aconst(v)); continue
                if n.p > CELLS // 2 and not o.regs:
                    self.clear(o, off.p, n.p); o.regs.append((off.p, n.p, aconst(v))); continue
                k = 0
                while k < n.p:
                    step = 8 if (off.p + k) % 8 == 0 and k + 8 <= n.p else 1
                    self.wr(o, off.p + k, step, bv(int.from_bytes(bytes([v.p]) * step, 'little'), 8 * step)); k += step
            else:
                for k in range(n.p):
                    x = v if c is TRUE else ite(c, v, self.byte(o, off.p + k))
                    self.wr(o, off.p + k, 1, x)
    # ---- merging
    def merge(self, a, b):
        """merge two edge states (st, vals); returns same"""
        sa, va = a; sb, vb = b
        cg = g_common(sa.g, sb.g)
        ra = g_res(sa.g, cg); rb = g_res(sb.g, cg)
        if ra and rb and ra[0] is Not(rb[0]):
            c = ra[0]; o = ite(c, And(*ra[1:]), And(*rb[1:]))
        else:
            c = And(*ra); o = Or(c, And(*rb))
        g = g_push(cg, o)
        if g is None: g = cg
        mem = {}
        tok = object()
        for oid in sa.mem.keys() | sb.mem.keys():
            x = sa.mem.get(oid); y = sb.mem.get(oid)
            if x is None or y is None: mem[oid] = x or y; continue
            if x is y: mem[oid] = x; continue
            mem[oid] = self.merge_obj(c, x, y, tok)
        s = St(g, mem); s.tok = tok
        return (s, [v_ite(c, p, q) if p is not q else p for p, q in zip(va, vb)])
    def merge_obj(self, c, x, y, tok):
        if x.cells == y.cells and x.regs == y.regs and x.freed is y.freed: return x
        o = x.clone(tok)
        o.freed = ite(c, x.freed, y.freed)
        if len(x.regs) == len(y.regs) and all(p[0] == q[0] and p[1] == q[1] for p, q in zip(x.regs, y.regs)):
            o.regs = [(p[0], p[1], ite(c, p[2], q[2])) for p, q in zip(x.regs, y.regs)]
        else: raise Unsup('merge of differing regions')
        for k in set(x.cells) | set(y.cells):
            p = x.cells.get(k); q = y.cells.get(k)
            if p is not None and q is not None and p[0] == q[0]:
                if p[1] is q[1]: continue
                a, b = p[1], q[1]
                if isinstance(a, P) != isinstance(b, P) :
                    if isinstance(a, P):
                        try: b = itop(b)
                        except Unsup: a = ptoi(a)
                    else:
                        try: a = itop(a)
                        except Unsup: b = ptoi(b)
                elif not isinstance(a, P) and a.sort != b.sort:
                    if {a.sort, b.sort} <= {'D', 64}:
                        a = a if a.sort == 'D' else ffrom(a); b = b if b.sort == 'D' else ffrom(b)
                    elif {a.sort, b.sort} <= {'F', 32}:
                        a = a if a.sort == 'F' else ffrom(a); b = b if b.sort == 'F' else ffrom(b)
                    else: a = self.to_int(a); b = self.to_int(b)
                o.cells[k] = (p[0], v_ite(c, a, b))
            elif p is not None and q is not None:
                self._bytes(o, x, y, c, k, max(p[0], q[0]))
            elif p is None or q is None:
                # only one side has a cell starting here: the other side may be uninitialised (any value allowed) or differently cut
                z, other = (p, y) if p is not None else (q, x)
                if self._covered(other, k, z[0]): self._bytes(o, x, y, c, k, z[0])
                else:
                    v = z[1]
                    o.cells[k] = z      # uninitialised on the other path: any value is a sound choice only for undefined reads
        return o
    def _covered(self, o, off, n):
        for i in range(n):
            for d in range(16):
                c = o.cells.get(off + i - d)
                if c is not None:
                    if c[0] > d: return True
                    break
        return False
    def _bytes(self, o, x, y, c, off, n):
        vals = [ite(c, self.byte(x, off + i), self.byte(y, off + i)) for i in range(n)]
        self.clear(o, off, n)
        for i, v in enumerate(vals): o.cells[off + i] = (1, v)
    # ---- execution
    def val(self, st, regs, v):
        if type(v) is int: return regs[v]
        return self.const(st, v)
    def call(self, st, name, args, depth=0):
        """returns (state or None, value)"""
        F = self.mod.fns.get(name)
        for rx, h in self.stubs:
            if rx.match(F.dem if F else name) and not (self.stack and getattr(h, 'tgt', None) == self.stack[-1][0].name):   # (called from the stub itself: the real one)
                return h(self, st, args, F)
        r = self.builtin(st, name, args, F)
        if r is not NotImplemented: return r
        if F is None or F.decl:
            raise Unsup('external function %s' % (F.dem if F else name))
        if len(self.stack) > 120: raise Unsup('recursion too deep in ' + F.dem)
        return self.run(st, F, args)
    def run(self, st, F, args):
        if F.order is None: wto(F)
        if F.file and '/repo/' in F.file and not F.name.startswith(('vc_', 'vcs_')): self.touched[F.name] = F
        regs = {}
        for i, ((at, *ex), a) in enumerate(zip(F.args, args)):
            if ex and ex[0] == 'byval':
                o = self.new_obj(st, ex[1], 'stack', 'byval')
                self.memcpy(st, ptr(o.id), a, bv(ex[1], 64)); a = ptr(o.id)
            regs[i] = a
        self.stack.append([F, 0])
        line0 = getattr(self, 'cur_line', 0)
        pend = {0: [(st, [], None)]}
        rets = []
        counts = {}
        allocas = []
        ab = {}
        while pend:
            b = min(pend, key=lambda x: F.order[x])
            edges = pend.pop(b)
            if b in F.headers:
                counts[b] = counts.get(b, 0) + 1
                if self.abstract_rx is not None:
                    edges = self.abstract_loop(F, b, edges, counts, ab)
                    if not edges: continue
                inv = self.loop_hook(F, b, edges, regs, counts)
                if inv is not None:
                    edges = inv
                    if not edges: continue
            # merge
            es = [(s, vals) for s, vals, _ in edges]
            while len(es) > 1:
                # merge pair with the deepest common guard
                best = None
                if len(es) == 2: best = (0, 1)
                else:
                    bd = -1
                    for i in range(len(es)):
                        for j in range(i + 1, len(es)):
                            d = g_common(es[i][0].g, es[j][0].g).d
                            if d > bd: bd = d; best = (i, j)
                i, j = best
                m = self.merge(es[i], es[j])
                es = [e for k, e in enumerate(es) if k not in (i, j)] + [m]
            st, vals = es[0]
            blk = F.blocks[b]
            pi = 0
            for ins in blk:
                if ins['o'] != 'phi': break
                regs[ins['r']] = vals[pi]; pi += 1
            out = self.block(st, F, b, blk[pi:], regs, allocas)
            if ab: out = self.abstract_edges(F, b, out, regs, ab, pend)
            # (feas_exit=1: every undecided branch is tested)
            if len(out) > 1 and self.opts.get('feas_exit') and self.feasible is not None: out = [x for x in out if self.feasible(x[1].g.lits())]
            for kind, s2, tgt in out:
                if kind == 'ret': rets.append((s2, [tgt] if tgt is not None else []))
                else:
                    # phi values on the edge
                    vs = []
                    for ins in F.blocks[tgt]:
                        if ins['o'] != 'phi': break
                        for v, pb in ins['in']:
                            if pb == b: vs.append(self.val(s2, regs, v)); break
                    # back edge bookkeeping
                    pend.setdefault(tgt, []).append((s2, vs, b))
        self.stack.pop(); self.cur_line = line0
        if not rets: return None, None
        es = rets
        while len(es) > 1:
            bd = -1
            for i in range(len(es)):
                for j in range(i + 1, len(es)):
                    d = g_common(es[i][0].g, es[j][0].g).d
                    if d > bd: bd = d; best = (i, j)
            i, j = best
            m = self.merge(es[i], es[j]); es = [e for k, e in enumerate(es) if k not in (i, j)] + [m]
        s, v = es[0]
        if allocas:
            for oid in allocas: s.mem.pop(oid, None)
        return s, (v[0] if v else None)
    # ---- loops whose number of iterations depends on floating-point data: the state at the loop head is forgotten
    # (all values of it are considered), one iteration from it is executed, and the loop is left where the real loop
    # is left.  Every execution of the loop ends with such an iteration, or leaves within the first, executed exactly.
    abstract_rx = None; abstract_now = False      # abstract_now: from the first iteration on
    def loop_info(self, F, b):
        li = F.loopof.get(b)
        if li is not None: return li
        bs = F.lp[F.headers[b]][1]; ok = True; defs = {}
        for x in bs:
            for ins in F.blocks[x]:
                o = ins['o']
                if 'r' in ins: defs[ins['r']] = ins
                if o in ('store', 'invoke', 'alloca', 'atomicrmw', 'cmpxchg', 'switch'): ok = False
                if o == 'call' and ins.get('f') is None: ok = False      # (what callees do to the memory: see memcheck)
        used = set()
        def scan(v):
            if type(v) is int:
                if v in defs: used.add(v)
            elif isinstance(v, (list, tuple)):
                for y in v: scan(y)
        for x in range(len(F.blocks)):
            if x in bs: continue
            for ins in F.blocks[x]:
                if ins['o'] == 'phi':
                    for v, pb in ins['in']: scan(v) if type(v) is int else None
                else:
                    for k, v in ins.items():
                        if k in ('a', 'b', 'c', 'n', 'fp'): scan(v)
                        elif k == 'ix' and ins['o'] == 'getelementptr': [scan(y[0]) for y in v]
        headterm = succs(F.blocks[b][-1])
        rotated = all(t in bs for t in headterm) or any(b in succs(F.blocks[b][-1]) for _ in (0,))
        li = dict(ok=ok, bs=bs, used=sorted(used), rotated=rotated, nested=any(h != b and h in bs for h, _ in F.lp))
        F.loopof[b] = li
        return li
    def havoc_phis(self, F, b, vals):
        # the names are those of the contract for the first loop abstracted, later ones have their own
        self.nloops += 1; pre = self.prefix = 'loop' if self.nloops == 1 else 'loop%d' % self.nloops
        out = []; nd = ni = 0
        for v in vals:
            if isinstance(v, P): raise Unsup('pointer carried by an abstracted loop')
            if v.sort in ('D', 'F'): out.append(var('%s.in%d' % (pre, nd), v.sort)); nd += 1
            elif v.sort == 'B': out.append(self.fresh('loop.b', 'B'))
            else: out.append(var('%s.k%d' % (pre, ni), v.sort)); ni += 1
        return out
    nloops = 0; prefix = 'loop'
    def memsig(self, st): return {i: (dict(o.cells), list(o.regs)) for i, o in st.mem.items()}
    def memcheck(self, m, st):
        """an abstracted loop leaves the memory there was as it is"""
        if m[2] is None: return
        for i, (c, r) in m[2].items():
            o = st.mem.get(i)
            if o is None or o.cells.keys() != c.keys() or any(o.cells[k] is not v and o.cells[k] != v for k, v in c.items()) or len(r) != len(o.regs) or any(x is not y and x != y for x, y in zip(r, o.regs)):
                raise Unsup('an abstracted loop changes memory')
    def abstract_loop(self, F, b, edges, counts, ab):
        if not F.file or not self.abstract_rx.search(F.file): return edges
        li = self.loop_info(F, b)
        if not li['ok'] or li['nested']: return edges
        entry = [e for e in edges if e[2] not in li['bs']]
        if entry and b not in ab and self.abstract_now and li['rotated'] and any(v.sort == 'D' for v in edges[0][1] if not isinstance(v, P)):
            # (the values before the first iteration are among those considered)
            self.trusted_loops.add(self.where())
            es = [(s, vals) for s, vals, _ in edges]
            while len(es) > 1: es = [self.merge(es[0], es[1])] + es[2:]
            vals = self.havoc_phis(F, b, es[0][1]); ab[b] = ['last', 0, self.memsig(es[0][0]), self.prefix]
            return [(es[0][0], vals, edges[0][2])]
        if entry and b not in ab: ab[b] = ['first', max(e[0].g.d for e in entry), None, None]; return edges
        m = ab.get(b)
        if m is None: return edges
        if entry and m[0] != 'first': raise Unsup('an abstracted loop is entered again')
        if m[0] == 'first':
            if not any(e[0].g.d > m[1] for e in edges): return edges     # so far the iterations are decided
            if not any(v.sort == 'D' for v in edges[0][1] if not isinstance(v, P)): return edges
            self.trusted_loops.add(self.where())
            if li['rotated']:
                m[0] = 'last'
                es = [(s, vals) for s, vals, _ in edges]
                while len(es) > 1: es = [self.merge(es[0], es[1])] + es[2:]
                vals = self.havoc_phis(F, b, es[0][1]); m[2] = self.memsig(es[0][0]); m[3] = self.prefix
                return [(es[0][0], vals, edges[0][2])]
            m[0] = 'exit'; return edges
        if m[0] == 'again': m[0] = 'stay'; return edges
        if m[0] == 'stay': m[0] = 'final'; return edges
        for e in edges: self.memcheck(m, e[0])
        return []                     # 'last': covered by the forgotten state
    def abstract_edges(self, F, b, out, regs, ab, pend):
        for h, m in ab.items():
            li = F.loopof.get(h)
            if li is None or m[0] == 'first' or b not in li['bs']: continue
            res = []
            for kind, s2, tgt in out:
                inside = kind == 'br' and tgt in li['bs']
                if not inside and kind == 'br':
                    if b == h and m[0] == 'stay': continue
                    self.memcheck(m, s2)
                    # the values that leave the loop get names
                    k = 0
                    for r in li['used']:
                        v = regs.get(r)
                        if v is None or isinstance(v, P) or getattr(v, 'sort', None) != 'D': continue
                        nv = var('%s.out%d' % (m[3], k), 'D'); k += 1
                        if v is nv or v.op == 'fc': continue
                        g = g_push(s2.g, mk('feq', (nv, v), 'B')); s2.g = g; regs[r] = nv
                    res.append((kind, s2, tgt)); continue
                if inside and b == h and m[0] == 'exit':
                    vals = []
                    for ins in F.blocks[h]:
                        if ins['o'] != 'phi': break
                        vals.append(regs[ins['r']])
                    m[0] = 'again'; m[2] = self.memsig(s2)
                    vals = self.havoc_phis(F, h, vals); m[3] = self.prefix
                    pend.setdefault(h, []).append((s2, vals, next(iter(li['bs'] - {h}), h))); continue
                if inside and b == h and m[0] == 'final': self.memcheck(m, s2); continue
                res.append((kind, s2, tgt))
            out = res
        return out
    def loop_hook(self, F, b, edges, regs, counts):
        # feasibility of the back edge when unrolling a loop whose exit is not syntactically decided
        bs = F.lp[F.headers[b]][1]
        back = [e for e in edges if e[2] in bs]
        if not back: counts[b] = 1; return None
        n = counts[b]
        lim = self.opts.get('unroll', 20000)
        if n > lim: raise Unsup('loop in %s exceeds %d unrollings' % (F.dem, lim))
        ff = self.opts.get('feas_from', 3)
        if n >= ff and self.feasible is not None:
            keep = []
            for e in edges:
                if e[2] in bs:
                    if not self.feasible(e[0].g.lits()): self.unwound += 1; continue
                keep.append(e)
            if len(keep) != len(edges): return keep
            if n > self.opts.get('symunroll', 300) and self.symbolic_guard(back): raise Unsup('loop in %s: no bound found within %d iterations' % (F.dem, n))
        return None
    def symbolic_guard(self, back): return any(e[0].g.d > 0 for e in back)
    def block(self, st, F, b, inss, regs, allocas):
        self.kill = False
        for ins in inss:
            o = ins['o']
            if 'l' in ins: self.cur_line = ins['l']
            self.steps += 1
            if o in ('br', 'switch', 'ret', 'unreachable', 'invoke', 'resume'):
                return self.term(st, F, b, ins, regs, allocas)
            if o == 'call':
                s2, v = self.docall(st, F, ins, regs)
                if s2 is None: return []
                st = s2
                if 'r' in ins: regs[ins['r']] = v
            else:
                v = self.inst(st, ins, regs, allocas)
                if 'r' in ins: regs[ins['r']] = v
            if self.kill: self.kill = False; return []
        raise Unsup('block without terminator')
    def docall(self, st, F, ins, regs):
        args = [self.val(st, regs, a) for a in ins['a']]
        if 'f' in ins:
            f = self.mod.fns.get(ins['f'])
            s, v = self.call(st, ins['f'], args)
            if s is not None and f is not None and f.noreturn: return None, None
            return s, v
        fp = self.val(st, regs, ins['fp'])
        outs = []
        for c, o, off in fp.alts:
            if not isinstance(o, tuple):
                self.oblige(st, Not(c), 'valid function pointer', 'mem'); continue
            g = g_push(st.g, c)
            if g is None: continue
            s2 = st.fork(g)
            s3, v = self.call(s2, o[1], args)
            if s3 is not None: outs.append((s3, [v] if v is not None else []))
        if not outs: return None, None
        while len(outs) > 1: outs = [self.merge(outs[0], outs[1])] + outs[2:]
        return outs[0][0], (outs[0][1][0] if outs[0][1] else None)
    def term(self, st, F, b, ins, regs, allocas):
        o = ins['o']
        if o == 'ret':
            v = self.val(st, regs, ins['a'][0]) if ins['a'] else None
            return [('ret', st, v)]
        if o == 'br':
            if 'c' not in ins: return [('br', st, ins['s'][0])]
            c = self.val(st, regs, ins['c'])
            t, f = ins['s']
            if t == f: return [('br', st, t)]
            if c is TRUE: return [('br', st, t)]
            if c is FALSE: return [('br', st, f)]
            g1 = g_push(st.g, c); g2 = g_push(st.g, Not(c))
            if g1 is None and g2 is None: return []
            if g1 is None or g2 is st.g: return [('br', st, f)]
            if g2 is None or g1 is st.g: return [('br', st, t)]
            s2 = st.fork(g2); s1 = st; s1.g = g1
            return [('br', s1, t), ('br', s2, f)]
        if o == 'switch':
            c = self.val(st, regs, ins['c'])
            out = {}
            res = []
            g = st.g
            # group by target
            cs = {}
            for k, tb in ins['cs']: cs.setdefault(tb, []).append(eq(c, bv(int(k), c.sort)))
            for tb, conds in cs.items():
                if tb == ins['d']: continue
                e = Or(*conds)
                if e is FALSE: continue
                g1 = g_push(g, e)
                if g1 is not None: res.append(('br', st.fork(g1), tb))
                g = g_push(g, Not(e))
                if g is None: return res
            res.append(('br', st.fork(g), ins['d']))
            return res
        if o == 'unreachable':
            return []
        if o == 'invoke':
            s2, v = self.docall(st, F, ins, regs)
            if s2 is None: return []
            if 'r' in ins: regs[ins['r']] = v
            return [('br', s2, ins['nd'])]
        return []
    def binop(self, st, o, a, b, ins):
        if isinstance(a, P) or isinstance(b, P): raise Unsup('pointer arithmetic op')
        if a.sort == 'B':
            if o == 'xor' or o == 'add' or o == 'sub': return Xor(a, b)
            if o == 'and' or o == 'mul': return And(a, b)
            if o == 'or': return Or(a, b)
            raise Unsup('i1 ' + o)
        w = a.sort
        ub = self.opts.get('ovf', True)
        if o in ('add', 'sub', 'mul'):
            r = {'add': add, 'sub': sub, 'mul': mul}[o](a, b)
            if ub and 'nsw' in ins and r.op != 'bv': self.ovf(st, o, a, b, r)
            elif ub and 'nsw' in ins:
                if a.op == 'bv' and b.op == 'bv':
                    x, y = sval(a), sval(b); z = x + y if o == 'add' else x - y if o == 'sub' else x * y
                    self.oblige(st, mk_bool(-(1 << (w - 1)) <= z < (1 << (w - 1))), 'no signed overflow (%s)' % o, 'ub')
            return r
        if o in ('udiv', 'sdiv', 'urem', 'srem'):
            if ub and not (b.op == 'bv' and b.p): self.oblige(st, Not(eq(b, bv(0, w))), 'no division by zero', 'ub')
            if ub and o in ('sdiv', 'srem') and not (b.op == 'bv' and sval(b) != -1):
                self.oblige(st, Not(And(eq(b, bv(-1, w)), eq(a, bv(1 << (w - 1), w)))), 'no division overflow', 'ub')
            return globals()[o](a, b)
        if o in ('shl', 'lshr', 'ashr'):
            if ub and b.op != 'bv': self.oblige(st, ult(b, bv(w, w)), 'shift amount below width', 'ub')
            elif ub and b.p >= w: self.oblige(st, FALSE, 'shift amount below width', 'ub')
            return globals()[o](a, b)
        if o == 'and': return band(a, b)
        if o == 'or': return bor(a, b)
        if o == 'xor': return bxor(a, b)
        raise Unsup(o)
    def ovf(self, st, o, a, b, r):
        w = a.sort
        (l1, h1), (l2, h2) = srange(a), srange(b)
        if o == 'add': lo, hi = l1 + l2, h1 + h2
        elif o == 'sub': lo, hi = l1 - h2, h1 - l2
        else:
            ps = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]; lo, hi = min(ps), max(ps)
        if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)): return
        if o == 'mul':
            x = mul(sext(a, 2 * w), sext(b, 2 * w)); c = eq(x, sext(extract(x, w - 1, 0), 2 * w))
            k = b if b.op == 'bv' else a if a.op == 'bv' else None
            if k is not None and sval(k) > 0:
                y = a if k is b else b; kv = sval(k)
                c = And(sle(bv(-((1 << (w - 1)) // kv), w), y), sle(y, bv(((1 << (w - 1)) - 1) // kv, w)))
        else:
            # a+b overflow iff (b>=0 and r<a) or (b<0 and r>=a)
            x = a; y = b
            if y.op == 'bv' or x.op == 'bv':
                if o == 'add':
                    if x.op == 'bv': x, y = y, x
                    k = sval(y)
                else: k = None
                if o == 'sub' and y.op == 'bv': k = -sval(y)
                if k is not None:
                    H = (1 << (w - 1)) - 1
                    c = sle(x, bv(H - k, w)) if k >= 0 else sle(bv(-H - 1 - k, w), x)
                    self.oblige(st, c, 'no signed overflow (%s)' % o, 'ub'); return
            e = {'add': add, 'sub': sub}[o](sext(a, w + 1), sext(b, w + 1))
            c = eq(e, sext(r, w + 1)) if False else And(sle(bv(-(1 << (w - 1)), w + 1), e), sle(e, bv((1 << (w - 1)) - 1, w + 1)))
        self.oblige(st, c, 'no signed overflow (%s)' % o, 'ub')
    def vec(self, f, *xs):
        if isinstance(xs[0], tuple): return tuple(self.vec(f, *ys) for ys in zip(*xs))
        return f(*xs)
    def inst(self, st, ins, regs, allocas):
        o = ins['o']
        V = lambda x: self.val(st, regs, x)
        if o in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, b = map(V, ins['a'])
            return self.vec(lambda x, y: self.binop(st, o, x, y, ins), a, b)
        if o in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = map(V, ins['a'])
            return self.vec(lambda x, y: fop(o, x, y), a, b)
        if o == 'frem':
            a, b = map(V, ins['a']); return fun('fmod', a.sort, a, b)
        if o == 'fneg': return self.vec(lambda x: fop('fneg', x), V(ins['a'][0]))
        if o == 'load': return self.load(st, self.asptr(V(ins['a'][0])), ty(ins['t']))
        if o == 'store':
            v = V(ins['a'][0]); self.store_(st, self.asptr(V(ins['a'][1])), ty(ins['ot']), v); return None
        if o == 'getelementptr':
            p = self.asptr(V(ins['b'])); off = bv(ins['off'], 64)
            for ix, sc, w in ins['ix']:
                i = V(ix)
                off = add(off, scale(sext(i, 64) if i.sort < 64 else i, sc))
            if off.op == 'bv' and off.p == 0: return p
            return P([(c, ob, add(f, off)) for c, ob, f in p.alts])
        if o == 'alloca':
            n = V(ins['n'])
            if n.op != 'bv': raise Unsup('vla')
            ob = self.new_obj(st, ins['sz'] * n.p, 'stack', ins['nm'] or 'local'); allocas.append(ob.id)
            return ptr(ob.id)
        if o == 'icmp':
            a, b = map(V, ins['a']); return self.vec(lambda x, y: self.icmp(ins['p'], x, y), a, b)
        if o == 'fcmp':
            a, b = map(V, ins['a']); return self.vec(lambda x, y: fcmp_pred(ins['p'], x, y), a, b)
        if o == 'select':
            c, a, b = map(V, ins['a'])
            if isinstance(c, tuple): return tuple(v_ite(x, y, z) for x, y, z in zip(c, a, b))
            return v_ite(c, a, b)
        if o in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'freeze', 'addrspacecast'):
            a = V(ins['a'][0]); t = ty(ins['t'])
            if o == 'freeze': return a
            if isinstance(a, tuple) and t[0] == 'agg' and o != 'bitcast':
                return tuple(self.cast(st, o, x, et) for x, (_, et) in zip(a, t[1]))
            return self.cast(st, o, a, t)
        if o == 'extractvalue':
            v = V(ins['a'][0])
            for i in ins['ix']: v = v[i]
            return v
        if o == 'insertvalue':
            a, v = map(V, ins['a'])
            def put(a, ix):
                if not ix: return v
                return a[:ix[0]] + (put(a[ix[0]], ix[1:]),) + a[ix[0] + 1:]
            return put(a, ins['ix'])
        if o == 'extractelement':
            a, i = map(V, ins['a']); return a[i.p]
        if o == 'insertelement':
            a, v, i = map(V, ins['a']); return a[:i.p] + (v,) + a[i.p + 1:]
        if o == 'shufflevector':
            a, b = map(V, ins['a']); c = a + b
            return tuple(c[m] if m >= 0 else c[0] for m in ins['m'])
        if o == 'landingpad': raise Unsup('landingpad')
        if o in ('fence',): return None
        if o == 'atomicrmw':
            p, v = map(V, ins['a']); t = ty(ins['t']); old = self.load(st, p, t); self.store_(st, p, t, add(old, v)); return old
        raise Unsup('instruction ' + o)
    def asptr(self, v):
        return v if isinstance(v, P) else itop(v)
    def cast(self, st, o, a, t):
        if o == 'zext':
            if a.sort == 'B': return ite(a, bv(1, t[1]), bv(0, t[1]))
            return zext(a, t[1])
        if o == 'sext':
            if a.sort == 'B': return ite(a, bv(-1, t[1]), bv(0, t[1]))
            return sext(a, t[1])
        if o == 'trunc':
            if t[1] == 1: return eq(extract(a, 0, 0), bv(1, 1))
            return extract(a, t[1] - 1, 0)
        if o == 'ptrtoint': return extract(ptoi(a), t[1] - 1, 0) if t[1] < 64 else ptoi(a)
        if o == 'inttoptr': return itop(a)
        if o == 'bitcast':
            if isinstance(a, tuple) or t[0] == 'agg': return self.bitcast_agg(a, t)
            return self.conv(a, t)
        if o == 'sitofp': return sitofp(ite(a, bv(-1, 8), bv(0, 8)) if a.sort == 'B' else a, t[1])
        if o == 'uitofp': return uitofp(ite(a, bv(1, 8), bv(0, 8)) if a.sort == 'B' else a, t[1])
        if o in ('fptosi', 'fptoui'):
            if self.opts.get('ovf', True):
                w = t[1]
                if o == 'fptosi': c = And(fcmp('flt', a, fnum(float(1 << (w - 1)), a.sort)), fcmp('fle', fnum(-float(1 << (w - 1)), a.sort), a) if w >= 53 else fcmp('flt', fnum(-float(1 << (w - 1)) - 1, a.sort), a))
                else: c = And(fcmp('flt', a, fnum(float(1 << w), a.sort)), fcmp('flt', fnum(-1.0, a.sort), a))
                self.oblige(st, c, 'float to integer conversion in range', 'ub')
            return fptosi(a, t[1]) if o == 'fptosi' else fptoui(a, t[1])
        if o == 'fpext':
            if t[0] == 'x87': raise Unsup('x87')
            return fpext(a)
        if o == 'fptrunc': return fptrunc(a)
        raise Unsup(o)
    def bitcast_agg(self, a, t):
        xs = a if isinstance(a, tuple) else (a,)
        whole = concat(*[self.to_int(x) for x in reversed(xs)])
        if t[0] != 'agg': return self.conv(whole, t)
        out = []; pos = 0
        for _, et in t[1]:
            n = 8 * tsize(et); out.append(self.conv(extract(whole, pos + n - 1, pos), et)); pos += n
        return tuple(out)
    def icmp(self, p, a, b):
        if isinstance(a, P) or isinstance(b, P):
            if not isinstance(a, P): a = itop(a)
            if not isinstance(b, P): b = itop(b)
            if p in ('eq', 'ne'):
                r = FALSE
                for c1, o1, f1 in a.alts:
                    for c2, o2, f2 in b.alts:
                        if o1 == o2: r = Or(r, And(c1, c2, eq(f1, f2)))
                return r if p == 'eq' else Not(r)
            a = ptoi2(a); b = ptoi2(b)
            if len(a) == 1 and len(b) == 1 and a[0][0] == b[0][0]: a, b = a[0][1], b[0][1]
            else: a = add(addr_of(a[0][0]), a[0][1]); b = add(addr_of(b[0][0]), b[0][1])
        if a.sort == 'B':
            if p == 'eq': return eq(a, b)
            if p == 'ne': return Not(eq(a, b))
            a = ite(a, bv(1, 1), bv(0, 1)); b = ite(b, bv(1, 1), bv(0, 1))
        if p == 'eq': return eq(a, b)
        if p == 'ne': return Not(eq(a, b))
        if p == 'ult': return ult(a, b)
        if p == 'ule': return ule(a, b)
        if p == 'ugt': return ult(b, a)
        if p == 'uge': return ule(b, a)
        if p == 'slt': return slt(a, b)
        if p == 'sle': return sle(a, b)
        if p == 'sgt': return slt(b, a)
        return sle(b, a)
    # ---- builtins
    def cstr(self, st, p):
        c, oid, off = p.alts[0]
        o = st.mem.get(oid) or self.base.get(oid)
        s = ''; k = off.p
        while True:
            b = self.byte(o, k)
            if b.op != 'bv': raise Unsup('non-constant string')
            if b.p == 0: return s
            s += chr(b.p); k += 1
    def name(self, n):
        k = self.names.get(n, 0); self.names[n] = k + 1
        return n if k == 0 else '%s#%d' % (n, k)
    def builtin(self, st, name, a, F):
        import builtins_ir
        return builtins_ir.dispatch(self, st, name, a, F)

def ptoi2(p): return [(o, f) for c, o, f in p.alts] if len(p.alts) == 1 else (_ for _ in ()).throw(Unsup('relational compare of guarded pointers'))
