"""Hash-consed term DAG used by irvc.  Sorts: 'B' (bool), int n (bit-vector of n bits),
'D'/'F' (binary64/binary32), 'A' (array BV64 -> BV8).  All rewriting here is equivalence
preserving for every interpretation used later (in particular no floating-point laws that
IEEE arithmetic does not satisfy)."""
import struct, math
from fractions import Fraction

class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'p', '_iv', '__weakref__')
    def __repr__(self):
        return show(self, 4)
    def __hash__(self):
        return self.id
    def __eq__(self, o):
        return self is o

_tab = {}
_n = [0]

_keep = None
def reset():
    """forget all terms except those created while the modules were loaded"""
    global _keep
    if _keep is None: _keep = dict(_tab)
    _tab.clear(); _tab.update(_keep)

def mk(op, args, sort, p=None):
    k = (op, tuple(a.id for a in args), sort, p)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op; t.args = tuple(args); t.sort = sort; t.p = p
        _n[0] += 1
        t.id = _n[0]
        t._iv = None
        _tab[k] = t
    return t

TRUE = mk('true', (), 'B'); FALSE = mk('false', (), 'B')

def show(t, d=6):
    if t.op == 'bv': return '#%d:%d' % (t.p, t.sort)
    if t.op == 'fc': return 'f%r' % fval(t)
    if t.op == 'var': return str(t.p)
    if not t.args: return t.op
    if d == 0: return '...'
    if t.op == 'lin':
        return '(lin %d + %s)' % (t.p[0], ' '.join('%d*%s' % (c, show(a, d-1)) for c, a in zip(t.p[1], t.args)))
    return '(%s%s %s)' % (t.op, '' if t.p is None else '[%s]' % (t.p,), ' '.join(show(a, d-1) for a in t.args))

def var(name, sort): return mk('var', (), sort, name)
def bv(v, w): return mk('bv', (), w, v & ((1 << w) - 1))
def is_c(t): return t.op == 'bv'
def sval(t):
    v = t.p
    return v - (1 << t.sort) if v >> (t.sort - 1) else v
def to_s(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v

# ---------------------------------------------------------------- booleans
def mk_bool(b): return TRUE if b else FALSE
def Not(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    return mk('not', (a,), 'B')
def And(*xs):
    out = []; seen = set()
    for x in xs:
        st = [x]
        while st:
            y = st.pop()
            if y is TRUE: continue
            if y is FALSE: return FALSE
            if y.op == 'and': st.extend(reversed(y.args)); continue
            if y.id in seen: continue
            seen.add(y.id); out.append(y)
    for y in out:
        if y.op == 'not' and y.args[0].id in seen: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk('and', sorted(out, key=lambda t: t.id), 'B')
def Or(*xs):
    out = []; seen = set()
    for x in xs:
        st = [x]
        while st:
            y = st.pop()
            if y is FALSE: continue
            if y is TRUE: return TRUE
            if y.op == 'or': st.extend(reversed(y.args)); continue
            if y.id in seen: continue
            seen.add(y.id); out.append(y)
    for y in out:
        if y.op == 'not' and y.args[0].id in seen: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return mk('or', sorted(out, key=lambda t: t.id), 'B')
def Xor(a, b): return ite(a, Not(b), b)
def Implies(a, b): return Or(Not(a), b)

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not': return ite(c.args[0], b, a)
    if a.sort == 'B':
        if a is TRUE: return Or(c, b)
        if a is FALSE: return And(Not(c), b)
        if b is TRUE: return Or(Not(c), a)
        if b is FALSE: return And(c, a)
        if a is Not(b): 
            return mk('ite', (c, a, b), 'B') if a.op != 'not' else mk('ite', (Not(c), b, a), 'B') if False else mk('ite', (c, a, b), 'B')
        return mk('ite', (c, a, b), 'B')
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    if (a.op == 'concat' or b.op == 'concat') and a.op in ('concat', 'bv') and b.op in ('concat', 'bv') and isinstance(a.sort, int) and a.sort <= 64:
        ps = _bits_parts(a, b)
        if len(ps) > 1 and sum(x is y for x, y in ps): return concat(*[ite(c, x, y) for x, y in ps])
    if a.op == 'bv' and b.op == 'bv' and c.op == 'eq' and c.args[0].sort == 1 and c.args[1].op == 'bv':
        M = (1 << a.sort) - 1
        k = c.args[0] if c.args[1].p else bnot(c.args[0])
        if a.p == M and b.p == 0: return sext(k, a.sort)
        if a.p == 0 and b.p == M: return sext(bnot(k), a.sort)
        if a.p == 1 and b.p == 0: return zext(k, a.sort)
    if a.op == 'ite' and a.args[2] is b: return ite(And(c, a.args[0]), a.args[1], b)
    if b.op == 'ite' and b.args[1] is a: return ite(Or(c, b.args[0]), a, b.args[2])
    return mk('ite', (c, a, b), a.sort)

# ---------------------------------------------------------------- bit-vectors
def _lin(t):
    """-> (const, [(coef, term)])"""
    if t.op == 'bv': return t.p, ()
    if t.op == 'lin': return t.p[0], tuple(zip(t.p[1], t.args))
    return 0, ((1, t),)
def _mklin(c, d, w):
    M = (1 << w) - 1
    c &= M
    items = [(k & M, t) for t, k in d.items() if k & M]
    if not items: return bv(c, w)
    if c == 0 and len(items) == 1 and items[0][0] == 1: return items[0][1]
    items.sort(key=lambda x: x[1].id)
    return mk('lin', [t for _, t in items], w, (c, tuple(k for k, _ in items)))
def add(a, b):
    w = a.sort
    if a.op == 'bv' and b.op == 'bv': return bv(a.p + b.p, w)
    if b.op == 'bv' and b.p == 0: return a
    if a.op == 'bv' and a.p == 0: return b
    # push constants into ite of constants
    c1, l1 = _lin(a); c2, l2 = _lin(b)
    d = {}
    for k, t in l1: d[t] = d.get(t, 0) + k
    for k, t in l2: d[t] = d.get(t, 0) + k
    return _mklin(c1 + c2, d, w)
def scale(a, k):
    w = a.sort
    c, l = _lin(a)
    return _mklin(c * k, {t: q * k for q, t in l}, w)
def neg(a): return scale(a, -1)
def sub(a, b):
    if a.op == 'bv' and a.p == 0 and b.op == 'concat' and len(b.args) == 2 and b.args[0].op == 'bv' and b.args[0].p == 0 and b.args[1].sort == 1: return sext(b.args[1], b.sort)
    return add(a, neg(b))
def mul(a, b):
    if a.op == 'bv': return scale(b, a.p)
    if b.op == 'bv': return scale(a, b.p)
    if a.id > b.id: a, b = b, a
    return mk('mul', (a, b), a.sort)
def _divlike(op, a, b, f):
    w = a.sort
    if a.op == 'bv' and b.op == 'bv' and b.p != 0: return bv(f(a, b), w)
    return mk(op, (a, b), w)
def udiv(a, b):
    if b.op == 'bv' and b.p == 1: return a
    if b.op == 'bv' and b.p & (b.p - 1) == 0 and b.p: return lshr(a, bv(b.p.bit_length() - 1, a.sort))
    return _divlike('udiv', a, b, lambda x, y: x.p // y.p)
def urem(a, b):
    if b.op == 'bv' and b.p & (b.p - 1) == 0 and b.p: return band(a, bv(b.p - 1, a.sort))
    return _divlike('urem', a, b, lambda x, y: x.p % y.p)
def _tdiv(x, y):
    q = abs(x) // abs(y)
    return -q if (x < 0) != (y < 0) else q
def _lin_exact(t):
    """coefficients of a sum known not to wrap, else None"""
    if t.op != 'lin': return None
    w = t.sort; H = 1 << (w - 1)
    lo = hi = to_s(t.p[0], w)
    for k, a in zip(t.p[1], t.args):
        k = to_s(k, w); l, h = srange(a)
        if k >= 0: lo += k * l; hi += k * h
        else: lo += k * h; hi += k * l
    if lo < -H or hi >= H: return None
    return to_s(t.p[0], w), [(to_s(k, w), a) for k, a in zip(t.p[1], t.args)]
def _divisible(a, b):
    if b.op != 'bv': return None
    k = sval(b)
    if k < 2: return None
    q = _lin_exact(a)
    if q is None or q[0] % k or any(c % k for c, _ in q[1]): return None
    return _mklin(q[0] // k, {t: c // k for c, t in q[1]}, a.sort)
def sdiv(a, b):
    if b.op == 'bv' and b.p == 1: return a
    q = _divisible(a, b)
    if q is not None: return q
    return _divlike('sdiv', a, b, lambda x, y: _tdiv(sval(x), sval(y)))
def srem(a, b):
    if _divisible(a, b) is not None: return bv(0, a.sort)
    return _divlike('srem', a, b, lambda x, y: sval(x) - sval(y) * _tdiv(sval(x), sval(y)))

def extract(t, hi, lo):
    w = t.sort
    if lo == 0 and hi == w - 1: return t
    n = hi - lo + 1
    if t.op == 'bv': return bv(t.p >> lo, n)
    if t.op == 'extract': return extract(t.args[0], t.p[1] + hi, t.p[1] + lo)
    if t.op == 'concat':
        # args high..low
        pos = w
        parts = []
        for a in t.args:
            top = pos - 1; bot = pos - a.sort
            l = max(bot, lo); h = min(top, hi)
            if l <= h: parts.append(extract(a, h - bot, l - bot))
            pos = bot
        return concat(*parts)
    if t.op == 'sext':
        iw = t.args[0].sort
        if hi < iw: return extract(t.args[0], hi, lo)
        if lo < iw: return sext(extract(t.args[0], iw - 1, lo), n) if n > iw - lo else extract(t.args[0], hi, lo)
        return sext(extract(t.args[0], iw - 1, iw - 1), n)
    if t.op == 'ite':
        a, b = t.args[1], t.args[2]
        if a.op in ('bv', 'concat') or b.op in ('bv', 'concat'):
            return ite(t.args[0], extract(a, hi, lo), extract(b, hi, lo))
    if t.op in ('bxor', 'band', 'bor'):
        xs = [extract(a, hi, lo) for a in t.args]
        return {'bxor': bxor, 'band': band, 'bor': bor}[t.op](*xs)
    if t.op == 'lin' and lo == 0:
        # low bits of a linear sum
        M = (1 << n) - 1
        d = {}
        for k, a in zip(t.p[1], t.args):
            e = extract(a, hi, 0)
            if e.op == 'lin':
                pass
            d[e] = d.get(e, 0) + k
        c = t.p[0]
        d2 = {}
        for e, k in d.items():
            ce, le = _lin(e)
            c += k * ce
            for q, x in le: d2[x] = d2.get(x, 0) + k * q
        return _mklin(c, d2, n)
    return mk('extract', (t,), n, (hi, lo))

def concat(*ps):
    out = []
    for q in ps:
        for t in (q.args if q.op == 'concat' else (q,)):
            if out:
                l = out[-1]
                if l.op == 'bv' and t.op == 'bv':
                    out[-1] = bv((l.p << t.sort) | t.p, l.sort + t.sort); continue
                if l.op == 'extract' and t.op == 'extract' and l.args[0] is t.args[0] and l.p[1] == t.p[0] + 1:
                    out[-1] = extract(t.args[0], l.p[0], t.p[1]); continue
                if l.op == 'extract' and l.args[0] is t and l.p[1] == t.sort:
                    pass
            out.append(t)
    if len(out) == 1: return out[0]
    if out[0].op == 'sext' and len(out) > 1:
        # copies of the sign bit of what follows
        b = out[0].args[0]; r = out[1]
        if b.sort == 1 and (r is b or (b.op == 'extract' and r.op == 'extract' and r.args[0] is b.args[0] and r.p[0] == b.p[0]) or (b.op == 'extract' and b.args[0] is r and b.p[0] == r.sort - 1)):
            return sext(concat(*out[1:]), sum(t.sort for t in out))
    return mk('concat', out, sum(t.sort for t in out))

def zext(t, w):
    if t.sort == w: return t
    return concat(bv(0, w - t.sort), t)
def sext(t, w):
    if t.sort == w: return t
    if t.op == 'bv': return bv(sval(t), w)
    if t.op == 'concat' and t.args[0].op == 'bv' and t.args[0].p >> (t.args[0].sort - 1) == 0: return zext(t, w)
    if t.op == 'sext': return sext(t.args[0], w)
    if t.op == 'ite' and is_c(t.args[1]) and is_c(t.args[2]): return ite(t.args[0], sext(t.args[1], w), sext(t.args[2], w))
    return mk('sext', (t,), w)

def shl(a, b):
    w = a.sort
    if b.op == 'bv':
        k = b.p
        if k >= w: return bv(0, w)
        if k == 0: return a
        if a.op == 'bv': return bv(a.p << k, w)
        if a.op == 'lin' or a.op == 'var' or a.op == 'mul' or a.op == 'sext':
            return scale(a, 1 << k)
        return concat(extract(a, w - 1 - k, 0), bv(0, k))
    return mk('shl', (a, b), w)
def lshr(a, b):
    w = a.sort
    if b.op == 'bv':
        k = b.p
        if k >= w: return bv(0, w)
        if k == 0: return a
        return zext(extract(a, w - 1, k), w)
    return mk('lshr', (a, b), w)
def ashr(a, b):
    w = a.sort
    if b.op == 'bv':
        k = min(b.p, w - 1)
        if k == 0: return a
        if a.op == 'bv': return bv(sval(a) >> k, w)
        return sext(extract(a, w - 1, k), w)
    return mk('ashr', (a, b), w)

def _bits_parts(a, b):
    """split two equal-width terms on the union of their concat boundaries"""
    pa = list(a.args) if a.op == 'concat' else [a]
    pb = list(b.args) if b.op == 'concat' else [b]
    cuts = set()
    for ps in (pa, pb):
        x = 0
        for t in reversed(ps):
            x += t.sort; cuts.add(x)
    lo = 0; out = []
    for c in sorted(cuts):
        out.append((extract(a, c - 1, lo), extract(b, c - 1, lo))); lo = c
    out.reverse()
    return out
def _cruns(v, w):
    """constant -> list of (width, value) runs of equal bits, high to low"""
    runs = []; i = w - 1
    while i >= 0:
        bit = (v >> i) & 1; j = i
        while j >= 0 and ((v >> j) & 1) == bit: j -= 1
        runs.append((i - j, bit)); i = j
    return runs
def _bitop(op, a, b):
    w = a.sort
    if a.op == 'bv': a, b = b, a
    if b.op == 'bv':
        v = b.p; M = (1 << w) - 1
        if a.op == 'bv':
            return bv({'band': a.p & v, 'bor': a.p | v, 'bxor': a.p ^ v}[op], w)
        if op == 'band':
            if v == 0: return b
            if v == M: return a
        elif op == 'bor':
            if v == 0: return a
            if v == M: return b
        elif v == 0: return a
        runs = _cruns(v, w)
        if len(runs) > 1 and len(runs) <= 24:
            hi = w; parts = []
            for n, bit in runs:
                e = extract(a, hi - 1, hi - n); hi -= n
                parts.append(_bitop(op, e, bv(((1 << n) - 1) if bit else 0, n)))
            return concat(*parts)
        if op == 'bxor' and v == M: return bnot(a)
        return mk(op, (a, b) if a.id < b.id else (b, a), w)
    if a is b: return bv(0, w) if op == 'bxor' else a
    if a.op == 'concat' or b.op == 'concat':
        ps = _bits_parts(a, b)
        if len(ps) > 1: return concat(*[_bitop(op, x, y) for x, y in ps])
    # flatten n-ary
    xs = []
    for t in (a, b):
        xs.extend(t.args if t.op == op else (t,))
    if op == 'bxor':
        cnt = {}
        c = 0
        for t in xs:
            if t.op == 'bv': c ^= t.p
            elif t.op == 'bnot':
                c ^= (1 << w) - 1; cnt[t.args[0]] = cnt.get(t.args[0], 0) ^ 1
            else: cnt[t] = cnt.get(t, 0) ^ 1
        ys = sorted([t for t, k in cnt.items() if k], key=lambda t: t.id)
        if not ys: return bv(c, w)
        if c == (1 << w) - 1:
            return bnot(ys[0]) if len(ys) == 1 else mk('bnot', (mk(op, ys, w),), w)
        if c: ys.append(bv(c, w))
        if len(ys) == 1: return ys[0]
        return mk(op, ys, w)
    ys = sorted(set(xs), key=lambda t: t.id)
    if len(ys) == 1: return ys[0]
    return mk(op, ys, w)
def band(a, b, *r):
    x = _bitop('band', a, b)
    for y in r: x = _bitop('band', x, y)
    return x
def bor(a, b, *r):
    x = _bitop('bor', a, b)
    for y in r: x = _bitop('bor', x, y)
    return x
def bxor(a, b, *r):
    x = _bitop('bxor', a, b)
    for y in r: x = _bitop('bxor', x, y)
    return x
def bnot(a):
    if a.op == 'bv': return bv(~a.p, a.sort)
    if a.op == 'bnot': return a.args[0]
    if a.op == 'concat': return concat(*[bnot(x) for x in a.args])
    return mk('bnot', (a,), a.sort)

# intervals -----------------------------------------------------------------
RANGES = {}    # var name -> (lo, hi) signed interpretation, recorded from assumptions
def urange(t):
    """sound unsigned range"""
    lo, hi = _ur(t)
    return lo, hi
_urc = {}
def _ur(t):
    w = t.sort
    if t.op == 'bv': return t.p, t.p
    if t._iv is not None: return t._iv
    M = (1 << w) - 1
    r = (0, M)
    if t.op == 'var' and t.p in RANGES:
        l, h = RANGES[t.p]
        if l >= 0: r = (l, h)
    elif t.op == 'concat':
        lo = hi = 0
        for a in t.args:
            l, h = _ur(a)
            lo = (lo << a.sort) | l; hi = (hi << a.sort) | h
            # (componentwise bound is sound: lexicographic)
        r = (lo, hi)
    elif t.op == 'ite':
        a = _ur(t.args[1]); b = _ur(t.args[2])
        r = (min(a[0], b[0]), max(a[1], b[1]))
    elif t.op == 'urem' and t.args[1].op == 'bv' and t.args[1].p:
        r = (0, t.args[1].p - 1)
    elif t.op == 'udiv' and t.args[1].op == 'bv' and t.args[1].p:
        a = _ur(t.args[0]); r = (a[0] // t.args[1].p, a[1] // t.args[1].p)
    elif t.op == 'lin':
        # try as signed-small sum without wrap
        lo = hi = to_s(t.p[0], w)
        for k, a in zip(t.p[1], t.args):
            k = to_s(k, w); l, h = _ur(a)
            if k >= 0: lo += k * l; hi += k * h
            else: lo += k * h; hi += k * l
        if lo >= 0 and hi <= M: r = (lo, hi)
    elif t.op == 'band':
        r = (0, min(_ur(a)[1] for a in t.args))
    elif t.op == 'lshr':
        r = (0, _ur(t.args[0])[1])
    elif t.op == 'extract' and t.p[1] == 0:
        a = _ur(t.args[0])
        if a[1] <= M: r = a
    t._iv = r
    return r
def srange(t):
    w = t.sort; H = 1 << (w - 1)
    if t.op == 'bv': v = sval(t); return v, v
    if t.op == 'sext': return srange(t.args[0])
    if t.op == 'var' and t.p in RANGES: return RANGES[t.p]
    if t.op == 'ite':
        a = srange(t.args[1]); b = srange(t.args[2])
        return min(a[0], b[0]), max(a[1], b[1])
    if t.op == 'lin':
        lo = hi = to_s(t.p[0], w)
        for k, a in zip(t.p[1], t.args):
            k = to_s(k, w); l, h = srange(a)
            if k >= 0: lo += k * l; hi += k * h
            else: lo += k * h; hi += k * l
        if lo >= -H and hi < H: return lo, hi
        return -H, H - 1
    if t.op == 'srem' and t.args[1].op == 'bv' and sval(t.args[1]) > 0:
        k = sval(t.args[1]); l, h = srange(t.args[0])
        return max(l, -(k - 1)) if l < 0 else 0, min(h, k - 1) if h > 0 else 0
    if t.op == 'sdiv' and t.args[1].op == 'bv' and sval(t.args[1]) > 0:
        k = sval(t.args[1]); l, h = srange(t.args[0])
        return -(-l // k) if l < 0 else l // k, -(-h // k) if h < 0 else h // k
    l, h = _ur(t)
    if h < H: return l, h
    if l >= H: return l - 2 * H, h - 2 * H
    return -H, H - 1

def eq(a, b):
    if a is b: return TRUE
    if a.sort == 'B':
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return Not(b)
        if b is FALSE: return Not(a)
        if a.id > b.id: a, b = b, a
        return mk('iff', (a, b), 'B')
    if isinstance(a.sort, int):
        if a.op == 'bv' and b.op == 'bv': return mk_bool(a.p == b.p)
        if a.op == 'bv': a, b = b, a
        if b.op == 'bv':
            if a.op == 'ite' and (is_c(a.args[1]) or is_c(a.args[2])):
                return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
            if a.op == 'concat':
                pos = a.sort; cs = []
                for x in a.args:
                    cs.append(eq(x, bv(b.p >> (pos - x.sort), x.sort))); pos -= x.sort
                return And(*cs)
            if a.op == 'lin' and a.p[0] != 0:
                # move constant
                c = a.p[0]
                return eq(_mklin(0, dict(zip(a.args, a.p[1])), a.sort), bv(b.p - c, a.sort))
            if a.op == 'sext':
                v = sval(b); iw = a.args[0].sort
                if -(1 << (iw - 1)) <= v < (1 << (iw - 1)): return eq(a.args[0], bv(v, iw))
                return FALSE
            l, h = urange(a)
            if not (l <= b.p <= h): return FALSE
            if a.op == 'bnot': return eq(a.args[0], bv(~b.p, a.sort))
        else:
            if a.op == 'concat' and b.op == 'concat':
                ps = _bits_parts(a, b)
                if len(ps) > 1: return And(*[eq(x, y) for x, y in ps])
            if a.op == 'lin' or b.op == 'lin':
                d = sub(a, b)
                if d.op == 'bv': return mk_bool(d.p == 0)
    if a.op == 'fc' and b.op == 'fc': return mk_bool(a.p == b.p)
    if a.id > b.id: a, b = b, a
    return mk('eq', (a, b), 'B')
def ult(a, b):
    if a is b: return FALSE
    if a.op == 'bv' and b.op == 'bv': return mk_bool(a.p < b.p)
    la, ha = urange(a); lb, hb = urange(b)
    if ha < lb: return TRUE
    if la >= hb: return FALSE
    if a.op == 'ite' and is_c(b) and (is_c(a.args[1]) or is_c(a.args[2])):
        return ite(a.args[0], ult(a.args[1], b), ult(a.args[2], b))
    if b.op == 'ite' and is_c(a) and (is_c(b.args[1]) or is_c(b.args[2])):
        return ite(b.args[0], ult(a, b.args[1]), ult(a, b.args[2]))
    if b.op == 'bv' and b.p == 1: return eq(a, bv(0, a.sort))
    if a.op == 'concat' and a.args[0].op == 'bv' and a.args[0].p == 0:
        n = a.sort - a.args[0].sort
        if b.op == 'bv' and b.p < (1 << n): return ult(extract(a, n - 1, 0), bv(b.p, n))
        if b.op == 'concat' and b.args[0].op == 'bv' and b.args[0].p == 0:
            m = max(n, b.sort - b.args[0].sort)
            return ult(extract(a, m - 1, 0), extract(b, m - 1, 0))
    if b.op == 'concat' and b.args[0].op == 'bv' and b.args[0].p == 0 and a.op == 'bv':
        n = b.sort - b.args[0].sort
        if a.p < (1 << n): return ult(bv(a.p, n), extract(b, n - 1, 0))
    return mk('ult', (a, b), 'B')
def ule(a, b): return Not(ult(b, a))
def slt(a, b):
    if a is b: return FALSE
    if a.op == 'bv' and b.op == 'bv': return mk_bool(sval(a) < sval(b))
    la, ha = srange(a); lb, hb = srange(b)
    if ha < lb: return TRUE
    if la >= hb: return FALSE
    if a.op == 'ite' and is_c(b) and (is_c(a.args[1]) or is_c(a.args[2])):
        return ite(a.args[0], slt(a.args[1], b), slt(a.args[2], b))
    if b.op == 'ite' and is_c(a) and (is_c(b.args[1]) or is_c(b.args[2])):
        return ite(b.args[0], slt(a, b.args[1]), slt(a, b.args[2]))
    if la >= 0 and lb >= 0: return ult(a, b)
    if a.op == 'sext' and b.op == 'sext' and a.args[0].sort == b.args[0].sort: return slt(a.args[0], b.args[0])
    if a.op == 'sext' and b.op == 'bv':
        iw = a.args[0].sort
        return slt(a.args[0], bv(sval(b), iw))     # in range, otherwise decided above
    if b.op == 'sext' and a.op == 'bv':
        iw = b.args[0].sort
        return slt(bv(sval(a), iw), b.args[0])
    if b.op == 'bv' and b.p == 0:
        return eq(extract(a, a.sort - 1, a.sort - 1), bv(1, 1)) if a.op in ('concat', 'extract', 'bxor') else mk('slt', (a, b), 'B')
    return mk('slt', (a, b), 'B')
def sle(a, b): return Not(slt(b, a))

# ---------------------------------------------------------------- floats
def fbits_of(x, s): return struct.unpack('<Q' if s == 'D' else '<I', struct.pack('<d' if s == 'D' else '<f', x))[0]
def fc(bits, s): return mk('fc', (), s, bits)
def fnum(x, s='D'): return fc(fbits_of(x, s), s)
def fval(t):
    return struct.unpack('<d' if t.sort == 'D' else '<f', struct.pack('<Q' if t.sort == 'D' else '<I', t.p))[0]
def _rnd(x, s):
    if s == 'F':
        try: return fnum(x, 'F')
        except OverflowError: return fnum(math.copysign(math.inf, x), 'F')
    return fnum(x, 'D')
def _fin(*ts): return all(math.isfinite(fval(t)) for t in ts)
def _exact_int(t):
    """a 64-bit integer term equal to the double t (not -0), or None"""
    if t.op == 'sitofp':
        x = sext(t.args[0], 64) if t.args[0].sort <= 64 else None
        if x is None: return None
        l, h = srange(x)
        return x if max(abs(l), abs(h)) <= 2**53 else None
    if t.op == 'fc' and t.sort == 'D':
        v = fval(t)
        if math.isfinite(v) and v == int(v) and abs(v) <= 2**53 and not (v == 0 and t.p): return bv(int(v), 64)
    return None
REAL = False   # contract option real=1: neutral elements are simplified as for real numbers
def fop(op, *a):
    s = a[0].sort
    if REAL and op in ('fadd', 'fmul', 'fsub'):
        z = [x.op == 'fc' and _fin(x) and fval(x) == 0 for x in a]
        if op == 'fmul' and (z[0] or z[1]): return fnum(0.0, s)
        if z[1]: return a[0]
        if z[0] and op == 'fadd': return a[1]
        if op == 'fmul':
            for i in (0, 1):
                if a[i].op == 'fc' and _fin(a[i]) and fval(a[i]) == 1: return a[1 - i]
    if all(x.op == 'fc' for x in a) and _fin(*a):
        v = [fval(x) for x in a]
        try:
            if op == 'fadd': return _rnd(v[0] + v[1], s)
            if op == 'fsub': return _rnd(v[0] - v[1], s)
            if op == 'fmul': return _rnd(v[0] * v[1], s)
            if op == 'fdiv' and v[1] != 0: return _rnd(v[0] / v[1], s)
            if op == 'fneg': return _rnd(-v[0], s)
            if op == 'fabs': return _rnd(abs(v[0]), s)
            if op == 'fsqrt' and v[0] >= 0 and s == 'D': return _rnd(math.sqrt(v[0]), s)
            if op == 'ffloor': return _rnd(float(math.floor(v[0])), s)
            if op == 'fceil': return _rnd(float(math.ceil(v[0])), s)
        except (OverflowError, ValueError): pass
    if op in ('fmul', 'fadd', 'fsub') and s == 'D':
        x, y = _exact_int(a[0]), _exact_int(a[1])
        if x is not None and y is not None:
            # integers below 2^53: the operation is exact (a zero result is +0 in all these cases)
            (l1, h1), (l2, h2) = srange(x), srange(y)
            if op == 'fmul':
                if a[0].op == 'fc': x, y, l1, h1, l2, h2 = y, x, l2, h2, l1, h1
                if y.op == 'bv' and l2 > 0 and max(abs(l1), abs(h1)) * h2 < 2**53: return sitofp(scale(x, y.p), s)
            else:
                l, h = (l1 + l2, h1 + h2) if op == 'fadd' else (l1 - h2, h1 - l2)
                if max(abs(l), abs(h)) < 2**53: return sitofp(add(x, y) if op == 'fadd' else sub(x, y), s)
    if op == 'fneg' and a[0].op == 'fneg': return a[0].args[0]
    if op in ('fadd', 'fmul') and a[0].id > a[1].id: a = (a[1], a[0])
    return mk(op, a, s)
def fun(name, s, *a): return mk('fun', a, s, name)
def fcmp(op, a, b):
    """op in feq flt fle (ordered); funo"""
    if a.op == 'fc' and b.op == 'fc':
        x, y = fval(a), fval(b)
        return mk_bool({'feq': x == y, 'flt': x < y, 'fle': x <= y, 'funo': x != x or y != y}[op])
    if a.sort == 'D' and (a.op == 'sitofp' or b.op == 'sitofp'):
        x, y = _exact_int(a), _exact_int(b)
        if x is not None and y is not None:
            return {'feq': lambda: eq(x, y), 'flt': lambda: slt(x, y), 'fle': lambda: sle(x, y), 'funo': lambda: FALSE}[op]()
    if op == 'funo':
        if a.op == 'fc': a, b = b, a
        if b.op == 'fc' and fval(b) == fval(b): return mk('fisnan', (a,), 'B')
        if a is b: return mk('fisnan', (a,), 'B')
    if op in ('feq', 'funo') and a.id > b.id: a, b = b, a
    return mk(op, (a, b), 'B')
def fcmp_pred(p, a, b):
    if p == 'true': return TRUE
    if p == 'false': return FALSE
    uno = fcmp('funo', a, b)
    base = {'oeq': lambda: fcmp('feq', a, b), 'olt': lambda: fcmp('flt', a, b), 'ole': lambda: fcmp('fle', a, b),
            'ogt': lambda: fcmp('flt', b, a), 'oge': lambda: fcmp('fle', b, a),
            'ord': lambda: Not(uno), 'uno': lambda: uno,
            'une': lambda: Not(fcmp('feq', a, b)), 'ult': lambda: Not(fcmp('fle', b, a)), 'ule': lambda: Not(fcmp('flt', b, a)),
            'ugt': lambda: Not(fcmp('fle', a, b)), 'uge': lambda: Not(fcmp('flt', a, b)),
            'one': lambda: Or(fcmp('flt', a, b), fcmp('flt', b, a)),
            'ueq': lambda: Or(uno, fcmp('feq', a, b))}
    return base[p]()
def fbits(t):
    """float -> bit pattern"""
    if t.op == 'fc': return bv(t.p, 64 if t.sort == 'D' else 32)
    if t.op == 'ffrom': return t.args[0]
    if t.op == 'ite' : return ite(t.args[0], fbits(t.args[1]), fbits(t.args[2]))
    return mk('fbits', (t,), 64 if t.sort == 'D' else 32)
def ffrom(t):
    s = 'D' if t.sort == 64 else 'F'
    if t.op == 'bv': return fc(t.p, s)
    if t.op == 'fbits': return t.args[0]
    if t.op == 'ite': return ite(t.args[0], ffrom(t.args[1]), ffrom(t.args[2]))
    return mk('ffrom', (t,), s)
def sitofp(t, s):
    if t.op == 'bv' and abs(sval(t)) < 2**53 and s == 'D': return fnum(float(sval(t)), s)
    if t.op == 'bv' and abs(sval(t)) < 2**24: return fnum(float(sval(t)), s)
    if t.op == 'ite' and (is_c(t.args[1]) or is_c(t.args[2])): return ite(t.args[0], sitofp(t.args[1], s), sitofp(t.args[2], s))
    if t.op == 'sext': return sitofp(t.args[0], s)
    if t.op == 'concat' and t.args[0].op == 'bv' and t.args[0].p == 0 and t.args[0].sort > 1: t = concat(bv(0, 1), *t.args[1:])
    return mk('sitofp', (t,), s)
def uitofp(t, s):
    if t.op == 'bv' and t.p < 2**53 and s == 'D': return fnum(float(t.p), s)
    if t.op == 'bv' and t.p < 2**24: return fnum(float(t.p), s)
    if isinstance(t.sort, int) and urange(t)[1] < (1 << (t.sort - 1)): return sitofp(t, s)
    if t.sort < 64: return sitofp(zext(t, t.sort + 1), s)
    return mk('uitofp', (t,), s)
def fptosi(t, w):
    if t.op == 'fc' and math.isfinite(fval(t)) and abs(int(fval(t))) < 1 << (w - 1): return bv(int(fval(t)), w)
    if t.op == 'sitofp' and t.sort == 'D' and t.args[0].sort <= 64:
        x = _exact_int(t)
        if x is not None:
            l, h = srange(x)
            if -(1 << (w - 1)) <= l and h < (1 << (w - 1)): return extract(x, w - 1, 0) if w <= 64 else sext(x, w)
    return mk('fptosi', (t,), w)
def fptoui(t, w):
    if t.op == 'fc' and math.isfinite(fval(t)) and 0 <= int(fval(t)) < 1 << w: return bv(int(fval(t)), w)
    if t.op == 'sitofp' and t.sort == 'D' and t.args[0].sort <= 64:
        x = _exact_int(t)
        if x is not None:
            l, h = srange(x)
            if 0 <= l and h < (1 << w): return extract(x, w - 1, 0) if w <= 64 else zext(x, w)
    return mk('fptoui', (t,), w)
def fpext(t):
    if t.op == 'fc': return fnum(fval(t), 'D')
    return mk('fpext', (t,), 'D')
def fptrunc(t):
    if t.op == 'fc' and math.isfinite(fval(t)): return _rnd(fval(t), 'F')
    if t.op == 'fpext': return t.args[0]
    return mk('fptrunc', (t,), 'F')

# ---------------------------------------------------------------- arrays
def avar(name): return mk('var', (), 'A', name)
def aconst(b): return mk('aconst', (b,), 'A')
def _neq_sure(i, j):
    d = sub(i, j)
    if d.op == 'bv': return d.p != 0
    l, h = urange(i); l2, h2 = urange(j)
    return h < l2 or h2 < l
def select(a, i):
    while True:
        if a.op == 'store':
            j = a.args[1]
            if i is j: return a.args[2]
            if _neq_sure(i, j): a = a.args[0]; continue
            if i.op == 'bv' and j.op != 'bv' or True:
                break
        break
    if a.op == 'aconst': return a.args[0]
    if a.op == 'ite':
        x = select(a.args[1], i); y = select(a.args[2], i)
        return ite(a.args[0], x, y)
    return mk('select', (a, i), 8)
def store(a, i, v):
    if a.op == 'store' and a.args[1] is i: a = a.args[0]
    return mk('store', (a, i, v), 'A')

# ---------------------------------------------------------------- traversal
def postorder(roots):
    out = []; seen = set()
    st = [(r, 0) for r in reversed(roots)]
    while st:
        t, f = st.pop()
        if f: out.append(t); continue
        if t.id in seen: continue
        seen.add(t.id)
        st.append((t, 1))
        for a in reversed(t.args):
            if a.id not in seen: st.append((a, 0))
    return out
def variables(roots):
    return [t for t in postorder(roots) if t.op == 'var']

def rebuild(t, args):
    """same node with new args, through the simplifying constructors"""
    o = t.op
    if o in ('var', 'bv', 'fc', 'true', 'false'): return t
    if o == 'not': return Not(args[0])
    if o == 'and': return And(*args)
    if o == 'or': return Or(*args)
    if o == 'ite': return ite(*args)
    if o in ('eq', 'iff'): return eq(*args)
    if o == 'lin':
        r = bv(t.p[0], t.sort)
        for k, a in zip(t.p[1], args): r = add(r, scale(a, k))
        return r
    if o == 'extract': return extract(args[0], *t.p)
    if o == 'concat': return concat(*args)
    if o == 'sext': return sext(args[0], t.sort)
    if o in ('band', 'bor', 'bxor'):
        r = args[0]
        for x in args[1:]: r = _bitop(o, r, x)
        return r
    if o in ('mul', 'udiv', 'urem', 'sdiv', 'srem', 'shl', 'lshr', 'ashr', 'bnot', 'ult', 'slt', 'select', 'store', 'fbits', 'ffrom', 'fpext', 'fptrunc', 'aconst'):
        return globals()[o](*args)
    if o in ('sitofp', 'uitofp'): return globals()[o](args[0], t.sort)
    if o in ('fptosi', 'fptoui'): return globals()[o](args[0], t.sort)
    if o in ('feq', 'flt', 'fle', 'funo'): return fcmp(o, *args)
    if o in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fabs', 'fsqrt', 'ffloor', 'fceil', 'fround', 'ftrunc'): return fop(o, *args)
    return mk(o, args, t.sort, t.p)
def substitute(roots, m):
    """m: dict term->term"""
    c = dict(m)
    for t in postorder(roots):
        if t in c: continue
        na = tuple(c[a] for a in t.args)
        c[t] = t if na == t.args else rebuild(t, na)
    return [c[r] for r in roots]
