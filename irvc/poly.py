"""Decision back end for real-valued obligations: ring normalisation of rational functions over
atoms (inputs, sqrt, sin, cos, ...) modulo side relations.  Floating-point arithmetic is read as exact
real arithmetic (recorded as an assumption in the evidence)."""
from fractions import Fraction
from terms import *
from smt import nice_rational
import time

class TooBig(Exception): pass
class NotPoly(Exception): pass
LIMIT = 400000

# polynomial: dict monomial -> Fraction ; monomial: tuple of (atom, exp) sorted by atom
def pconst(c): return {(): Fraction(c)} if c else {}
def padd(a, b):
    if len(a) < len(b): a, b = b, a
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + c
        if x: r[m] = x
        else: r.pop(m, None)
    return r
def pneg(a): return {m: -c for m, c in a.items()}
def pscale(a, k): return {m: c * k for m, c in a.items()} if k else {}
def mmul(a, b):
    if not a: return b
    if not b: return a
    r = []; i = j = 0
    while i < len(a) and j < len(b):
        if a[i][0] < b[j][0]: r.append(a[i]); i += 1
        elif a[i][0] > b[j][0]: r.append(b[j]); j += 1
        else: r.append((a[i][0], a[i][1] + b[j][1])); i += 1; j += 1
    r.extend(a[i:]); r.extend(b[j:])
    return tuple(r)
def pmul(a, b):
    if len(a) * len(b) > LIMIT * 4: raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c}
def pkey(p): return tuple(sorted(p.items()))

def close(p, q):
    return all(m in q and abs(c - q[m]) <= COEF_TOL * abs(c) for m, c in p.items())

class Ctx:
    """normalisation context: atom table, rewrite rules, assumptions (conditions fixed to a truth value)"""
    def __init__(self, deadline=None):
        self.atoms = {}; self.names = []
        self.rules = []         # (leading monomial, replacement poly)
        self.cache = {}
        self.assume = {}
        self.deadline = deadline
        self.dens = {}
        self.trig = {}          # canonical arg key -> list
        self.trigbase = []      # list of (argpolynum, argden) base angles
        self.abs_ok = True
        self.terms = {}
        self.atomterm = {}      # atom -> float term (for sign splits)
        self.sqrtarg = {}       # sqrt atom -> its radicand (polynomial)
        self.halves = {}; self.knownsigns = None; self.assumed = []
    def atom(self, key, name):
        i = self.atoms.get(key)
        if i is None:
            i = len(self.names); self.atoms[key] = i; self.names.append(name)
        return i
    def amono(self, key, name): return {((self.atom(key, name), 1),): Fraction(1)}
    def addrule(self, lead, repl): self.rules.append((dict(lead), lead, repl))
    def reduce(self, p):
        if not self.rules: return p
        p = dict(p); out = {}
        n = 0
        while p:
            m, c = p.popitem()
            md = dict(m)
            for ld, lead, repl in self.rules:
                if all(md.get(a, 0) >= e for a, e in lead):
                    q = tuple(sorted((a, e - ld.get(a, 0)) for a, e in md.items() if e - ld.get(a, 0) > 0))
                    for m2, c2 in repl.items():
                        mm = mmul(q, m2); x = p.get(mm, 0) + c * c2
                        if x: p[mm] = x
                        else: p.pop(mm, None)
                    break
            else:
                x = out.get(m, 0) + c
                if x: out[m] = x
                else: out.pop(m, None)
            n += 1
            if n & 4095 == 0:
                if self.deadline and time.time() > self.deadline: raise TooBig()
                if len(p) > LIMIT: raise TooBig()
        return out
    # rational functions: (num, den) with den = dict {polykey: (poly, exp)}
    def r_const(self, c): return (pconst(c), {})
    def r_mulden(self, d1, d2):
        r = dict(d1)
        for k, (p, e) in d2.items():
            r[k] = (p, r[k][1] + e) if k in r else (p, e)
        return r
    def r_lift(self, num, den, tgt):
        """multiply num so that its denominator becomes tgt"""
        for k, (p, e) in tgt.items():
            d = e - (den[k][1] if k in den else 0)
            for _ in range(d): num = self.reduce(pmul(num, p))
        return num
    def r_add(self, a, b):
        (n1, d1), (n2, d2) = a, b
        if d1 == d2: return self.norm(padd(n1, n2), d1)
        t = dict(d1)
        for k, (p, e) in d2.items():
            if k not in t or t[k][1] < e: t[k] = (p, e)
        return self.norm(padd(self.r_lift(n1, d1, t), self.r_lift(n2, d2, t)), t)
    def norm(self, n, d):
        if not n: return (n, {})
        return self.simp(n, d) if d else (n, d)
    def r_mul(self, a, b):
        n = self.reduce(pmul(a[0], b[0]))
        d = self.r_mulden(a[1], b[1])
        return self.simp(n, d)
    def simp(self, n, d):
        if not n: return ({}, {})
        # even powers of square roots in the denominator become their radicands
        for k in list(d):
            p, e = d[k]
            if e >= 2 and len(p) == 1:
                (m, c), = p.items()
                if len(m) == 1 and m[0][1] == 1 and m[0][0] in self.sqrtarg and c == 1:
                    q = self.reduce(self.sqrtarg[m[0][0]])
                    if not q: raise NotPoly('division by zero')
                    c2 = q[min(q)]
                    q = pscale(q, 1 / c2); n = pscale(n, Fraction(1) / c2 ** (e // 2))
                    d = {x: y for x, y in d.items() if x != k}
                    if e % 2: d[k] = (p, 1)
                    if q != pconst(1):
                        kk = pkey(q); d[kk] = (q, (d[kk][1] if kk in d else 0) + e // 2)
        # cancel a denominator factor equal to a monomial/the numerator
        for k in list(d):
            p, e = d[k]
            while e > 0:
                q = self.exactdiv(n, p)
                if q is None: break
                n = q; e -= 1
            if e == 0: d = {x: y for x, y in d.items() if x != k}
            elif e != d[k][1]: d = dict(d); d[k] = (p, e)
        return (n, d)
    def exactdiv(self, n, p):
        """exact division by a single-term polynomial or by a scalar multiple of p"""
        if len(p) == 1:
            (m, c), = p.items(); md = dict(m)
            r = {}
            for mm, cc in n.items():
                x = dict(mm)
                for a, e in md.items():
                    if x.get(a, 0) < e: return None
                    x[a] -= e
                r[tuple(sorted((a, e) for a, e in x.items() if e))] = cc / c
            return r
        if len(n) == len(p):
            m0 = next(iter(p))
            if m0 in n:
                k = n[m0] / p[m0]
                if all(n.get(m) == c * k for m, c in p.items()): return pconst(k)
        if not 1 < len(p) <= 80 or not len(p) <= len(n) <= 3000: return None
        # long division in lexicographic order; gives up at the first remainder term
        key = self.lex
        lp = max(p, key=key); tp = min(p, key=key); ln = max(n, key=key); tn = min(n, key=key)
        if self.mquo(ln, lp) is None or self.mquo(tn, tp) is None: return None
        rem = dict(n); q = {}; cp = p[lp]
        import heapq
        while rem:
            m = max(rem, key=key)
            d = self.mquo(m, lp)
            if d is None: return None
            k = rem[m] / cp; q[d] = k
            for m2, c2 in p.items():
                mm = mmul(d, m2); x = rem.get(mm, 0) - k * c2
                if x: rem[mm] = x
                else: rem.pop(mm, None)
            if len(rem) > 2 * len(n) + 50: return None
        return q
    @staticmethod
    def lex(m): return [x for a, e in m for x in (-a, e)] + [float('-inf')]
    @staticmethod
    def mquo(m, p):
        md = dict(m)
        for a, e in p:
            x = md.get(a, 0) - e
            if x < 0: return None
            md[a] = x
        return tuple(sorted((a, e) for a, e in md.items() if e))
    def r_inv(self, a):
        n, d = a
        if not n: raise NotPoly('division by zero')
        num = pconst(1)
        for k, (p, e) in d.items():
            for _ in range(e): num = self.reduce(pmul(num, p))
        # normalise the new denominator to leading coefficient 1; split monomial content
        c = n[min(n)]
        n = pscale(n, 1 / c); num = pscale(num, 1 / c)
        if len(n) == 1:
            (m, _), = n.items()
            den = {}
            for at, e in m:
                p = {((at, 1),): Fraction(1)}; den[pkey(p)] = (p, e)
            return (num, den)
        return self.simp(num, {pkey(n): (n, 1)})
    def r_isconst(self, a):
        n, d = a
        if d: return None
        if not n: return Fraction(0)
        if len(n) == 1 and () in n: return n[()]
        return None
    def rkey(self, a):
        n, d = a
        return (pkey(n), tuple(sorted((k, e) for k, (p, e) in d.items())))
    def conv(self, root):
        C = self.cache
        if root.id in C: return C[root.id]
        st = [root]; chosen = {}
        while st:
            t = st[-1]
            if t.id in C: st.pop(); continue
            if t.op == 'ite' and t.sort in ('D', 'F'):
                # only the branch taken
                if t.id not in chosen:
                    v = self.cond(t.args[0])
                    if v is None: raise NeedSplit(t.args[0])
                    chosen[t.id] = t.args[1] if v else t.args[2]
                x = chosen[t.id]
                if x.id in C: C[t.id] = C[x.id]; st.pop()
                else: st.append(x)
                continue
            todo = [x for x in t.args if x.sort in ('D', 'F') and x.id not in C]
            if todo: st.extend(reversed(todo)); continue
            r = self.conv1(t); C[t.id] = self.cut(r) if self.cuts else r; st.pop()
            if self.deadline and time.time() > self.deadline: raise TooBig()
        return C[root.id]
    cuts = (); named = False
    def cut(self, r):
        """an expression given a name by the contract (an input named cut.x, assumed equal to it) is replaced by the name"""
        for at, (n, d) in self.cuts:
            if len(n) == len(r[0]) and len(d) == len(r[1]) and close(n, r[0]):
                da, db = list(d.values()), list(r[1].values())
                if all(any(e == f and len(p) == len(q) and close(p, q) for q, f in db) for p, e in da): return ({((at, 1),): Fraction(1)}, {})
        return r
    def cond(self, c):
        v = self.assume.get(c.id)
        if v is not None: return v
        if c.op == 'not':
            v = self.cond(c.args[0]); return None if v is None else not v
        if c.op in ('and', 'or'):
            vs = [self.cond(x) for x in c.args]
            if c.op == 'and':
                if False in vs: return False
                return True if all(v is True for v in vs) else None
            if True in vs: return True
            return False if all(v is False for v in vs) else None
        if c.op == 'true': return True
        if c.op == 'false': return False
        if c.op == 'fisnan' or c.op == 'funo': return False
        if c.op == 'ite':
            v = self.cond(c.args[0])
            if v is not None: return self.cond(c.args[1] if v else c.args[2])
        if c.op in ('flt', 'fle', 'feq'):
            try:
                d = self.r_add(self.conv(c.args[0]), self.r_mul(self.r_const(-1), self.conv(c.args[1])))
                k = self.r_isconst(d)
                if k is not None: return {'flt': k < 0, 'fle': k <= 0, 'feq': k == 0}[c.op]
                s = self.known(d)
                if s is not None:
                    if c.op == 'flt' and s in ('+', '0+'): return False
                    if c.op == 'fle' and s == '+': return False
                    if c.op in ('flt', 'fle') and s == '-': return True
                    if c.op == 'fle' and s == '0-': return True
            except NeedSplit: raise
            except NotPoly: pass
        return None
    def sign(self, r):
        """syntactic sign of a rational function with even monomials only"""
        n, d = r
        if d: return None
        if not n: return '0'
        pos = all(c > 0 for c in n.values()); negv = all(c < 0 for c in n.values())
        if not (pos or negv): return None
        if any(e % 2 and a not in self.nonneg for m in n for a, e in m): return None
        strict = () in n
        return ('+' if strict else '0+') if pos else ('-' if strict else '0-')
    nonneg = frozenset()
    def conv1(self, t):
        o = t.op; C = self.cache; a = t.args
        if o == 'fc': return self.r_const(nice_rational(fval(t)))
        if o == 'var':
            self.atomterm[self.atom(('v', t.p), t.p)] = t
            return (self.reduce(self.amono(('v', t.p), t.p)) if self.named else self.amono(('v', t.p), t.p), {})
        if o == 'fadd': return self.r_add(C[a[0].id], C[a[1].id])
        if o == 'fsub': return self.r_add(C[a[0].id], self.r_mul(self.r_const(-1), C[a[1].id]))
        if o == 'fmul': return self.r_mul(C[a[0].id], C[a[1].id])
        if o == 'fdiv': return self.r_mul(C[a[0].id], self.r_inv(C[a[1].id]))
        if o == 'fneg': return self.r_mul(self.r_const(-1), C[a[0].id])
        if o in ('fpext', 'fptrunc'): return C[a[0].id]
        if o == 'ite':
            v = self.cond(a[0])
            if v is None: raise NeedSplit(a[0])
            return C[a[1].id] if v else C[a[2].id]
        if o == 'fabs':
            r = C[a[0].id]; k = self.r_isconst(r)
            if k is not None: return self.r_const(abs(k))
            s = self.sign(r)
            if s in ('+', '0+', '0'): return r
            if s in ('-', '0-'): return self.r_mul(self.r_const(-1), r)
            c = mk('flt', (a[0], fnum(0.0)), 'B')
            v = self.cond(c)
            if v is None: raise NeedSplit(c)
            return self.r_mul(self.r_const(-1), r) if v else r
        if o == 'fsqrt': return self.rsqrt(C[a[0].id], t)
        if o == 'fun':
            args = [C[x.id] for x in a]
            if t.p in ('sin', 'cos'): return self.trigf(t.p, args[0], a[0])
            k = self.r_isconst(args[0]) if args else None
            if t.p == 'pow' and len(args) == 2:
                e = self.r_isconst(args[1])
                if e is not None and e.denominator == 1 and 0 <= e <= 16:
                    r = self.r_const(1)
                    for _ in range(int(e)): r = self.r_mul(r, args[0])
                    return r
            if t.p == 'tan':
                return self.r_mul(self.trigf('sin', args[0], a[0]), self.r_inv(self.trigf('cos', args[0], a[0])))
            if t.p in ('atan2', 'asin', 'acos'):
                if t.p == 'atan2' and k == 0:
                    x = self.known(args[1])
                    if x == '+': return self.r_const(0)
                    if x == '-': return self.r_const(nice_rational(3.141592653589793))
                z = self.polar(t, args)
                if z is not None: return z
            key = ('fun', t.p) + tuple(self.rkey(x) for x in args)
            new = key not in self.atoms
            at = self.atom(key, '%s#%d' % (t.p, len(self.names)))
            if new:
                self.atomterm[at] = t
                self.invtrig[at] = (t.p, args)
                if t.p == 'acos' or (t.p == 'atan2' and self.sign(args[0]) in ('+', '0+')): self.nonneg = self.nonneg | {at}
            return ({((at, 1),): Fraction(1)}, {})
        if o in ('sitofp', 'uitofp', 'ffrom', 'ffloor', 'fceil', 'fround', 'ftrunc'):
            if o in ('sitofp', 'uitofp'): self.terms[t.id] = t
            elif o != 'ffrom' and a[0].id in C: return (self.amono((o, self.rkey(C[a[0].id])), '%s%d' % (o, t.id)), {})
            return (self.amono(('t', t.id), 't%d' % t.id), {})
        raise NotPoly(o)
    ratrules = {}
    invtrig = {}
    def ratsqrt(self, k):
        import math
        if k < 0: return None
        p, q = math.isqrt(k.numerator), math.isqrt(k.denominator)
        return Fraction(p, q) if p * p == k.numerator and q * q == k.denominator else None
    def extract(self, r):
        """sqrt(r) = out * sqrt(rest): squares of atoms with a known sign are taken out"""
        n, d = r
        out = self.r_const(1)
        if not n: return out, r
        common = None
        for m in n:
            md = dict(m)
            common = md if common is None else {x: min(e, md[x]) for x, e in common.items() if x in md}
        for at, e in (common or {}).items():
            if e < 2: continue
            h = e // 2
            s = self.atomsign(at, h)
            if s is None: continue
            n = {tuple(sorted((x, y - (2 * h if x == at else 0)) for x, y in m if y - (2 * h if x == at else 0))): c for m, c in n.items()}
            out = self.r_mul(out, ({((at, h),): Fraction(s)}, {}))
        for i, (bn, bd, scale_, sa, ca) in enumerate(self.trigbase):
            # 1 - cos^2 = sin^2
            while any(ca in dict(m) for m in n):
                q = self.exactdiv(n, {(): Fraction(1), ((ca, 2),): Fraction(-1)})
                if q is None: break
                sg = self.atomsign(sa, 1)
                if sg is None: break
                n = q; out = self.r_mul(out, ({((sa, 1),): Fraction(sg)}, {}))
        # the numeric content, if it is a square
        c = abs(n[min(n)]); q = self.ratsqrt(c)
        if len(n) == 1 and q: n = pscale(n, 1 / c); out = self.r_mul(out, self.r_const(q))
        nd = {}
        for k, (p, e) in d.items():
            h = e // 2
            if h and len(p) == 1:
                (m, c), = p.items()
                s = self.atomsign(m[0][0], h * m[0][1]) if len(m) == 1 else None
                if s is not None:
                    for _ in range(h): out = self.r_mul(out, self.r_inv((p, {})))
                    out = self.r_mul(out, self.r_const(s))
                    if e % 2: nd[k] = (p, 1)
                    continue
            nd[k] = (p, e)
        return out, (n, nd)
    def atomsign(self, at, h):
        if h % 2 == 0 or at in self.nonneg: return 1
        t = self.atomterm.get(at)
        if t is None: return None
        c = mk('flt', (t, fnum(0.0)), 'B')
        v = self.cond(c)
        if v is None: raise NeedSplit(c)
        return -1 if v else 1
    def angles(self, args, name):
        """known angles a with args = (k sin a, k cos a), (sin a) or (cos a): yields (a as rational function, a as term)"""
        for i, (bn, bd, scale_, sa, ca) in enumerate(list(self.trigbase)):
            at = self.angleterm.get(i)
            if at is None: continue
            for n in (1, 2, 4):
                if n > 1 and not any(x == sa or x == ca for r in args for m in r[0] for x, e in m): continue
                S, Cc = self.multi('sin', n, sa, ca), self.multi('cos', n, sa, ca)
                if name == 'atan2':
                    y, x = args
                    d = self.r_add(self.r_mul(y, Cc), self.r_mul(self.r_const(-1), self.r_mul(x, S)))
                    if self.reduce(d[0]): continue
                    # (y, x) = k (S, C): k = y S + x C
                    k = self.r_add(self.r_mul(y, S), self.r_mul(x, Cc))
                    if self.known((self.reduce(k[0]), k[1])) != '+': continue
                else:
                    d = self.r_add(args[0], self.r_mul(self.r_const(-1), S if name == 'asin' else Cc))
                    if self.reduce(d[0]): continue
                t = fop('fmul', fnum(float(n)), at) if n > 1 else at
                yield self.r_mul((bn, bd), self.r_const(n / scale_)), t
    def polar(self, t, args):
        """atan2(k sin a, k cos a) = a for k > 0 and -pi < a <= pi; asin(sin a) = a, acos(cos a) = a in their ranges"""
        pi = 3.141592653589793
        for r, at in self.angles(args, t.p):
            lo, hi = {'atan2': (-pi, pi), 'acos': (0.0, pi), 'asin': (-pi / 2, pi / 2)}[t.p]
            c = And(fcmp('fle', at, fnum(hi)), fcmp('flt' if t.p == 'atan2' else 'fle', fnum(lo), at))
            v = self.cond(c)
            if v is None: raise NeedSplit(c)
            if v: return r
        return None
    def trigf(self, f, r, at=None):
        k = self.r_isconst(r)
        if k == 0: return self.r_const(0 if f == 'sin' else 1)
        if k is not None:
            # multiples of a quarter turn
            q = 2 * float(k) / 3.141592653589793; m = round(q)
            if abs(q - m) < 1e-12: return self.r_const([0, 1, 0, -1][(m + (f == 'cos')) % 4])
        k0 = r[0].get((), 0) if not r[1] else 0
        if k0:
            # an angle plus a multiple of an eighth of a turn
            q = 4 * float(k0) / 3.141592653589793; m = round(q)
            if m and abs(q - m) < 1e-12:
                x = ({y: z for y, z in r[0].items() if y != ()}, {})
                S, C = self.trigf('sin', x), self.trigf('cos', x)
                def eighth(j):
                    j %= 8
                    if j % 2 == 0: return self.r_const([1, 0, -1, 0][j // 2])
                    h = self.rsqrt(self.r_const(Fraction(1, 2)))
                    return h if j in (1, 7) else self.r_mul(self.r_const(-1), h)
                cm, sm = eighth(m), eighth(m - 2)
                if f == 'sin': return self.r_add(self.r_mul(S, cm), self.r_mul(C, sm))
                return self.r_add(self.r_mul(C, cm), self.r_mul(self.r_const(-1), self.r_mul(S, sm)))
        if len(r[0]) == 1 and not r[1]:
            (m, c), = r[0].items()
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in self.invtrig and c.denominator == 1:
                z = self.inverse(m[0][0], f, int(c))
                if z is not None: return z
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in self.invtrig and c.denominator == 2:
                z = self.halfinverse(m[0][0], f, int(2 * c))
                if z is not None: return z
        # express r as rational multiple of a known base angle
        for i, (bn, bd, scale_, sa, ca) in enumerate(self.trigbase):
            q = self.ratio(r, (bn, bd))
            if q is not None:
                q = q * scale_
                if q.denominator == 1: return self.multi(f, int(q), sa, ca)
                raise HalfAngle((bn, bd), q.denominator * scale_)
        scale_ = self.anglescale.get(self.anglekey(r), 1)
        i = len(self.trigbase)
        ca = self.atom(('cos', i), 'cos#%d' % i); sa = self.atom(('sin', i), 'sin#%d' % i)
        self.addrule(((sa, 2),), {(): Fraction(1), ((ca, 2),): Fraction(-1)})
        self.trigbase.append((r[0], r[1], Fraction(scale_), sa, ca))
        if at is not None: self.angleterm[i] = fop('fdiv', at, fnum(float(scale_))) if scale_ != 1 else at
        if at is not None: h = self.angleterm[i]; self.atomterm[sa] = fun('sin', h.sort, h); self.atomterm[ca] = fun('cos', h.sort, h)
        return self.multi(f, int(scale_), sa, ca)
    angleterm = {}
    def inverse(self, at, f, n):
        """sin and cos of n times an inverse function"""
        name, args = self.invtrig[at]
        one = self.r_const(1); neg = lambda r: self.r_mul(self.r_const(-1), r)
        if name == 'atan2':
            y, x = args
            h = self.rsqrt(self.r_add(self.r_mul(y, y), self.r_mul(x, x)))
            s, c = self.r_mul(y, self.r_inv(h)), self.r_mul(x, self.r_inv(h))
        elif name == 'atan':
            h = self.rsqrt(self.r_add(one, self.r_mul(args[0], args[0])))
            s, c = self.r_mul(args[0], self.r_inv(h)), self.r_inv(h)
        elif name in ('acos', 'asin'):
            x = args[0]; o = self.rsqrt(self.r_add(one, neg(self.r_mul(x, x))))
            s, c = (o, x) if name == 'acos' else (x, o)
        else: return None
        S, C = self.r_const(0), one
        for _ in range(abs(n)):
            S, C = self.r_add(self.r_mul(S, c), self.r_mul(C, s)), self.r_add(self.r_mul(C, c), neg(self.r_mul(S, s)))
        if n < 0: S = neg(S)
        return S if f == 'sin' else C
    def halfinverse(self, at, f, n):
        """sin and cos of n/2 times an inverse function"""
        if at not in self.halves:
            X, Y = self.inverse(at, 'cos', 1), self.inverse(at, 'sin', 1)
            if X is None or X[1] or Y[1]: return None
            i = len(self.names)
            ca = self.atom(('hcos', at), 'hcos#%d' % i); sa = self.atom(('hsin', at), 'hsin#%d' % i)
            half = Fraction(1, 2)
            self.addrule(((ca, 2),), pscale(padd(pconst(1), X[0]), half))
            self.addrule(((sa, 2),), pscale(padd(pconst(1), pneg(X[0])), half))
            self.addrule(tuple(sorted([(sa, 1), (ca, 1)])), pscale(Y[0], half))
            self.nonneg = self.nonneg | ({ca, sa} if at in self.nonneg else {ca})
            # tan(a/2): sin(a/2) (1 + cos a) = cos(a/2) sin a
            self.halves[at] = (sa, ca)
        sa, ca = self.halves[at]
        return self.multi(f, n, sa, ca)
    def known(self, r):
        """sign of r from the literals assumed"""
        s = self.sign(r)
        if s is None: return self.known1(r)
        if s in ('0+', '0-'):
            k = self.known1(r)
            if k is not None and k != s: return '0' if {k[0], s[0]} == {'0'} else k
        return s
    def known1(self, r):
        if self.knownsigns is None:
            self.knownsigns = {}
            ks = {}
            for t, v in list(self.assumed):
                if t.op not in ('flt', 'fle'): continue
                try: d = self.r_add(self.conv(t.args[1]), self.r_mul(self.r_const(-1), self.conv(t.args[0])))
                except (NotPoly, NeedSplit, HalfAngle): continue
                d = (self.reduce(d[0]), d[1])
                x = self.offset(d)
                if x is None: continue
                key, c, k = x        # d = c * (q + k)
                # v: d > 0 or >= 0 ; not v: d <= 0 or < 0
                strict = (t.op == 'flt') == v
                up = (c > 0) == v    # q > -k or q < -k
                lo, hi = ks.get(key, (None, None))
                if up:
                    if lo is None or (-k, strict) > lo: lo = (-k, strict)
                else:
                    if hi is None or (-k, not strict) < hi: hi = (-k, not strict)
                ks[key] = (lo, hi)
            self.knownsigns = ks
            for lo, hi in ks.values():
                if lo is not None and hi is not None and (lo[0] > hi[0] or (lo[0] == hi[0] and (lo[1] or not hi[1]))): self.contradiction = True
        r = (self.reduce(r[0]), r[1])
        if not r[0]: return '0'
        x = self.offset(r)
        if x is None: return self.knownprod(r)
        key, c, k = x
        lo, hi = self.knownsigns.get(key, (None, None))
        s = None
        if lo is not None and lo[0] + k >= 0: s = '+' if lo[0] + k > 0 or lo[1] else '0+'
        elif hi is not None and hi[0] + k <= 0: s = '-' if hi[0] + k < 0 or not hi[1] else '0-'
        if s is not None and c < 0: s = s.replace('+', 'x').replace('-', '+').replace('x', '-')
        if s is None and (len(r[0]) > 1 or sum(e for a, e in next(iter(r[0]))) > 1 or r[1]): s = self.knownprod(r)
        return s
    def knownprod(self, r):
        """sign of a product of atoms of known sign over factors of known sign"""
        r = self.simp(self.reduce(r[0]), r[1]); n, d = r
        if len(n) != 1: return None
        (m, c), = n.items(); neg, zero = c < 0, False
        for a, e in m:
            s = self.known(({((a, 1),): Fraction(1)}, {}))
            if s is None and e % 2 == 0 or s == '0': zero = True; continue
            if s is None: return None
            if s in ('0+', '0-'): zero = True
            if e % 2 and s in ('-', '0-'): neg = not neg
        for p, e in d.values():
            if e % 2 == 0: continue
            s = self.known((p, {})) if len(p) == 1 else None      # (a denominator does not vanish)
            if s in ('+', '0+'): continue
            if s in ('-', '0-'): neg = not neg; continue
            return None
        return ('0' if zero else '') + ('-' if neg else '+')
    contradiction = False
    def offset(self, r):
        """r = c * (q + k) with q monic and free of a constant term; key of q"""
        n, d = r
        if d:
            m = min(n); c = n[m]
            return self.rkey((pscale(n, 1 / c), d)), c, Fraction(0)
        ms = [m for m in n if m]
        if not ms: return None
        c = n[min(ms)]
        return pkey({m: x / c for m, x in n.items() if m}), c, n.get((), Fraction(0)) / c
    def rsqrt(self, r, t=None):
        r = (self.reduce(r[0]), r[1]); r = self.simp(r[0], r[1])
        k = self.r_isconst(r)
        if k is not None and self.ratsqrt(k) is not None: return self.r_const(self.ratsqrt(k))
        out, r = self.extract(r)
        k = self.r_isconst(r)
        if k is not None and self.ratsqrt(k) is not None: return self.r_mul(out, self.r_const(self.ratsqrt(k)))
        if r[1]:
            # of a quotient: the quotient of the roots, where numerator and denominator have a sign
            n, d, flip = r[0], {}, False
            for k2, (p, e) in r[1].items():
                if e % 2 == 0: d = None; break
                g = self.sign((p, {})) or (self.known1((p, {})) if len(p) == 1 else None)
                if g is None or g == '0': d = None; break
                if g in ('-', '0-'): p = pneg(p); flip = not flip
                d[k2] = (p, e)
            if d:
                x = self.rsqrt((pneg(n) if flip else n, {}))
                for p, e in d.values():
                    q = self.r_inv(self.rsqrt((p, {})))
                    for _ in range(e): x = self.r_mul(x, q)
                return self.r_mul(out, x)
        key = ('sqrt', self.rkey(r)); new = key not in self.atoms
        at = self.atom(key, 'sqrt#%d' % len(self.names))
        if new:
            self.nonneg = self.nonneg | {at}
            if t is not None and self.r_isconst(out) == 1: self.atomterm[at] = t
            if not r[1]: self.addrule(((at, 2),), r[0]); self.sqrtarg[at] = r[0]
            else: self.ratrules[at] = r
        return self.r_mul(out, ({((at, 1),): Fraction(1)}, {}))
    anglescale = {}
    def anglekey(self, r):
        n, d = r
        c = n[min(n)]
        return self.rkey((pscale(n, 1 / c), d))
    def ratio(self, a, b):
        if a[1] != b[1] or len(a[0]) != len(b[0]): return None
        m = min(a[0])
        if m not in b[0]: return None
        q = a[0][m] / b[0][m]
        return q if all(b[0].get(x) is not None and c == b[0][x] * q for x, c in a[0].items()) else None
    def multi(self, f, n, sa, ca):
        s = {((sa, 1),): Fraction(1)}; c = {((ca, 1),): Fraction(1)}
        sg = 1
        if n < 0: n = -n; sg = -1
        S, Cc = {}, pconst(1)
        for _ in range(n):
            S, Cc = self.reduce(padd(pmul(S, c), pmul(Cc, s))), self.reduce(padd(pmul(Cc, c), pneg(pmul(S, s))))
        return (pscale(S, sg), {}) if f == 'sin' else (Cc, {})

class NeedSplit(Exception):
    def __init__(self, c): self.c = c
class HalfAngle(Exception):
    def __init__(self, base, k): self.base = base; self.k = k

def relation_rules(ctx, lits):
    """equalities between reals among the guard literals become rewrite rules (leading monomial eliminated)"""
    eqs = [l for l in lits if l.op == 'feq' and (LOOPEQ or not (l.args[0].op == 'var' and l.args[0].p.startswith('loop')))]
    names = {}
    for l in eqs:
        for i in (0, 1):
            if l.args[i].op == 'var' and l.args[i].p.startswith('cut.') and l.args[i] not in variables([l.args[1 - i]]): names[l.id] = (l.args[i], l.args[1 - i])
    ctx.cuts = []; ctx.named = bool(names)
    todo = [l for l in eqs if l.id in names]; cuts = []
    while todo:
        vs = {names[l.id][0] for l in todo}
        free = [l for l in todo if not vs & set(variables([names[l.id][1]]))]
        if not free: break
        cuts += free; todo = [l for l in todo if l not in free]
    for l in cuts:
        x, y = names[l.id]; ctx.cache.clear()
        try: r = ctx.conv(y)
        except (NotPoly, HalfAngle): continue
        at = ((ctx.atom(('v', x.p), x.p), 1),)
        if any(m for m in r[0]) and not (len(r[0]) == 1 and len(next(iter(r[0]))) == 1 and not r[1]): ctx.cuts.append((at[0][0], (ctx.reduce(r[0]), r[1])))
        elif not r[1]: ctx.addrule(at, r[0])
    eqs = [l for l in eqs if l not in cuts]
    hard = {l.id for l in eqs if any(t.op in ('fsqrt', 'fun') for t in postorder([l]))}
    for l in sorted(eqs, key=lambda l: l.id in hard):
        if 1:
            ctx.cache.clear()      # (terms met before the rule was known)
            try:
                d = ctx.r_add(ctx.conv(l.args[0]), ctx.r_mul(ctx.r_const(-1), ctx.conv(l.args[1])))
            except (NotPoly, NeedSplit): continue
            n = d[0]
            n = ctx.reduce(n)
            ms = [m for m in n if m]
            if not ms: continue
            # leading monomial: prefer highest degree pure power of the first-created atom
            def rank(m):
                deg = sum(e for _, e in m)
                return (deg, len(m) == 1, -m[0][0])
            lead = max(ms, key=rank)
            if l.args[0].op == 'var' and l.args[0].p.startswith('param.'):
                at = ctx.conv(l.args[0])[0]
                if len(at) == 1 and next(iter(at)) in n: lead = next(iter(at))
            c = n[lead]
            ctx.addrule(lead, {m: -k / c for m, k in n.items() if m != lead})
    ctx.cache.clear()

EPS = None       # how far the two sides may be apart (None: equal)
def prove(a, b, lits, budget=60, feas=None, stats=None, depth=0, assume=None, scales=None, pos=(), eps=None):
    """True / False(with reason) / None"""
    global EPS
    t_end = time.time() + budget; EPS = eps
    try: return _prove(a, b, lits, t_end, feas, {}, {}, stats, 0)
    finally: EPS = None

class Near:
    """bounds |num/den| by interval arithmetic on the normal form, sine, cosine and square roots near one being
    replaced by their series with a bounded remainder"""
    def __init__(self, ctx):
        self.ctx = ctx; self.B = {}; self.L = {}
        ctx.known(({((-1, 1),): Fraction(1)}, {}))
        for key, (lo, hi) in ctx.knownsigns.items():
            if not all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], Fraction) for x in key): continue
            q = dict(key)
            if len(q) == 1:
                (m, c), = q.items()
                if len(m) == 1 and m[0][1] == 1 and lo is not None and hi is not None:
                    self.put(m[0][0], max(abs(lo[0] / c), abs(hi[0] / c)))
                    if lo[0] * hi[0] > 0: self.L[m[0][0]] = min(abs(lo[0] / c), abs(hi[0] / c))
            if hi is not None and all(c > 0 and all(e % 2 == 0 for _, e in m) for m, c in q.items()):
                for m, c in q.items():
                    if len(m) == 1: self.put(m[0][0], up((float(hi[0] / c)) ** (1.0 / m[0][1])))
    def put(self, a, v):
        if a not in self.B or v < self.B[a]: self.B[a] = v
    def atomb(self, a):
        if a in self.B: return self.B[a]
        r = None
        if a in self.ctx.sqrtarg:
            x = self.mag(self.ctx.sqrtarg[a]); r = None if x is None else up(float(x) ** 0.5)
        if r is None and any(a in (sa, ca) for _, _, _, sa, ca in self.ctx.trigbase): r = Fraction(1)
        if r is not None: self.B[a] = r
        return r
    def mag(self, p):
        s = Fraction(0)
        for m, c in p.items():
            x = abs(c)
            for a, e in m:
                b = self.atomb(a)
                if b is None: return None
                x *= b ** e
            s += x
        return s
    def close(self, p):
        """an angle that is once or twice another angle but for a small one: sin(k b + t) expanded in t"""
        ctx = self.ctx; done = set(); used = set()
        base = [(pscale(bn, 1 / sc), sa, ca) for bn, bd, sc, sa, ca in ctx.trigbase if not bd]
        for i, (bi, sa, ca) in enumerate(base):
            if i in used or not any(a in (sa, ca) for m in p for a, _ in m): continue
            for j, (bj, sj, cj) in enumerate(base):
                if j == i or j in done: continue
                for k in (1, 2, -1, -2):
                    th = padd(bi, pscale(bj, Fraction(-k)))
                    if not th or len(th) >= len(bi) + len(bj): continue
                    t = self.mag(th)
                    if t is None or t > Fraction(1, 100): continue
                    # the small angle may contain the atoms replaced: give them new names
                    new = {}
                    for a in (sa, ca): new[a] = ctx.atom(('near', 'n', a), 'n'); self.B[new[a]] = Fraction(1)
                    th = {tuple(sorted((new.get(a, a), e) for a, e in m)): c for m, c in th.items()}
                    rc, rs = ctx.atom(('near', 'pc', i), 'rc'), ctx.atom(('near', 'ps', i), 'rs')
                    self.B[rc] = Fraction(1, 2); self.B[rs] = Fraction(1, 6)
                    t2 = ctx.reduce(pmul(th, th))
                    ct = padd(pconst(1), pmul(t2, {((rc, 1),): Fraction(-1)}))
                    st = padd(th, pmul(ctx.reduce(pmul(t2, th)), {((rs, 1),): Fraction(-1)}))
                    S, C = {((sj, 1),): Fraction(1)}, {((cj, 1),): Fraction(1)}
                    if abs(k) == 2: S, C = pscale(pmul(S, C), Fraction(2)), padd(pscale(pmul(C, C), Fraction(2)), pconst(-1))
                    if k < 0: S = pscale(S, Fraction(-1))
                    p = self.subst(self.subst(p, ca, padd(pmul(C, ct), pscale(pmul(S, st), Fraction(-1)))), sa, padd(pmul(S, ct), pmul(C, st)))
                    done.add(i); used.add(j); break
                if i in done: break
        return p
    def series(self, p):
        ctx = self.ctx; p = self.close(p)
        for i, (bn, bd, sc, sa, ca) in enumerate(list(ctx.trigbase)):
            if bd or not any(a in (sa, ca) for m in p for a, _ in m): continue
            th = pscale(bn, 1 / sc); t = self.mag(th)
            if t is None or t > 1: continue
            rc, rs = ctx.atom(('near', 'c', i), 'rc'), ctx.atom(('near', 's', i), 'rs')
            self.B[rc] = Fraction(1, 720); self.B[rs] = Fraction(1, 5040)
            P = [pconst(1)]
            for k in range(7): P.append(ctx.reduce(pmul(P[-1], th)))
            c = padd(padd(pconst(1), pscale(P[2], Fraction(-1, 2))), padd(pscale(P[4], Fraction(1, 24)), pmul(P[6], {((rc, 1),): Fraction(-1)})))
            s = padd(padd(P[1], pscale(P[3], Fraction(-1, 6))), padd(pscale(P[5], Fraction(1, 120)), pmul(P[7], {((rs, 1),): Fraction(-1)})))
            p = self.subst(self.subst(p, ca, c), sa, s)
        for a, q in list(ctx.sqrtarg.items()):
            if not any(x == a for m in p for x, _ in m): continue
            q = self.series(ctx.reduce(q))
            if q.get((), 0) != 1: continue
            d = padd(q, pconst(-1)); t = self.mag(d)
            if t is None or t > Fraction(1, 2): continue
            mu = ctx.atom(('near', 'r', a), 'mu'); self.B[mu] = up(1 / (1 + float(1 - t) ** 0.5))
            p = self.subst(p, a, padd(pconst(1), pmul(d, {((mu, 1),): Fraction(1)})))
        return p
    def subst(self, p, a, v):
        if not any(x == a for m in p for x, _ in m): return p
        mx = max(dict(m).get(a, 0) for m in p); pw = [pconst(1)]
        for _ in range(mx): pw.append(self.ctx.reduce(pmul(pw[-1], v)))
        out = {}
        for m, c in p.items():
            md = dict(m); e = md.pop(a, 0)
            out = padd(out, pmul({tuple(sorted(md.items())): c}, pw[e]))
        return self.ctx.reduce(out)
    def bound(self, d):
        ctx = self.ctx
        n = self.series(ctx.reduce(d[0])); den = []
        for k, (p, e) in d[1].items(): den.append([self.series(p), e])
        for x in den:
            while x[1] > 0:
                q = ctx.exactdiv(n, x[0])
                if q is None: break
                n = q; x[1] -= 1
        b = self.mag(n)
        if b is None: return None
        for p, e in den:
            if not e: continue
            if len(p) == 1 and all(a in self.L for m in p for a, _ in m):
                (m, c), = p.items(); c = abs(c)
                for a, k in m: c *= self.L[a] ** k
                b /= c ** e; continue
            c = abs(p.get((), 0)); r = self.mag({m: x for m, x in p.items() if m})
            if r is None or c <= r: return None
            b /= (c - r) ** e
        return b
def up(x): return Fraction(x) * Fraction(1000000001, 1000000000)

COEF_TOL = Fraction(1, 10**13)
LOOPEQ = False    # whether the values a loop leaves with are rewritten to what its last iteration computed
UNIFY = None     # set by the driver: decides whether two integer terms are equal under the guard
def unify_atoms(ctx, lits):
    ts = [(k[1], i) for k, i in ctx.atoms.items() if k[0] == 't' and k[1] in ctx.terms]
    if UNIFY is None or len(ts) < 2: return
    for j in range(1, len(ts)):
        tj = ctx.terms[ts[j][0]]
        for i in range(j):
            ti = ctx.terms[ts[i][0]]
            if ti.op == tj.op and set(variables([ti])) & set(variables([tj])) and UNIFY(ti.args[0], tj.args[0], lits):
                ctx.addrule(((ts[j][1], 1),), {((ts[i][1], 1),): Fraction(1)}); break

def _mkctx(lits, t_end, assume, scales):
    ctx = Ctx(t_end); ctx.anglescale = scales; ctx.ratrules = {}; ctx.invtrig = {}; ctx.angleterm = {}
    for l in lits:
        if l.op == 'not': ctx.assume[l.args[0].id] = False
        ctx.assume[l.id] = True
        if l.op == 'and':
            for x in l.args: ctx.assume[x.id] = True
        x, v = (l.args[0], False) if l.op == 'not' else (l, True)
        if v and x.op == 'and':
            for y in x.args: ctx.assumed.append((y.args[0], False) if y.op == 'not' else (y, True))
        else: ctx.assumed.append((x, v))
    ctx.assume.update(assume)
    # x <= y and y <= x
    le = {}
    for x, v in ctx.assumed:
        if v and x.op == 'fle': le[(x.args[0].id, x.args[1].id)] = x.args
        elif not v and x.op == 'flt': le[(x.args[1].id, x.args[0].id)] = (x.args[1], x.args[0])
    lits = list(lits) + [fcmp('feq', *a) for (i, j), a in le.items() if i < j and (j, i) in le]
    relation_rules(ctx, lits)
    return ctx

def _prove(a, b, lits, t_end, feas, assume, scales, stats, depth):
    if depth > 12: return None, 'case split too deep'
    try:
        ctx = _mkctx(lits, t_end, assume, scales)
        ra, rb = ctx.conv(a), ctx.conv(b)
        unify_atoms(ctx, lits)
        d = ctx.r_add(ra, ctx.r_mul(ctx.r_const(-1), rb))
        n = ctx.reduce(d[0])
        # eliminate squares of square roots of proper fractions
        for at, r in ctx.ratrules.items():
            n = elim_rat(ctx, n, at, r)
        if not n: return True, None
        # decimal constants are approximations: coefficients may differ in the last digits
        den = dict(ra[1])
        for k, (p, e) in rb[1].items():
            if k not in den or den[k][1] < e: den[k] = (p, e)
        la, lb = ctx.reduce(ctx.r_lift(ra[0], ra[1], den)), ctx.reduce(ctx.r_lift(rb[0], rb[1], den))
        for at, r in ctx.ratrules.items():
            if any(x == at and y > 1 for q in (la, lb) for m in q for x, y in m): break
        else:
            if all(abs(la.get(m, 0) - lb.get(m, 0)) <= COEF_TOL * max(abs(la.get(m, 0)), abs(lb.get(m, 0))) for m in set(la) | set(lb)): return True, None
        ctx.known(({((-1, 1),): Fraction(1)}, {}))
        if ctx.contradiction: return True, None       # the case cannot occur
        if EPS is not None:
            x = Near(ctx).bound(d)
            if x is not None and x <= EPS: return True, None
            return False, 'difference bounded only by %s%s' % (None if x is None else float(x), ' under ' + str(assume) if assume else '')
        return False, 'difference does not vanish: %s%s' % (pstr(n, ctx), ' under ' + str(assume) if assume else '')
    except NeedSplit as e:
        res = []
        for v in (True, False):
            lit = e.c if v else Not(e.c)
            l2 = lits + [lit]
            if feas is not None and feas(l2) is False: res.append((True, None)); continue
            x = dict(assume); x[e.c.id] = v
            r = _prove(a, b, l2, t_end, feas, x, scales, stats, depth + 1)
            if r[0] is not True: return r
            res.append(r)
        return True, None
    except HalfAngle as e:
        s = dict(scales); k = Ctx().anglekey(e.base) if False else None
        ctx0 = ctx
        key = ctx0.anglekey(e.base)
        s[key] = int(e.k)
        if scales.get(key) == s[key] or depth > 10: return None, 'angle normalisation'
        return _prove(a, b, lits, t_end, feas, assume, s, stats, depth + 1)
    except TooBig: return None, 'polynomial too large'
    except NotPoly as e: return None, 'not a real expression: %s' % e

def elim_rat(ctx, n, at, r):
    """replace at^2 by r=num/den: multiply through"""
    num, den = r
    D = pconst(1)
    for k, (p, e) in den.items():
        for _ in range(e): D = ctx.reduce(pmul(D, p))
    mx = max([dict(m).get(at, 0) // 2 for m in n] or [0])
    if mx == 0: return n
    pn = [pconst(1)]; pd = [pconst(1)]
    for _ in range(mx):
        pn.append(ctx.reduce(pmul(pn[-1], num))); pd.append(ctx.reduce(pmul(pd[-1], D)))
    out = {}
    for m, c in n.items():
        md = dict(m); e = md.get(at, 0); h = e // 2
        md[at] = e % 2
        mm = tuple(sorted((x, y) for x, y in md.items() if y))
        out = padd(out, pmul({mm: c}, pmul(pn[h], pd[mx - h])))
    return ctx.reduce(out)

def pstr(p, ctx, k=6):
    s = []
    for m, c in list(p.items())[:k]:
        s.append('%s%s' % (float(c), ''.join('*%s%s' % (ctx.names[a], '' if e == 1 else '^%d' % e) for a, e in m)))
    return ' + '.join(s) + (' + ...(%d terms)' % len(p) if len(p) > k else '')

# ------------------------------------------------------------------ differentiation
def lincoef(t, x):
    """derivative of an integer expression by the integer input x, read as a real expression"""
    if t is x: return fnum(1.0)
    if x not in variables([t]): return fnum(0.0)
    if t.op == 'ite': return ite(t.args[0], lincoef(t.args[1], x), lincoef(t.args[2], x))
    if t.op in ('sext', 'zext'): return lincoef(t.args[0], x)
    if t.op == 'lin':
        r = fnum(0.0); M = 1 << t.sort
        for q, k in zip(t.p[1], t.args):
            y = lincoef(k, x); w = q if q < M // 2 else q - M
            r = fop('fadd', r, fop('fmul', fnum(float(w)), y)) if not (y.op == 'fc' and fval(y) == 0) else r
        return r
    raise NotPoly('derivative of ' + t.op)
def diff(root, x):
    """symbolic derivative of the float term root with respect to the input variable x"""
    D = {}
    one = fnum(1.0); zero = fnum(0.0)
    def A(p, q):
        if p is zero: return q
        if q is zero: return p
        return fop('fadd', p, q)
    def M(p, q):
        if p is zero or q is zero: return zero
        if p is one: return q
        if q is one: return p
        return fop('fmul', p, q)
    def S(p, q):
        if q is zero: return p
        if p is zero: return fop('fneg', q)
        return fop('fsub', p, q)
    for t in postorder([root]):
        o = t.op; a = t.args
        if t.sort not in ('D', 'F'): continue
        if o == 'sitofp' and x.sort not in ('D', 'F'):
            D[t.id] = lincoef(a[0], x); continue
        if t is x: D[t.id] = one
        elif o in ('fc', 'var', 'sitofp', 'uitofp'): D[t.id] = zero
        elif o == 'fadd': D[t.id] = A(D[a[0].id], D[a[1].id])
        elif o == 'fsub': D[t.id] = S(D[a[0].id], D[a[1].id])
        elif o == 'fmul': D[t.id] = A(M(D[a[0].id], a[1]), M(a[0], D[a[1].id]))
        elif o == 'fneg': D[t.id] = S(zero, D[a[0].id])
        elif o == 'fdiv':
            n = S(M(D[a[0].id], a[1]), M(a[0], D[a[1].id]))
            D[t.id] = zero if n is zero else fop('fdiv', n, fop('fmul', a[1], a[1]))
        elif o == 'fsqrt':
            d = D[a[0].id]; D[t.id] = zero if d is zero else fop('fdiv', d, fop('fmul', fnum(2.0), t))
        elif o == 'ite': D[t.id] = ite(a[0], D[a[1].id], D[a[2].id])
        elif o == 'fabs':
            d = D[a[0].id]; D[t.id] = zero if d is zero else ite(fcmp('flt', a[0], zero), fop('fneg', d), d)
        elif o == 'fun':
            ds = [D[q.id] for q in a]
            if all(d is zero for d in ds): D[t.id] = zero
            elif t.p == 'sin': D[t.id] = M(fun('cos', 'D', a[0]), ds[0])
            elif t.p == 'cos': D[t.id] = fop('fneg', M(fun('sin', 'D', a[0]), ds[0]))
            elif t.p == 'exp': D[t.id] = M(t, ds[0])
            elif t.p == 'atan': D[t.id] = fop('fdiv', ds[0], fop('fadd', one, fop('fmul', a[0], a[0])))
            elif t.p == 'atan2':
                n = S(M(ds[0], a[1]), M(a[0], ds[1]))
                D[t.id] = zero if n is zero else fop('fdiv', n, fop('fadd', fop('fmul', a[0], a[0]), fop('fmul', a[1], a[1])))
            elif t.p == 'asin': D[t.id] = fop('fdiv', ds[0], fop('fsqrt', fop('fsub', one, fop('fmul', a[0], a[0]))))
            elif t.p == 'acos': D[t.id] = fop('fneg', fop('fdiv', ds[0], fop('fsqrt', fop('fsub', one, fop('fmul', a[0], a[0])))))
            else: raise NotPoly('derivative of ' + t.p)
        else: raise NotPoly('derivative of ' + o)
    return D[root.id]
