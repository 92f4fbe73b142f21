"""SMT-LIB printing of irvc terms and solver driving."""
import math, os, subprocess, tempfile, time, threading, struct, shutil, signal
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
from terms import *
import terms as T_

class Unsupported(Exception): pass

def srt(s, mode):
    if s == 'B': return 'Bool'
    if s == 'D': return 'Real' if mode == 'int' else '(_ FloatingPoint 11 53)'
    if s == 'F': return 'Real' if mode == 'int' else '(_ FloatingPoint 8 24)'
    if s == 'A':
        if mode == 'int': raise Unsupported('array in int mode')
        return '(Array (_ BitVec 64) (_ BitVec 8))'
    return 'Int' if mode == 'int' else '(_ BitVec %d)' % s
def bvlit(v, w): return '#b' + format(v & ((1 << w) - 1), '0%db' % w) if w % 4 else '#x' + format(v & ((1 << w) - 1), '0%dx' % (w // 4))

def meet(a, b):
    if a is None: return b
    m = lambda f, x, y: y if x is None else x if y is None else f(x, y)
    return (m(max, a[0], b[0]), m(min, a[1], b[1]))
def bounds(f, neg=False, memo=None):
    """term id -> (lo, hi) implied by a formula (None: unbounded); used only while that formula is asserted"""
    if memo is None: memo = {}
    k = (f.id, neg)
    if k in memo: return memo[k]
    memo[k] = {}
    r = {}
    if f.op == 'not': r = bounds(f.args[0], not neg, memo)
    elif f.op == ('or' if neg else 'and'):
        for x in f.args:
            for t, v in bounds(x, neg, memo).items(): r[t] = meet(r.get(t), v)
    elif f.op == ('and' if neg else 'or'):
        bs = [bounds(x, neg, memo) for x in f.args]
        for t in set.intersection(*[set(b) for b in bs]) if bs else ():
            los = [b[t][0] for b in bs]; his = [b[t][1] for b in bs]
            r[t] = (None if None in los else min(los), None if None in his else max(his))
    elif f.op in ('slt', 'flt', 'fle') or f.op in ('eq', 'feq') and not neg:
        a, b = f.args
        def cv(t):
            if t.op == 'bv': return sval(t)
            if t.op == 'fc':
                v = fval(t)
                return nice_rational(v) if math.isfinite(v) else None
            return None
        ca, cb = cv(a), cv(b)
        if f.op == 'slt':
            if cb is not None: r[a.id] = (None, cb - 1) if not neg else (cb, None)
            elif ca is not None: r[b.id] = (ca + 1, None) if not neg else (None, ca)
        elif f.op in ('flt', 'fle'):
            if cb is not None: r[a.id] = (None, cb) if not neg else (cb, None)
            elif ca is not None: r[b.id] = (ca, None) if not neg else (None, ca)
        else:
            if cb is not None and a.sort != 'B': r[a.id] = (cb, cb)
            elif ca is not None and b.sort != 'B': r[b.id] = (ca, ca)
    memo[k] = r
    return r

class Printer:
    """mode: 'uf' (fp arithmetic uninterpreted), 'fpa' (exact IEEE), 'int' (integers and reals)"""
    def __init__(self, mode):
        self.lin = mode == 'int2'
        if mode == 'int2': mode = 'int'
        self.mode = mode
        self.decls = []; self.defs = []; self.name = {}; self.rng = {}
        self.funs = {}; self.inputs = []
        self.side = []
        self.bnd = {}; self.frng = {}
    def ref(self, t): return self.name[t.id]
    def define(self, roots):
        if self.mode == 'int':
            for r in roots:
                b = bounds(r)
                for k, v in b.items(): self.bnd[k] = meet(self.bnd.get(k), v)
        for t in postorder(roots):
            if t.id in self.name: continue
            e = self.pr_int(t) if self.mode == 'int' else self.pr(t)
            if len(e) > 12 and not e.startswith('((_ to_fp'):
                n = 't%d' % t.id
                self.defs.append('(define-fun %s () %s %s)' % (n, srt(t.sort, self.mode), e))
                self.name[t.id] = n
            else:
                self.name[t.id] = e
    def uf(self, name, argsorts, ret):
        k = (name, tuple(argsorts), ret)
        if k not in self.funs:
            n = '|u_%s_%s|' % (name, ''.join(str(a) for a in argsorts))
            self.funs[k] = n
            self.decls.append('(declare-fun %s (%s) %s)' % (n, ' '.join(srt(a, self.mode) for a in argsorts), srt(ret, self.mode)))
        return self.funs[k]
    @property
    def axdone(self):
        if not hasattr(self, '_axdone'): self._axdone = set()
        return self._axdone
    def app(self, name, t):
        n = self.uf(name, [a.sort for a in t.args], t.sort)
        return '(%s %s)' % (n, ' '.join(self.ref(a) for a in t.args)) if t.args else n
    def bool_common(self, t):
        o = t.op; R = self.ref; a = t.args
        if o == 'true': return 'true'
        if o == 'false': return 'false'
        if o == 'not': return '(not %s)' % R(a[0])
        if o == 'and': return '(and %s)' % ' '.join(map(R, a))
        if o == 'or': return '(or %s)' % ' '.join(map(R, a))
        if o == 'ite': return '(ite %s %s %s)' % tuple(map(R, a))
        if o in ('eq', 'iff'): return '(= %s %s)' % (R(a[0]), R(a[1]))
        return None
    def pr(self, t):
        o = t.op; R = self.ref; a = t.args; w = t.sort
        e = self.bool_common(t)
        if e: return e
        if o == 'var':
            n = '|%s|' % t.p
            if t.sort in ('D', 'F'):
                eb, sb, tot = (11, 53, 64) if t.sort == 'D' else (8, 24, 32)
                self.decls.append('(declare-const |%s!b| (_ BitVec %d))' % (t.p, tot))
                self.inputs.append((t, '|%s!b|' % t.p))
                self.defs.append('(define-fun %s () %s ((_ to_fp %d %d) |%s!b|))' % (n, srt(t.sort, self.mode), eb, sb, t.p))
            else:
                self.decls.append('(declare-const %s %s)' % (n, srt(t.sort, self.mode)))
                if t.sort != 'A': self.inputs.append((t, n))
                if t.p in RANGES and isinstance(w, int):
                    lo, hi = RANGES[t.p]
                    self.side.append('(and (bvsle %s %s) (bvsle %s %s))' % (bvlit(lo, w), n, n, bvlit(hi, w)))
            return n
        if o == 'bv': return bvlit(t.p, w)
        if o == 'lin':
            xs = []
            if t.p[0]: xs.append(bvlit(t.p[0], w))
            for k, x in zip(t.p[1], a):
                ks = to_s(k, w)
                if k == 1: xs.append(R(x))
                elif ks == -1: xs.append('(bvneg %s)' % R(x))
                elif ks > 0 and ks & (ks - 1) == 0: xs.append('(bvshl %s %s)' % (R(x), bvlit(ks.bit_length() - 1, w)))
                else: xs.append('(bvmul %s %s)' % (bvlit(k, w), R(x)))
            return xs[0] if len(xs) == 1 else '(bvadd %s)' % ' '.join(xs)
        m = {'mul': 'bvmul', 'udiv': 'bvudiv', 'urem': 'bvurem', 'sdiv': 'bvsdiv', 'srem': 'bvsrem', 'shl': 'bvshl', 'lshr': 'bvlshr',
             'ashr': 'bvashr', 'band': 'bvand', 'bor': 'bvor', 'bxor': 'bvxor', 'bnot': 'bvnot', 'ult': 'bvult', 'slt': 'bvslt', 'concat': 'concat', 'select': 'select', 'store': 'store'}
        if o in ('band', 'bor', 'bxor', 'concat') and len(a) > 2:
            r = R(a[0])
            for x in a[1:]: r = '(%s %s %s)' % (m[o], r, R(x))
            return r
        if o in m: return '(%s %s)' % (m[o], ' '.join(map(R, a)))
        if o == 'extract': return '((_ extract %d %d) %s)' % (t.p[0], t.p[1], R(a[0]))
        if o == 'sext': return '((_ sign_extend %d) %s)' % (w - a[0].sort, R(a[0]))
        if o == 'aconst': return '((as const %s) %s)' % (srt('A', self.mode), R(a[0]))
        if o == 'fc':
            return '((_ to_fp %s) %s)' % ('11 53' if w == 'D' else '8 24', bvlit(t.p, 64 if w == 'D' else 32))
        if o == 'feq': return '(fp.eq %s %s)' % (R(a[0]), R(a[1]))
        if o == 'flt': return '(fp.lt %s %s)' % (R(a[0]), R(a[1]))
        if o == 'fle': return '(fp.leq %s %s)' % (R(a[0]), R(a[1]))
        if o == 'funo': return '(or (fp.isNaN %s) (fp.isNaN %s))' % (R(a[0]), R(a[1]))
        if o == 'fisnan': return '(fp.isNaN %s)' % R(a[0])
        if o == 'fneg': return '(fp.neg %s)' % R(a[0])
        if o == 'fabs': return '(fp.abs %s)' % R(a[0])
        if o == 'ffrom': return '((_ to_fp %s) %s)' % ('11 53' if w == 'D' else '8 24', R(a[0]))
        if o == 'fun': return self.app('fun_' + t.p, t)
        if o == 'fbits':
            # not a function in SMT-LIB FP (NaN payload): fresh variable constrained by to_fp
            tot = 64 if a[0].sort == 'D' else 32
            n = '|fb%d|' % t.id
            self.decls.append('(declare-const %s (_ BitVec %d))' % (n, tot))
            self.side.append('(= ((_ to_fp %s) %s) %s)' % ('11 53' if tot == 64 else '8 24', n, R(a[0])))
            return n
        if self.mode == 'uf' and o in ('fadd', 'fsub', 'fmul', 'fdiv', 'fsqrt', 'ffloor', 'fceil', 'fround', 'ftrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            return self.app('%s_%s' % (o, w), t)
        rm = 'RNE'
        if o == 'fadd': return '(fp.add RNE %s %s)' % (R(a[0]), R(a[1]))
        if o == 'fsub': return '(fp.sub RNE %s %s)' % (R(a[0]), R(a[1]))
        if o == 'fmul': return '(fp.mul RNE %s %s)' % (R(a[0]), R(a[1]))
        if o == 'fdiv': return '(fp.div RNE %s %s)' % (R(a[0]), R(a[1]))
        if o == 'fsqrt': return '(fp.sqrt RNE %s)' % R(a[0])
        if o == 'ffloor': return '(fp.roundToIntegral RTN %s)' % R(a[0])
        if o == 'fceil': return '(fp.roundToIntegral RTP %s)' % R(a[0])
        if o == 'fround': return '(fp.roundToIntegral RNA %s)' % R(a[0])
        if o == 'ftrunc': return '(fp.roundToIntegral RTZ %s)' % R(a[0])
        fs = {'D': '11 53', 'F': '8 24'}
        if o == 'sitofp': return '((_ to_fp %s) RNE %s)' % (fs[w], R(a[0]))
        if o == 'uitofp': return '((_ to_fp_unsigned %s) RNE %s)' % (fs[w], R(a[0]))
        if o == 'fptosi': return '((_ fp.to_sbv %d) RTZ %s)' % (w, R(a[0]))
        if o == 'fptoui': return '((_ fp.to_ubv %d) RTZ %s)' % (w, R(a[0]))
        if o == 'fpext': return '((_ to_fp 11 53) RNE %s)' % R(a[0])
        if o == 'fptrunc': return '((_ to_fp 8 24) RNE %s)' % R(a[0])
        raise Unsupported(o)
    # ------------------------------------------------------------ integer mode
    def _rat(self, f):
        f = Fraction(f)
        s = '%d.0' % abs(f.numerator) if f.denominator == 1 else '(/ %d.0 %d.0)' % (abs(f.numerator), f.denominator)
        return s if f >= 0 else '(- %s)' % s
    def _il(self, v): return str(v) if v >= 0 else '(- %d)' % -v
    def wrap(self, e, w, lo, hi):
        H = 1 << (w - 1)
        if lo >= -H and hi < H: return e, lo, hi
        # single wrap-around is common: keep mod
        return '(- (mod (+ %s %d) %d) %d)' % (e, H, 2 * H, H), -H, H - 1
    def u(self, t):
        """unsigned integer value of bv term -> (expr, lo, hi)"""
        lo, hi = self.rng[t.id]
        if lo >= 0: return self.ref(t), lo, hi
        ul, uh = urange(t)
        return '(ite (< {0} 0) (+ {0} {1}) {0})'.format(self.ref(t), 1 << t.sort), ul, uh
    def frange(self, t):
        """interval of a real-valued term, from the bounds the query asserts"""
        o = t.op; a = t.args; f = self.frng; lo = hi = None
        g = lambda x: f.get(x.id, (None, None))
        if o == 'fc':
            v = fval(t)
            if math.isfinite(v): lo = hi = nice_rational(v)
        elif o in ('sitofp',):
            lo, hi = self.rng.get(a[0].id, (None, None))
        elif o == 'uitofp': _, lo, hi = self.u(a[0])
        elif o == 'fneg':
            l, h = g(a[0]); lo = None if h is None else -h; hi = None if l is None else -l
        elif o in ('fadd', 'fsub'):
            l1, h1 = g(a[0]); l2, h2 = g(a[1])
            if o == 'fsub': l2, h2 = (None if h2 is None else -h2), (None if l2 is None else -l2)
            lo = None if l1 is None or l2 is None else l1 + l2
            hi = None if h1 is None or h2 is None else h1 + h2
        elif o == 'fmul':
            ps = g(a[0]) + g(a[1])
            if None not in ps:
                q = [ps[0] * ps[2], ps[0] * ps[3], ps[1] * ps[2], ps[1] * ps[3]]; lo, hi = min(q), max(q)
        elif o == 'fdiv':
            ps = g(a[0]) + g(a[1])
            if None not in ps and (ps[2] > 0 or ps[3] < 0):
                q = [Fraction(ps[0]) / ps[2], Fraction(ps[0]) / ps[3], Fraction(ps[1]) / ps[2], Fraction(ps[1]) / ps[3]]; lo, hi = min(q), max(q)
        elif o in ('fpext', 'fptrunc'): lo, hi = g(a[0])
        elif o == 'ffloor':
            l, h = g(a[0]); lo = None if l is None else math.floor(l); hi = None if h is None else math.floor(h)
        elif o in ('fceil', 'fround', 'ftrunc'):
            l, h = g(a[0]); lo = None if l is None else math.floor(l); hi = None if h is None else math.ceil(h)
        elif o == 'fabs':
            l, h = g(a[0]); lo = 0
            if None not in (l, h): hi = max(abs(l), abs(h))
        elif o == 'ite':
            l1, h1 = g(a[1]); l2, h2 = g(a[2])
            lo = None if l1 is None or l2 is None else min(l1, l2)
            hi = None if h1 is None or h2 is None else max(h1, h2)
        b = self.bnd.get(t.id)
        if b is not None: lo, hi = meet((lo, hi), b)
        f[t.id] = (lo, hi)
    def pr_int(self, t):
        o = t.op; R = self.ref; a = t.args; w = t.sort
        if w == 'B':
            e = self.bool_common(t)
            if e: return e
            if o == 'slt': return '(< %s %s)' % (R(a[0]), R(a[1]))
            if o == 'ult': return '(< %s %s)' % (self.u(a[0])[0], self.u(a[1])[0])
            if o == 'feq': return '(= %s %s)' % (R(a[0]), R(a[1]))
            if o == 'flt': return '(< %s %s)' % (R(a[0]), R(a[1]))
            if o == 'fle': return '(<= %s %s)' % (R(a[0]), R(a[1]))
            if o in ('funo', 'fisnan'): return 'false'
            if o == 'var':
                n = '|%s|' % t.p
                self.decls.append('(declare-const %s Bool)' % n); self.inputs.append((t, n)); return n
            raise Unsupported(o)
        if w in ('D', 'F'):
            self.frange(t)
            if o == 'var':
                n = '|%s|' % t.p
                self.decls.append('(declare-const %s Real)' % n); self.inputs.append((t, n)); return n
            if o == 'fc':
                v = fval(t)
                if not math.isfinite(v): raise Unsupported('non-finite constant')
                return self._rat(nice_rational(v))
            if o == 'ite': return self.bool_common(t)
            if o == 'fadd': return '(+ %s %s)' % (R(a[0]), R(a[1]))
            if o == 'fsub': return '(- %s %s)' % (R(a[0]), R(a[1]))
            if o == 'fmul': return '(* %s %s)' % (R(a[0]), R(a[1]))
            if o == 'fdiv': return '(/ %s %s)' % (R(a[0]), R(a[1]))
            if o == 'fneg': return '(- %s)' % R(a[0])
            if o == 'fabs': return '(ite (< {0} 0.0) (- {0}) {0})'.format(R(a[0]))
            if o == 'sitofp': return '(to_real %s)' % R(a[0])
            if o == 'uitofp': return '(to_real %s)' % self.u(a[0])[0]
            if o in ('fpext', 'fptrunc'): return R(a[0])
            if o == 'ffloor': return '(to_real (to_int %s))' % R(a[0])
            if o == 'fceil': return '(- (to_real (to_int (- %s))))' % R(a[0])
            if o == 'fround': return '(ite (< {0} 0.0) (- (to_real (to_int (+ (- {0}) 0.5)))) (to_real (to_int (+ {0} 0.5))))'.format(R(a[0]))
            if o == 'fun':
                e = self.app('fun_' + t.p, t); x = [R(y) for y in a]
                key = (t.p,) + tuple(x)
                if key not in self.axdone and w == 'D':
                    # facts about the library's elementary functions, read as the real functions
                    self.axdone.add(key); PI = self._rat(nice_rational(math.pi))
                    if t.p in ('sin', 'cos'):
                        sn = '(%s %s)' % (self.uf('fun_sin', ['D'], 'D'), x[0]); cs = '(%s %s)' % (self.uf('fun_cos', ['D'], 'D'), x[0])
                        self.axdone.add(('sin', x[0])); self.axdone.add(('cos', x[0]))
                        for y0, s0, c0 in getattr(self, 'trigs', [])[:4]:
                            ab = lambda z: '(ite (< {0} 0.0) (- {0}) {0})'.format(z)
                            for u_, v_ in ((sn, s0), (cs, c0)): self.side.append('(<= %s %s)' % (ab('(- %s %s)' % (u_, v_)), ab('(- %s %s)' % (x[0], y0))))
                        self.trigs = getattr(self, 'trigs', []) + [(x[0], sn, cs)]
                        self.side.append('(and (<= (- 1.0) {0}) (<= {0} 1.0) (<= (- 1.0) {1}) (<= {1} 1.0) (= (+ (* {0} {0}) (* {1} {1})) 1.0) (=> (and (< 0.0 {2}) (< {2} {3})) (< 0.0 {0})) (=> (= {2} 0.0) (and (= {0} 0.0) (= {1} 1.0))))'.format(sn, cs, x[0], PI))
                    elif t.p == 'atan2':
                        self.side.append('(and (<= (- {3}) {0}) (<= {0} {3}) (=> (> {1} 0.0) (and (< 0.0 {0}) (< {0} {3}))) (=> (< {1} 0.0) (and (< {0} 0.0) (< (- {3}) {0}))) (=> (and (= {1} 0.0) (> {2} 0.0)) (= {0} 0.0)) (=> (> {2} 0.0) (and (< (- {3}) (* 2.0 {0})) (< (* 2.0 {0}) {3}))))'.format(e, x[0], x[1], PI))
                    elif t.p == 'acos':
                        self.side.append('(and (<= 0.0 {0}) (<= {0} {2}) (=> (= {1} 1.0) (= {0} 0.0)) (=> (and (< (- 1.0) {1}) (< {1} 1.0)) (and (< 0.0 {0}) (< {0} {2}))))'.format(e, x[0], PI))
                    elif t.p == 'asin':
                        self.side.append('(and (<= (- {1}) (* 2.0 {0})) (<= (* 2.0 {0}) {1}))'.format(e, PI))
                return e
            if o == 'fsqrt':
                e = self.app('sqrt', t); x = R(a[0])
                if ('sqrt', x) not in self.axdone and w == 'D':
                    self.axdone.add(('sqrt', x))
                    self.side.append('(=> (>= {1} 0.0) (and (>= {0} 0.0) (= (* {0} {0}) {1})))'.format(e, x))
                return e
            raise Unsupported(o)
        if w == 'A': raise Unsupported('array')
        H = 1 << (w - 1)
        def done(e, lo, hi):
            b = self.bnd.get(t.id)
            if b is not None:
                # the query asserts this bound as a conjunct, so it may be used wherever the term is used
                if b[0] is not None: lo = max(lo, b[0])
                if b[1] is not None: hi = min(hi, b[1])
                if lo > hi: hi = lo
            self.rng[t.id] = (lo, hi)
            return e
        if o == 'bv': v = sval(t); return done(self._il(v), v, v)
        if o == 'var':
            n = '|%s|' % t.p
            self.decls.append('(declare-const %s Int)' % n); self.inputs.append((t, n))
            lo, hi = RANGES.get(t.p, (-H, H - 1))
            self.side.append('(and (<= %s %s) (<= %s %s))' % (self._il(lo), n, n, self._il(hi)))
            return done(n, lo, hi)
        if o == 'ite':
            l1, h1 = self.rng[a[1].id]; l2, h2 = self.rng[a[2].id]
            return done(self.bool_common(t), min(l1, l2), max(h1, h2))
        if o == 'lin':
            c = to_s(t.p[0], w); lo = hi = c
            xs = [self._il(c)] if c else []
            for k, x in zip(t.p[1], a):
                k = to_s(k, w); l, h = self.rng[x.id]
                if k >= 0: lo += k * l; hi += k * h
                else: lo += k * h; hi += k * l
                xs.append(R(x) if k == 1 else '(* %s %s)' % (self._il(k), R(x)))
            e = xs[0] if len(xs) == 1 else '(+ %s)' % ' '.join(xs)
            return done(*self.wrap(e, w, lo, hi))
        if o == 'mul':
            (l1, h1), (l2, h2) = self.rng[a[0].id], self.rng[a[1].id]
            ps = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
            return done(*self.wrap('(* %s %s)' % (R(a[0]), R(a[1])), w, min(ps), max(ps)))
        if o in ('sdiv', 'srem', 'udiv', 'urem') and a[1].op == 'bv' and a[1].p:
            if o[0] == 'u':
                x, lo, hi = self.u(a[0]); c = a[1].p
            else:
                x = R(a[0]); lo, hi = self.rng[a[0].id]; c = sval(a[1])
                if c < 0: raise Unsupported('neg div')
            if self.lin:
                k = '%d_%d_%s' % (a[0].id, c, o[0])
                if k not in self.funs:
                    self.funs[k] = k
                    self.defs.append('(declare-const q%s Int)' % k); self.defs.append('(declare-const r%s Int)' % k)
                    ps = '(and (<= 0 r{0}) (< r{0} {1}))'.format(k, c); ng = '(and (>= 0 r{0}) (> r{0} (- {1})))'.format(k, c)
                    self.side.append('(= %s (+ (* %d q%s) r%s))' % (x, c, k, k))
                    self.side.append(ps if lo >= 0 else ng if hi <= 0 else '(ite (>= %s 0) %s %s)' % (x, ps, ng))
                if o.endswith('div'): return done(*self.wrap('q' + k, w, lo // c if lo >= 0 else -((-lo) // c), hi // c if hi >= 0 else -((-hi) // c)))
                return done(*self.wrap('r' + k, w, 0 if lo >= 0 else -(c - 1), min(c - 1, hi) if hi >= 0 else 0))
            if o.endswith('div'):
                if lo >= 0: e, l2, h2 = '(div %s %d)' % (x, c), lo // c, hi // c
                else: e, l2, h2 = '(ite (>= {0} 0) (div {0} {1}) (- (div (- {0}) {1})))'.format(x, c), -((-lo) // c), max(hi // c if hi >= 0 else 0, 0)
            else:
                if lo >= 0: e, l2, h2 = '(mod %s %d)' % (x, c), 0, min(c - 1, hi)
                else: e, l2, h2 = '(ite (>= {0} 0) (mod {0} {1}) (- (mod (- {0}) {1})))'.format(x, c), -(c - 1), c - 1
            return done(*self.wrap(e, w, l2, h2))
        if o == 'sext': 
            return done(R(a[0]), *self.rng[a[0].id])
        if o == 'extract':
            hi_, lo_ = t.p
            if lo_ == 0:
                lo, hi = self.rng[a[0].id]
                return done(*self.wrap(R(a[0]), w, lo, hi))
            x, lo, hi = self.u(a[0])
            return done(*self.wrap('(div %s %d)' % (x, 1 << lo_), w, lo >> lo_, hi >> lo_))
        if o == 'concat':
            xs = []; lo = hi = 0; pos = w
            for p in a:
                pos -= p.sort
                e, l, h = self.u(p)
                lo += l << pos; hi += h << pos
                if p.op == 'bv' and p.p == 0: continue
                xs.append('(* %s %d)' % (e, 1 << pos) if pos else e)
            e = xs[0] if len(xs) == 1 else '(+ %s)' % ' '.join(xs)
            return done(*self.wrap(e, w, lo, hi))
        if o == 'bnot':
            lo, hi = self.rng[a[0].id]
            return done('(- (- %s) 1)' % R(a[0]), -hi - 1, -lo - 1)
        if o == 'fptosi':
            fl, fh = self.frng.get(a[0].id, (None, None))
            if fl is not None and fh is not None and math.floor(fl) >= -H and math.ceil(fh) < H:
                # truncation towards zero as an integer variable with its defining inequalities (linear)
                k = 'fi%d_%d' % (a[0].id, w); x = R(a[0])
                self.defs.append('(declare-const %s Int)' % k)
                pos = '(and (<= (to_real {0}) {1}) (< {1} (+ (to_real {0}) 1.0)))'.format(k, x)
                neg_ = '(and (>= (to_real {0}) {1}) (> {1} (- (to_real {0}) 1.0)))'.format(k, x)
                self.side.append(pos if fl >= 0 else neg_ if fh <= 0 else '(ite (>= %s 0.0) %s %s)' % (x, pos, neg_))
                return done(k, math.floor(fl) if fl < 0 else int(fl), math.ceil(fh) if fh > 0 else int(fh))
            return done('(ite (>= {0} 0.0) (to_int {0}) (- (to_int (- {0}))))'.format(R(a[0])), -H, H - 1)
        raise Unsupported(o)

def nice_rational(v):
    """the simplest rational that rounds to the double v"""
    f = Fraction(v)
    if f.denominator == 1: return f
    for d in (10, 100, 1000, 10**4, 10**5):
        g = f.limit_denominator(d)
        if float(g) == v: return g
    g = Fraction(repr(v))
    return g

SOLVERS = {
    'z3': lambda f, t: ['z3-new', '-smt2', '-T:%d' % t, f],
    'z3old': lambda f, t: ['/usr/bin/z3', '-smt2', '-T:%d' % t, f],
    'cvc5': lambda f, t: ['cvc5', '--tlimit=%d' % (t * 1000), f],
    'cvc5bi': lambda f, t: ['cvc5', '--tlimit=%d' % (t * 1000), '--solve-bv-as-int=sum', f],
}

def script(formulas, mode, logic=None):
    """check-sat script for the conjunction of formulas"""
    p = Printer(mode)
    p.define(formulas)
    lines = ['(set-option :produce-models true)', '(set-logic %s)' % (logic or 'ALL')]
    # decl order: declarations first (they never depend on definitions)
    lines += p.decls + p.defs
    for s in p.side: lines.append('(assert %s)' % s)
    for f in formulas: lines.append('(assert %s)' % p.ref(f))
    lines.append('(check-sat)')
    return lines, p

def _parse_sexp(s):
    toks = []; i = 0; n = len(s)
    while i < n:
        c = s[i]
        if c in '()': toks.append(c); i += 1
        elif c.isspace(): i += 1
        elif c == '|':
            j = s.index('|', i + 1); toks.append(s[i:j + 1]); i = j + 1
        else:
            j = i
            while j < n and not s[j].isspace() and s[j] not in '()': j += 1
            toks.append(s[i:j]); i = j
    def rd(k):
        if toks[k] == '(':
            r = []; k += 1
            while toks[k] != ')':
                x, k = rd(k); r.append(x)
            return r, k + 1
        return toks[k], k + 1
    return rd(0)[0] if toks else None
def _ev(x):
    if isinstance(x, list):
        if x[0] == '-' and len(x) == 2: return -_ev(x[1])
        if x[0] == '-' : return _ev(x[1]) - _ev(x[2])
        if x[0] == '/': return Fraction(_ev(x[1])) / Fraction(_ev(x[2]))
        if x[0] == '_' and x[1].startswith('bv'): return int(x[1][2:])
        if x[0] == 'to_real': return _ev(x[1])
        raise ValueError(x)
    if x.startswith('#b'): return int(x[2:], 2)
    if x.startswith('#x'): return int(x[2:], 16)
    if x in ('true', 'false'): return x == 'true'
    if '.' in x: return Fraction(x)
    return int(x)

class Runner:
    def __init__(self, scratch, jobs=8):
        self.scratch = scratch; self.jobs = jobs
        self.pool = ThreadPoolExecutor(jobs)
        self.time = 0.0; self.n = 0; self.by = {}; self.deadline = None
        self.lock = threading.Lock()
        self.k = 0
    def _run(self, cmd, tmo):
        t0 = time.time()
        try:
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, start_new_session=True)
            try:
                out, _ = p.communicate(timeout=tmo + 5)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL); p.wait(); out = 'timeout'
        except FileNotFoundError:
            out = 'error'
        dt = time.time() - t0
        with self.lock: self.time += dt; self.n += 1
        return out
    def check(self, formulas, plan):
        """plan: list of (solver, mode, seconds); returns (answer, model, solvername); tried in order until an answer is definitive.
        A 'sat' answer in uf mode is only a candidate (arithmetic uninterpreted): continue with the next entry."""
        cand = None
        cache = {}
        for solver, mode, tmo in plan:
            if self.deadline is not None:
                left = self.deadline - time.time()
                if left < 1: break
                tmo = min(tmo, int(left) + 1)
            try:
                if mode not in cache: cache[mode] = script(formulas, mode)
            except Unsupported as e:
                continue
            lines, p = cache[mode]
            names = [n for _, n in p.inputs]
            txt = '\n'.join(lines) + ('\n(get-value (%s))' % ' '.join(names) if names else '') + '\n'
            with self.lock:
                self.k += 1; f = os.path.join(self.scratch, 'q%d.smt2' % self.k)
            with open(f, 'w') as fh: fh.write(txt)
            out = self._run(SOLVERS[solver](f, tmo), tmo)
            first = out.strip().split('\n', 1)
            ans = first[0].strip()
            if not os.environ.get('IRVC_KEEP'): os.unlink(f)
            if ans == 'unsat':
                with self.lock: self.by[solver + '/' + mode] = self.by.get(solver + '/' + mode, 0) + 1
                return 'unsat', None, solver + '/' + mode
            if ans == 'sat':
                model = {}
                try:
                    sx = _parse_sexp(first[1])
                    mp = {n: v for n, v in ((x[0], x[1]) for x in sx)}
                    for t, n in p.inputs:
                        if n in mp:
                            try: model[t.p] = (t.sort, mode, _ev(mp[n]))
                            except Exception: pass
                except Exception: pass
                has_f = mode == 'uf' and any('|u_' in d for d in p.decls)
                if has_f or mode == 'int' and any('|u_' in d for d in p.decls):
                    cand = ('sat?', model, solver + '/' + mode)
                    continue
                return 'sat', model, solver + '/' + mode
        return cand or ('unknown', None, None)
