from fractions import Fraction
"""Models of LLVM intrinsics, libc/libstdc++ runtime entry points and the vc_* contract primitives."""
from execir import *
import execir

def T(e, st, v=None): return st, v
FIN = {}
def reg(*names):
    def d(f):
        for n in names: FIN[n] = f
        return f
    return d

def dispatch(e, st, name, a, F):
    if name.startswith('llvm.'): return intrinsic(e, st, name, a)
    f = FIN.get(name)
    if f is not None: return f(e, st, a)
    base = 'atan2' if name == 'vc_atan2' else name
    if base in execir.MATHFUN: e.trusted.add(name); return st, fun(base, a[0].sort, *a)
    if base.endswith('f') and base[:-1] in execir.MATHFUN and F is not None and F.decl: return st, fun(base[:-1], a[0].sort, *a)
    return NotImplemented

def intrinsic(e, st, name, a):
    p = name.split('.')
    k = p[1]
    if k in ('lifetime', 'dbg', 'assume', 'experimental', 'invariant', 'stackrestore', 'prefetch', 'va_start', 'va_end'): return st, None
    if k == 'stacksave': return st, NULL
    if k in ('memcpy', 'memmove'): e.memcpy(st, a[0], a[1], a[2]); return st, None
    if k == 'memset': e.memset(st, a[0], a[1], a[2]); return st, None
    if k == 'expect': return st, a[0]
    if k == 'is' and p[2] == 'constant': return st, FALSE
    if k == 'objectsize': return st, bv(-1, 64)
    if k == 'trap' or k == 'ubsantrap': e.oblige(st, FALSE, 'trap unreachable', 'abort'); return None, None
    if k == 'fabs': return st, e.vec(lambda x: fop('fabs', x), a[0])
    if k == 'sqrt': return st, e.vec(lambda x: fop('fsqrt', x), a[0])
    if k in ('floor', 'ceil', 'round', 'trunc'): return st, fop('f' + k, a[0])
    if k == 'rint' or k == 'nearbyint' or k == 'roundeven': return st, fun('rint', a[0].sort, a[0])
    if k == 'copysign': return st, fun('copysign', a[0].sort, *a)
    if k in ('fma', 'fmuladd'): return st, fop('fadd', fop('fmul', a[0], a[1]), a[2])
    if k in ('minnum',): return st, ite(fcmp('flt', a[1], a[0]), a[1], a[0])
    if k in ('maxnum',): return st, ite(fcmp('flt', a[0], a[1]), a[1], a[0])
    if k in ('sin', 'cos', 'pow', 'exp', 'log'): return st, fun(k, a[0].sort, *a)
    if k == 'umin': return st, ite(ult(a[0], a[1]), a[0], a[1])
    if k == 'umax': return st, ite(ult(a[0], a[1]), a[1], a[0])
    if k == 'smin': return st, ite(slt(a[0], a[1]), a[0], a[1])
    if k == 'smax': return st, ite(slt(a[0], a[1]), a[1], a[0])
    if k == 'abs': return st, ite(slt(a[0], bv(0, a[0].sort)), neg(a[0]), a[0])
    if k == 'bswap':
        x = a[0]; n = x.sort // 8
        return st, concat(*[extract(x, 8 * i + 7, 8 * i) for i in range(n)])
    if k in ('umul', 'uadd', 'usub', 'smul', 'sadd', 'ssub') and p[2] == 'with':
        x, y = a; w = x.sort; s = k[0] == 's'; ex = sext if s else zext
        op = {'mul': mul, 'add': add, 'sub': sub}[k[1:]]
        r = op(x, y); big = op(ex(x, 2 * w), ex(y, 2 * w))
        return st, (r, Not(eq(big, ex(r, 2 * w))))
    if k == 'ctpop':
        w = a[0].sort; r = bv(0, w)
        for i in range(w): r = add(r, zext(extract(a[0], i, i), w))
        return st, r
    if k in ('ctlz', 'cttz'):
        w = a[0].sort; r = bv(w, w)
        for i in (range(w) if k == 'ctlz' else reversed(range(w))):
            pos = (w - 1 - i) if k == 'ctlz' else i
            r = ite(eq(extract(a[0], i, i), bv(1, 1)), bv(pos, w), r)
        return st, r
    if k in ('fshl', 'fshr'):
        x, y, z = a; w = x.sort
        if z.op == 'bv':
            s = z.p % w; c = concat(x, y)
            if k == 'fshl': return st, extract(c, 2 * w - 1 - s, w - s)
            return st, extract(c, w - 1 + s, s)
    if k == 'load' or k == 'type': return st, TRUE
    if k == 'eh': return st, bv(0, 32)
    if k == 'umin' : pass
    raise Unsup('intrinsic ' + name)

# ---------------------------------------------------------------- contract primitives
@reg('vc_any_bits')
def _(e, st, a):
    n = e.name(e.cstr(st, a[0])); w = a[1].p
    v = var(n, w); e.inputs.append((n, v)); return st, zext(v, 64)
@reg('vc_any_range')
def _(e, st, a):
    n = e.name(e.cstr(st, a[0])); w = a[1].p
    RANGES[n] = (sval(a[2]), sval(a[3]))
    v = var(n, w); e.inputs.append((n, v)); return st, sext(v, 64)
@reg('vc_any_double')
def _(e, st, a):
    n = e.name(e.cstr(st, a[0])); v = var(n, 'D'); e.inputs.append((n, v)); return st, v
@reg('vc_any_float')
def _(e, st, a):
    n = e.name(e.cstr(st, a[0])); v = var(n, 'F'); e.inputs.append((n, v)); return st, v
@reg('vc_any_bytes')
def _(e, st, a):
    n = e.name(e.cstr(st, a[2])); cnt = a[1].p
    c, oid, off = a[0].alts[0]
    o = st.w(oid)
    for i in range(cnt):
        v = var('%s[%d]' % (n, i), 8); e.inputs.append((v.p, v))
        e.wr(o, off.p + i, 1, v)
    return st, None
@reg('vc_any_array')
def _(e, st, a):
    """symbolic byte array region [p, p+n) in SMT array mode"""
    n = e.name(e.cstr(st, a[2])); cnt = a[1].p
    c, oid, off = a[0].alts[0]
    o = st.w(oid)
    e.clear(o, off.p, cnt)
    v = avar(n); e.inputs.append((n, v))
    o.regs = [r for r in o.regs if not (r[0] == off.p and r[1] == cnt)]
    o.regs.append((off.p, cnt, v))
    return st, None
@reg('vc_assume')
def _(e, st, a):
    g = g_push(st.g, a[0])
    if g is None or a[0] is FALSE: return None, None
    st.g = g; return st, None
@reg('vc_assert')
def _(e, st, a):
    lab = e.cstr(st, a[1])
    e.obs.append(Ob(st.g.lits(), a[0], lab, 'ensures', e.where()))
    return st, None
@reg('vc_assert_real')
def _(e, st, a):
    lab = e.cstr(st, a[2])
    e.obs.append(Ob(st.g.lits(), None, lab, 'real', e.where(), real=(a[0], a[1])))
    return st, None
@reg('vc_assert_near')
def _(e, st, a):
    lab = e.cstr(st, a[3])
    if a[2].op != 'fc': raise Unsup('the bound must be a constant')
    o = Ob(st.g.lits(), None, lab, 'real', e.where(), real=(a[0], a[1])); o.eps = Fraction(fval(a[2]))
    e.obs.append(o)
    return st, None
@reg('vc_deriv')
def _(e, st, a):
    import poly
    n = e.cstr(st, a[1])
    v = [t for k, t in e.inputs if k == n]
    if not v: raise Unsup('no input called ' + n)
    return st, poly.diff(a[0], v[0])
@reg('vc_param')
def _(e, st, a):
    n = e.cstr(st, a[0]); v = var('param.' + n, 'D')
    e.inputs.append((n, v))
    g = g_push(st.g, mk('feq', (v, a[1]), 'B'))
    st.g = g; return st, v
@reg('vc_cover')
def _(e, st, a):
    lab = e.cstr(st, a[0]); e.covers.setdefault(lab, []).append(st.g.lits()); return st, None
@reg('vc_abort_ok')
def _(e, st, a): e.abort_ok = True; return st, None
@reg('vc_is_ir')
def _(e, st, a): return st, bv(1, 32)
@reg('vc_uf')
def _(e, st, a): # uninterpreted real-valued function for specs: vc_uf(name, x)
    return st, fun(e.cstr(st, a[0]), 'D', a[1])

# ---------------------------------------------------------------- runtime
@reg('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')
def _(e, st, a):
    n = a[0]
    o = e.new_obj(st, n.p if n.op == 'bv' else n, 'heap', 'heap%d' % e.oid)
    return st, ptr(o.id)
@reg('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdaPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def _(e, st, a):
    for c, oid, off in a[0].alts:
        if oid == 0 or isinstance(oid, tuple): continue
        o = st.mem.get(oid)
        if o is None: continue
        e.oblige(st, Implies(c, And(Not(o.freed), eq(off, Z64))), 'free of a live heap block', 'mem')
        o = st.w(oid); o.freed = Or(o.freed, c)
    return st, None
@reg('memcpy', 'memmove')
def _(e, st, a): e.memcpy(st, a[0], a[1], a[2]); return st, a[0]
@reg('memset')
def _(e, st, a): e.memset(st, a[0], extract(a[1], 7, 0), a[2]); return st, a[0]
@reg('memcmp')
def _(e, st, a):
    n = a[2]
    if n.op != 'bv': raise Unsup('memcmp symbolic')
    r = bv(0, 32)
    for i in reversed(range(n.p)):
        x = e.load(st, e.padd(a[0], i), ('int', 8)); y = e.load(st, e.padd(a[1], i), ('int', 8))
        r = ite(eq(x, y), r, ite(ult(x, y), bv(-1, 32), bv(1, 32)))
    return st, r
@reg('strlen')
def _(e, st, a):
    try: return st, bv(len(e.cstr(st, a[0])), 64)
    except Exception: pass
    raise Unsup('strlen')
@reg('__cxa_guard_acquire')
def _(e, st, a): return st, bv(1, 32)
@reg('__cxa_guard_release')
def _(e, st, a):
    e.store_(st, a[0], ('int', 8), bv(1, 8)); return st, None
@reg('__cxa_atexit', '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev', 'srand', '__cxa_begin_catch', '__cxa_end_catch')
def _(e, st, a): return st, bv(0, 32)
@reg('fabs', 'fabsf')
def _(e, st, a): return st, fop('fabs', a[0])
@reg('sqrt', 'sqrtf')
def _(e, st, a): return st, fop('fsqrt', a[0])
@reg('floor', 'floorf')
def _(e, st, a): return st, fop('ffloor', a[0])
@reg('ceil')
def _(e, st, a): return st, fop('fceil', a[0])
@reg('round')
def _(e, st, a): return st, fop('fround', a[0])
@reg('trunc')
def _(e, st, a): return st, fop('ftrunc', a[0])
@reg('abs')
def _(e, st, a): return st, ite(slt(a[0], bv(0, 32)), neg(a[0]), a[0])
@reg('labs', 'llabs')
def _(e, st, a): return st, ite(slt(a[0], bv(0, 64)), neg(a[0]), a[0])
@reg('rand', 'random')
def _(e, st, a):
    v = e.fresh('rand', 32); st.g = g_push(st.g, Not(slt(v, bv(0, 32)))); return st, v

def aborter(what):
    def f(e, st, a):
        if not getattr(e, 'abort_ok', False):
            e.obs.append(Ob(st.g.lits(), FALSE, 'no abnormal termination (%s)' % what, 'abort', e.where()))
        return None, None
    return f
for n in ('abort', 'exit', '_Exit', '__cxa_throw', '__cxa_rethrow', '_ZSt9terminatev', '__assert_fail', '_ZSt20__throw_length_errorPKc', '_ZSt20__throw_out_of_rangePKc',
          '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt17__throw_bad_allocv', '_ZSt19__throw_logic_errorPKc', '_ZSt28__throw_bad_array_new_lengthv', '__clang_call_terminate', '_ZSt25__throw_bad_function_callv'):
    FIN[n] = aborter(n)
