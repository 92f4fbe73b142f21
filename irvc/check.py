#!/usr/bin/env python3-vt
"""irvc driver: verify every contract of one property against /repo's current source."""
import sys, os, re, json, time, subprocess, tempfile, shutil, threading, hashlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(200000)
from concurrent.futures import ThreadPoolExecutor
import terms, smt, execir, poly
from terms import *
from execir import Exec, Module, Unsup, St, g_root, Ob
REPO = os.environ.get('IRVC_REPO', '/repo')
CLANG = 'clang++-18'; OPT = '/usr/lib/llvm-18/bin/opt'
INC = ['-I' + HERE, '-I' + VERIF + '/contracts', '-I' + REPO, '-I/usr/include/eigen3']
DEFS = ['-DNDEBUG', '-DFMT_DEPRECATED_OSTREAM', '-DCHECK_THROW', '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_MAX_ALIGN_BYTES=0' if False else '-DIRVC']
PASSES = 'function(sroa,early-cse,simplifycfg<no-switch-to-lookup;no-sink-common-insts>),function(instsimplify,loop-simplify,lcssa)'

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

class Fail(Exception): pass

def tool_irx(scratch):
    b = os.path.join(VERIF, 'build', 'irx')
    src = os.path.join(HERE, 'irx.cpp')
    if os.path.exists(b) and os.path.getmtime(b) >= os.path.getmtime(src): return b
    out = os.path.join(scratch, 'irx')
    r = sh([CLANG, '-O1', '-std=c++17', '-I/usr/lib/llvm-18/include', src, '-o', out, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
    if r.returncode: raise Fail('building irx: ' + r.stdout[-2000:])
    return out

def parse_opts(s):
    o = {}
    for x in s.split(','):
        x = x.strip()
        if not x: continue
        k, _, v = x.partition('=')
        o[k] = v if _ else '1'
    return o

def directives(src):
    d = {}
    for l in open(src):
        m = re.match(r'//@\s*(\w+):\s*(.*)', l)
        if m: d.setdefault(m.group(1), []).append(m.group(2).strip())
        m = re.match(r'#include "([^"/]+)"', l)
        if m and os.path.exists(os.path.join(VERIF, 'contracts', m.group(1))):
            for k, v in directives(os.path.join(VERIF, 'contracts', m.group(1))).items(): d.setdefault(k, []).extend(v)
    return d

class Prop:
    def __init__(self, pid, tier, scratch):
        self.pid = pid; self.tier = tier; self.scratch = scratch
        self.src = os.path.join(VERIF, 'contracts', pid + '.cpp')
        self.dirs = directives(self.src)
        self.extra = [x.replace('$REPO', REPO).replace('$GEN', scratch + '/gen') for l in self.dirs.get('flags', []) for x in l.split()]
        self.assumptions = list(self.dirs.get('assume', []))
        self.native = None; self.native_err = None; self.native_lock = threading.Lock()
    def generate(self):
        for l in self.dirs.get('generate', []):         # code /repo generates at build time is generated again from its current source
            d, _, c = l.partition(':'); d = d.strip().replace('$GEN', self.scratch + '/gen'); os.makedirs(d, exist_ok=True)
            r = sh(['env', 'PYTHONDONTWRITEBYTECODE=1', 'PYTHONPATH=' + REPO] + [x.replace('$REPO', REPO).replace('$GEN', self.scratch + '/gen') for x in c.split()])
            if r.returncode: raise Fail('the code generator of /repo fails: ' + r.stdout[-1000:])
    def build_ir(self):
        ll = os.path.join(self.scratch, 'd.bc'); l2 = os.path.join(self.scratch, 'o.bc'); js = os.path.join(self.scratch, 'o.json')
        irx_f = ThreadPoolExecutor(1).submit(tool_irx, self.scratch)
        self.generate()
        srcs = [self.src] + [s.replace('$REPO', REPO).replace('$VERIF', VERIF).replace('$GEN', self.scratch + '/gen') for l in self.dirs.get('sources', []) for s in l.split()]
        bcs = []
        def comp(i_s):
            i, s = i_s
            o = os.path.join(self.scratch, 'd%d.bc' % i)
            r = sh([CLANG, '-std=gnu++17', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-fno-access-control', '-fno-threadsafe-statics', '-w', '-gline-tables-only', '-emit-llvm', '-c', s, '-o', o] + INC + DEFS + self.extra)
            if r.returncode: raise Fail('the contract file does not compile against /repo: ' + '; '.join([x for x in r.stdout.splitlines() if 'error:' in x][:5]))
            return o
        with ThreadPoolExecutor(4) as ex: bcs = list(ex.map(comp, enumerate(srcs)))
        if len(bcs) > 1:
            r = sh(['/usr/lib/llvm-18/bin/llvm-link'] + bcs + ['-o', ll])
            if r.returncode: raise Fail('llvm-link: ' + r.stdout[-2000:])
        else: ll = bcs[0]
        r = sh([OPT, '-passes=' + PASSES, ll, '-o', l2])
        if r.returncode: raise Fail('opt: ' + r.stdout[-2000:])
        irx = irx_f.result()
        ctors = []
        nm = sh(['/usr/lib/llvm-18/bin/llvm-nm', l2]).stdout
        ctors = re.findall(r'(_GLOBAL__sub_I_\S+)', nm)
        opts = re.findall(r'vc_o_(\w+)', nm)
        with open(js, 'w') as f: r = subprocess.run([irx, l2] + ctors, stdout=f, stderr=subprocess.PIPE, text=True)
        if r.returncode: raise Fail('irx: ' + r.stderr[-2000:])
        self.ctors = ctors
        self.js = json.load(open(js))
        os.unlink(js)
    def build_native(self):
        with self.native_lock:
            if self.native or self.native_err: return self.native
            out = os.path.join(self.scratch, 'native')
            srcs = [self.src, os.path.join(HERE, 'vc_native.cpp')]
            srcs += [s.replace('$REPO', REPO).replace('$VERIF', VERIF).replace('$GEN', self.scratch + '/gen') for l in self.dirs.get('sources', []) + self.dirs.get('native_sources', []) for s in l.split()]
            libs = [x for l in self.dirs.get('libs', []) for x in l.split()]
            nx = [x.replace('$REPO', REPO) for l in self.dirs.get('native_flags', []) for x in l.split()]
            r = sh(['g++', '-std=gnu++17', '-O1', '-w', '-fno-access-control', '-DVC_NATIVE', '-ffp-contract=off', '-fopenmp'] + INC + [d for d in DEFS if d != '-DEIGEN_DONT_VECTORIZE'] + self.extra + nx + srcs + ['-o', out, '-lfmt', '-lpthread'] + libs)
            if r.returncode:
                self.native_err = r.stdout[-3000:]; return None
            self.native = out
            return out

def contract_opts(src):
    txt = open(src).read()
    return {m.group(1): parse_opts(m.group(2)) for m in re.finditer(r'CONTRACT\((\w+),\s*"([^"]*)"\)', txt)}

MODES = {
    'bv': [('z3', 'uf', 20), ('cvc5', 'uf', 40), ('z3', 'fpa', 60), ('cvc5', 'fpa', 120)],
    'fpa': [('z3', 'fpa', 60), ('cvc5', 'fpa', 200)],
    'int': [('z3', 'int', 10), ('cvc5', 'int', 10), ('z3', 'int2', 20), ('cvc5', 'int2', 20), ('z3', 'int', 60), ('cvc5', 'int2', 60), ('cvc5', 'uf', 30)],
    'cvc5': [('cvc5', 'uf', 60), ('z3', 'uf', 60), ('cvc5', 'fpa', 120)],
}

class Checker:
    def __init__(self, pid, tier, only=None, verbose=False):
        self.pid = pid; self.tier = tier; self.only = only; self.verbose = verbose
        os.makedirs(os.path.join(VERIF, 'build'), exist_ok=True)
        self.scratch = tempfile.mkdtemp(prefix='irvc-%s-' % pid, dir=os.environ.get('IRVC_TMP', '/tmp'))
        self.P = Prop(pid, tier, self.scratch)
        self.solver = smt.Runner(self.scratch)
        self.t0 = time.time(); self.solver.deadline = self.t0 + float(os.environ.get('IRVC_DEADLINE', '480' if tier == 'quick' else '780'))
        self.results = []       # dicts per obligation
        self.funcs = {}
        self.trusted = set()
        self.failures = []
        self.covers = 0
        self.ncontracts = 0
        self.poly_time = 0.0; self.poly_n = 0
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    def log(self, *a):
        if self.verbose: print(*a, file=sys.stderr, flush=True)
    def run(self):
        P = self.P
        try:
            P.build_ir()
        except Fail as e:
            self.failures.append(dict(contract='(build)', label='contracts type-check against the current source', where='-', reason=str(e), kind='build'))
            return
        mod = Module(P.js); P.js = None
        copts = {k: parse_opts(v) for k, v in mod.copts.items()}
        self.log('IR ready %.1fs, %d functions' % (time.time() - self.t0, len(mod.fns)))
        names = [n for n in mod.fns if n.startswith('vc_c_')]
        want = set(copts); todo = []
        for c in sorted(want, key=list(copts).index):
            if self.only and c not in self.only: continue
            if copts[c].get('tier') == 'thorough' and self.tier != 'thorough': continue
            todo.append(c)
        self.parallel(mod, copts, todo)
    def parallel(self, mod, copts, todo):
        """one forked worker per contract (terms are per process), a few at a time"""
        import pickle, select, gc
        gc.freeze()
        slots = int(os.environ.get('IRVC_JOBS', '6')); live = {}; queue = list(todo); done = {}
        # long contracts first when the file says so
        queue.sort(key=lambda c: -int(copts[c].get('weight', '0')))
        while queue or live:
            while queue and len(live) < slots:
                c = queue.pop(0); r, w = os.pipe(); sys.stdout.flush(); sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    sub = os.path.join(self.scratch, 'w_' + c); os.makedirs(sub, exist_ok=True)
                    dl = self.solver.deadline
                    self.solver = smt.Runner(sub, 4); self.solver.deadline = dl
                    self.results = []; self.failures = []
                    import signal
                    def late(*_): raise TimeoutError('out of time')
                    signal.signal(signal.SIGALRM, late); signal.alarm(max(5, int(dl + 20 - time.time())))
                    try:
                        self.contract(mod, c, copts[c])
                    except BaseException as x:
                        if os.environ.get('IRVC_TB') or self.verbose: traceback.print_exc()
                        self.failures.append(dict(contract=c, label='verification run completes', where='-', reason=repr(x), kind='engine'))
                    d = dict(results=self.results, failures=self.failures, funcs=self.funcs, trusted=self.trusted, covers=self.covers, n=self.solver.n, time=self.solver.time, poly_time=self.poly_time, poly_n=self.poly_n)
                    with os.fdopen(w, 'wb') as f: pickle.dump(d, f)
                    os._exit(0)
                os.close(w); live[r] = (pid, c, [])
            rs, _, _ = select.select(list(live), [], [], 5)
            for r in rs:
                b = os.read(r, 1 << 20)
                if b: live[r][2].append(b); continue
                pid, c, bs = live.pop(r); os.close(r); os.waitpid(pid, 0)
                try: done[c] = pickle.loads(b''.join(bs))
                except Exception as x: done[c] = None
        for c in todo:
            d = done.get(c); self.ncontracts += 1
            if d is None:
                self.failures.append(dict(contract=c, label='verification run completes', where='-', reason='the worker ended without a result (memory?)', kind='engine')); continue
            self.results += d['results']; self.failures += d['failures']; self.funcs.update(d['funcs']); self.trusted |= d['trusted']; self.covers += d['covers']
            self.solver.n += d['n']; self.solver.time += d['time']; self.poly_time += d['poly_time']; self.poly_n += d['poly_n']
    def contract(self, mod, c, opts):
        terms.reset(); RANGES.clear(); execir._addrobj.clear(); 
        t0 = time.time()
        mode = opts.get('mode', 'bv'); terms.REAL = opts.get('real') == '1'; poly.LOOPEQ = opts.get('loopeq') == '1'
        plan = MODES[mode]
        if 'timeout' in opts: plan = [(s, m, int(opts['timeout'])) for s, m, _ in plan]
        fz = {}
        def feasible(lits):
            k = tuple(l.id for l in lits)
            if k not in fz:
                r = self.solver.check([And(*lits)], [('z3', 'int' if mode == 'int' else 'uf', 10)] if mode != 'int' else [('z3', 'int', 10)])
                fz[k] = r[0] != 'unsat'
            return fz[k]
        e = Exec(mod, stubs=self.stubs(mod), opts={k: (int(v) if v.lstrip('-').isdigit() else v) for k, v in opts.items()}, feasible=feasible)
        if 'ovf' in opts: e.opts['ovf'] = opts['ovf'] != '0'
        e.cur_line = 0
        if 'cells' in self.P.dirs: execir.CELLS = int(self.P.dirs['cells'][0])
        if 'abstract_loops' in self.P.dirs: e.abstract_rx = re.compile('|'.join(x.lstrip('!') for x in self.P.dirs['abstract_loops'])); e.abstract_now = any(x.startswith('!') for x in self.P.dirs['abstract_loops'])
        st = St(g_root(), {})
        try:
            for g in self.P.ctors:
                F = mod.fns[g]
                for b in F.blocks:
                    for ins in b:
                        if ins['o'] == 'call' and 'f' in ins:
                            G = mod.fns[ins['f']]
                            if G.decl: continue
                            try:
                                s2 = st.fork(st.g); s2, _ = e.run(s2, G, [])
                                if s2 is not None: st = s2
                            except Unsup as x:
                                self.log('  ctor', G.dem, 'skipped:', x)
                                e.stack.clear()
            e.obs.clear(); e.touched.clear()
            s, _ = e.run(st, mod.fns['vc_c_' + c], [])
        except Unsup as x:
            self.failures.append(dict(contract=c, label='contract is within the verifier\'s reach', where=e.where(), reason='unsupported: %s' % x, kind='unsupported'))
            self.log('  %s UNSUPPORTED %s at %s' % (c, x, e.where()))
            if os.environ.get('IRVC_TB'): traceback.print_exc()
            return
        for n, F in e.touched.items():
            self.funcs[F.dem] = '%s:%s' % (F.file.replace(REPO + '/', ''), F.line)
        self.trusted |= e.trusted
        self.log('%s: executed %d steps in %.1fs, %d obligations, %d terms' % (c, e.steps, time.time() - t0, len(e.obs), terms._n[0]))
        # vacuity: the end of the contract (and each cover) must be reachable
        cov = {'end of contract': [s.g.lits()]} if s is not None else {}
        cov.update(e.covers)
        if s is None and not e.obs:
            self.failures.append(dict(contract=c, label='contract is not vacuous', where='-', reason='no path reaches the end of the contract', kind='vacuous')); return
        nens = len([o for o in e.obs if o.kind in ('ensures', 'real')]) + e.opts.get('_trivial', 0)
        jobs = []
        ex = ThreadPoolExecutor(8)
        cf = {}
        for lab, alts in cov.items():
            cf[lab] = ex.submit(self.reach, alts, mode, 3 if any(o.kind == 'real' for o in e.obs) or c in getattr(self, 'abstracted', ()) or e.trusted_loops else 20)
        # obligations
        ens = [o for o in e.obs if o.kind == 'ensures']; real = [o for o in e.obs if o.kind == 'real']
        side = [o for o in e.obs if o.kind not in ('ensures', 'real')]
        fut = []
        seen = set()
        for o in ens:
            if o.cond is TRUE:
                self.results.append(dict(contract=c, label=o.label, ok=True, by='simplifier')); continue
            q = And(*o.lits, Not(o.cond))
            if q is FALSE: self.results.append(dict(contract=c, label=o.label, ok=True, by='simplifier')); continue
            fut.append(([o], ex.submit(self.prove_bv, q, plan)))
        # side obligations in groups
        qs = []
        for o in side:
            q = And(*o.lits, Not(o.cond))
            if q is FALSE:
                self.results.append(dict(contract=c, label=o.label, ok=True, by='simplifier')); continue
            if q.id in seen: continue
            seen.add(q.id); qs.append((o, q))
        G = int(opts.get('group', 24))
        groups = [qs[i:i + G] for i in range(0, len(qs), G)]
        gf = [(g, ex.submit(self.prove_bv, Or(*[q for _, q in g]), plan, len(g) == 1)) for g in groups]
        fr = {}
        def feas_real(l2):
            q = And(*l2)
            if q.id not in fr:
                r = self.solver.check([q], [('z3', 'int', 2)])
                fr[q.id] = False if r[0] == 'unsat' else None
            return fr[q.id]
        for o in real:
            t1 = time.time()
            ok, why = self.prove_real(o, opts, feas_real)
            self.poly_time += time.time() - t1
            by = 'poly'
            if not ok and mode == 'int' and getattr(o, 'eps', None) is None:
                r = self.prove_bv(And(*o.lits, Not(fcmp('feq', *o.real))), plan)
                if r[0] == 'unsat': ok = True; by = r[2]
            if ok:
                self.poly_n += by == 'poly'; self.results.append(dict(contract=c, label=o.label, ok=True, by=by))
            else: self.fail(c, o, why or 'not proved', None, e)
        for g, f in gf:
            r = f.result()
            if r[0] == 'unsat':
                for o, q in g: self.results.append(dict(contract=c, label=o.label, ok=True, by=r[2]))
            else:
                fs = [(o, ex.submit(self.prove_bv, q, plan)) for o, q in g] if len(g) > 1 else None
                for o, rr in ([(g[0][0], r)] if fs is None else [(o, f2.result()) for o, f2 in fs]):
                    if rr[0] == 'unsat': self.results.append(dict(contract=c, label=o.label, ok=True, by=rr[2]))
                    else: self.fail(c, o, rr[0], rr[1], e)
        for (o,), f in fut:
            r = f.result()
            if r[0] == 'unsat': self.results.append(dict(contract=c, label=o.label, ok=True, by=r[2]))
            else: self.fail(c, o, r[0], r[1], e)
        for lab, f in cf.items():
            r = f.result()
            if r is False:
                self.failures.append(dict(contract=c, label='reachable: ' + lab, where='-', reason='the precondition excludes everything', kind='vacuous'))
            elif r is True: self.covers += 1
        if s is None: pass
        ex.shutdown()
        self.log('   %s done %.1fs' % (c, time.time() - t0))
    def stubs(self, mod): 
        out = []
        for l in self.P.dirs.get('stub', []):
            rx, tgt = l.rsplit(' => ', 1)
            rxc = re.compile(rx.strip()); tgt = tgt.strip()
            out.append((rxc, mkstub(tgt, rx)))
        return out
    def reach(self, alts, mode, tmo=20):
        for lits in alts:
            t = And(*lits)
            if t is TRUE: return True
            r = self.solver.check([t], [('z3', 'int' if mode == 'int' else 'uf', tmo), ('z3', 'fpa', tmo), ('cvc5', 'fpa', tmo)])
            if r[0] in ('sat', 'sat?'): return True
            if r[0] == 'unknown': return None
        return False
    def prove_bv(self, q, plan, retry=True):
        if q is FALSE: return ('unsat', None, 'simplifier')
        isfp = any(t.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fsqrt', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'ffloor', 'fceil', 'fround', 'ftrunc') for t in postorder([q]))
        if not isfp:
            seen = set(); p2 = []
            for s, m, t in plan:
                if m == 'fpa': m = 'uf'
                if (s, m) not in seen: seen.add((s, m)); p2.append((s, m, t))
            plan = p2
        r = self.solver.check([q], plan)
        if r[0] == 'unknown' and retry:
            # a slow machine, not a different answer: the same solvers with more time
            seen = set(); p3 = []
            for s, m, t in plan:
                if (s, m) not in seen: seen.add((s, m)); p3.append((s, m, 120))
            r = self.solver.check([q], p3[:2])
        return r
    def prove_real(self, o, opts, feas):
        a, b = o.real
        if a is b: return True, None
        def unify(x, y, lits):
            w = max(x.sort, y.sort)
            q = And(*lits, Not(eq(sext(x, w), sext(y, w))))
            return q is FALSE or self.solver.check([q], [('z3', 'uf', 5)])[0] == 'unsat'
        poly.UNIFY = unify
        try:
            ok, why = poly.prove(a, b, o.lits, budget=int(opts.get('budget', 120)), feas=feas, eps=getattr(o, 'eps', None))
        except RecursionError: ok, why = None, 'recursion'
        return ok, why
    def fail(self, c, o, ans, model, e):
        d = dict(contract=c, label=o.label, where=o.loc, reason='solver answer: %s' % ans, kind=o.kind, model={})
        for k, v in (model or {}).items(): d['model'][k] = v
        self.failures.append(d)
        self.results.append(dict(contract=c, label=o.label, ok=False, by=None))
        self.log('   FAILED %s / %s at %s: %s' % (c, o.label, o.loc, ans))
    # ------------------------------------------------------------ counterexamples
    def confirm(self):
        """replay / search a concrete input for the failed obligations; returns list of (failure, inputs or None)"""
        out = []
        bycon = {}
        for f in self.failures: bycon.setdefault(f['contract'], []).append(f)
        nat = None
        if any(c != '(build)' for c in bycon): nat = self.P.build_native()
        if nat is None and self.P.native_err: self.log('native build failed: ' + self.P.native_err)
        budget = max(20.0, min(240.0, self.t0 + 820 - time.time()))
        for c, fs in bycon.items():
            found = None
            if nat:
                for f in fs:
                    if f.get('model'):
                        rp = os.path.join(self.scratch, 'r.txt')
                        with open(rp, 'w') as fh: fh.write(self.model_text(f['model']))
                        r = self.native(nat, [c, 'replay', rp])
                        self.log('   replay', c, f['label'], '->', r.strip()[:200])
                        if r.startswith('VIOLATED'): found = (f, open(rp).read(), r.strip()); break
                if not found and fs[0]['kind'] != 'vacuous':
                    secs = max(3.0, min(25.0, budget / max(1, len(bycon))))
                    outs = [os.path.join(self.scratch, 's%d.txt' % i) for i in range(6)]
                    with ThreadPoolExecutor(6) as ex:
                        rs = list(ex.map(lambda i: self.native(nat, [c, 'search', outs[i], str(secs), str(self.seed * 100 + i)], secs + 30), range(6)))
                    for i, r in enumerate(rs):
                        if r.startswith('VIOLATED'):
                            found = (fs[0], open(outs[i]).read(), r.strip()); break
                    self.log('   search', c, '->', (found[2] if found else rs[0].strip())[:200])
            out.append((c, fs, found))
            if found: break       # one confirmed violation is enough
        return out
    def native(self, nat, args, tmo=60):
        try:
            p = subprocess.run([nat] + args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=tmo, cwd=self.scratch, env=dict(os.environ, VC_IGNORE='|'.join(k['label'] for k in known_findings(self.pid) if k['contract'] == args[0])))
            o = p.stdout.decode('utf8', 'replace')
            for l in o.splitlines():
                if l.startswith(('VIOLATED', 'HELD', 'NOT-FOUND', 'PRECONDITION')): return l
            return o[-300:] or 'rc=%d' % p.returncode
        except subprocess.TimeoutExpired: return 'TIMEOUT'
    def model_text(self, model):
        import struct
        s = ''
        for k, (srt, mode, v) in model.items():
            if isinstance(v, bool): v = int(v)
            if srt in ('D', 'F'):
                if mode == 'int' or not isinstance(v, int): v = struct.unpack('<Q', struct.pack('<d', float(v)))[0]
                s += 'input %s 0x%x\n' % (k, v)
            else:
                w = 1 if srt == 'B' else srt
                s += 'input %s 0x%x\n' % (k, int(v) & ((1 << w) - 1))
        return s

def mkstub(tgt, rx):
    def h(e, st, args, F):
        e.trusted.add((F.dem if F else '?') + '  [' + tgt + ']')
        if tgt == 'nop':
            if F is not None and F.ret != 'void':
                t = execir.ty(F.ret)
                return st, (args[0] if t[0] == 'ptr' and args else e.undef(t))
            return st, None
        if tgt == 'havoc':
            return st, e.undef(execir.ty(F.ret)) if F.ret != 'void' else None
        if tgt == 'abort':
            return execir_abort(e, st)
        n = tgt
        if n not in e.mod.fns: raise Unsup('stub %s missing' % n)
        return e.run(st, e.mod.fns[n], args)
    h.tgt = tgt
    return h
def execir_abort(e, st):
    if not getattr(e, 'abort_ok', False):
        e.obs.append(Ob(st.g.lits(), FALSE, 'no abnormal termination', 'abort', e.where()))
    return None, None

def known_findings(pid):
    f = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(f): return []
    return [k for k in json.load(open(f)) if k.get('property') == pid and k.get('status') == 'known']

def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid'); ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-c', action='append'); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    C = Checker(a.pid, a.tier, a.c, a.v)
    rc = 0
    try:
        try:
            C.run()
        except Exception as x:
            traceback.print_exc()
            C.failures.append(dict(contract='(engine)', label='verification run completes', where='-', reason=repr(x), kind='engine'))
        known = known_findings(a.pid)
        kf = []
        rest = []
        for f in C.failures:
            k = [x for x in known if x['contract'] == f['contract'] and x['label'] == f['label']]
            if k: kf.append(k[0])
            else: rest.append(f)
        for k in {x['id']: x for x in kf}.values(): print('KNOWN-FINDING: property=%s %s' % (a.pid, k['what']))
        C.failures = rest
        if rest:
            rc = 1
            conf = C.confirm()
            rdir = os.path.join(VERIF, 'replays'); os.makedirs(rdir, exist_ok=True)
            best = [x for x in conf if x[2]]
            rp = os.path.join(rdir, '%s.txt' % a.pid)
            with open(rp, 'w') as f:
                f.write('property %s\n' % a.pid)
                if best:
                    c, fs, found = best[0]
                    f.write('contract %s\nfailed-obligation %s (%s)\nreplay-result %s\n' % (c, found[0]['label'], found[0]['where'], found[2]))
                    f.write('# re-run: compile contracts/%s.cpp natively (see irvc/check.py build_native) and run: native %s replay %s\n' % (a.pid, c, rp))
                    f.write(found[1])
                f.write('\n# all failed obligations\n')
                for x in rest: f.write('%s :: %s :: %s :: %s\n' % (x['contract'], x['label'], x['where'], x['reason']))
                if C.P.native_err: f.write('\n# native build failed:\n' + C.P.native_err)
            for x in rest[:20]: print('failed obligation: %s :: %s :: %s :: %s' % (x['contract'], x['label'], x['where'], x['reason'][:300]))
            if best: print('concrete input: ' + best[0][2][2])
            print('VIOLATION property=%s replay=%s%s' % (a.pid, rp, '' if best else ' no-failing-input-found'))
        ok = [r for r in C.results if r['ok']]
        by = {}
        for r in ok: by[r['by']] = by.get(r['by'], 0) + 1
        labels = sorted({r['contract'] + ': ' + r['label'] for r in C.results})
        ev = dict(property=a.pid, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=C.seed, level='proof', wall_s=round(time.time() - C.t0, 1),
                  violations=len(rest),
                  coverage=dict(obligations=len(C.results), discharged=len(ok), discharged_by=by, contracts=C.ncontracts, reachability_checks=C.covers,
                                functions_under_contract=C.funcs, named_obligations=labels[:400], solver_calls=C.solver.n, solver_seconds=round(C.solver.time, 1), ring_seconds=round(C.poly_time, 1),
                                known_findings=[k['id'] for k in kf],
                                checker_cmd='python3-vt /verif/irvc/check.py %s %s' % (a.pid, a.tier),
                                trusted_base=['clang-18 front end (-O1, passes disabled) and opt sroa/early-cse/simplifycfg', 'irvc (irx exporter, symbolic executor, term rewriting, ring normaliser)', 'z3 5.3.2, cvc5 1.4.2 / 1.1.2'] + sorted(C.trusted)),
                  assumptions=C.P.assumptions)
        if len(C.results) == 0 and rc == 0:
            print('no obligations were generated'); 
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (a.pid, '/verif/replays/none')); rc = 1
        if not a.c:
            os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
            with open(os.path.join(VERIF, 'evidence', a.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        print('%s %s: %d obligations, %d discharged (%s), %d contracts, %.1fs' % (a.pid, 'FAILED' if rc else 'ok', len(C.results), len(ok), by, C.ncontracts, time.time() - C.t0))
    finally:
        if not os.environ.get('IRVC_KEEP'): shutil.rmtree(C.scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
if __name__ == '__main__': main()
