import signal, resource
"""Contract framework: contracts are checked symbolically for all sizes, else on a stated set of concrete sizes; the same
contracts are evaluated on executions of the real code (replay search)."""
import multiprocessing, os, sys, json, time, random, subprocess, tempfile, shutil, math, traceback, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import frontend, smt
from terms import *
import terms as T
from arrays import *
from interp import *
import interp as I
import prove as PV
REPO = frontend.REPO

G._S = pow(pow(2, 60, G.PR), G.PR - 2, G.PR)
_units = {}
def unit(tu):
    if tu not in _units: _units[tu] = frontend.load(os.path.join(VERIF, 'tu', tu))
    return _units[tu]

class Miss(Exception):
    """a contract names a function that no longer exists"""

def evalf(p, env, rnd, memo=None):
    """numeric value of a term at a random point (env: atom -> float)"""
    if memo is None: memo = {}
    def at(a):
        if a in memo: return memo[a]
        k = a.kind
        if k in ('var', 'read', 'bv'): v = env.setdefault(a, rnd.randint(1, 5) if a.sort == 'int' else rnd.uniform(0.3, 2.0))
        elif k == 'ind': v = 1.0 if ff(a.a[0]) else 0.0
        elif k == 'fn':
            xs = [go(x) for x in a.a[1] if isinstance(x, Poly)]
            nm = a.a[0]
            if nm == 'inv': v = 1.0 / xs[0] if xs[0] else float('nan')
            elif nm == 'sqrt': v = math.sqrt(xs[0]) if xs[0] >= 0 else float('nan')
            elif nm == 'abs': v = abs(xs[0])
            elif nm in ('max', 'min'): v = {'max': max, 'min': min}[nm](xs)
            elif nm == 'idiv': v = float(int(xs[0] / xs[1])) if xs[1] else float('nan')
            elif nm == 'trunc': v = float(int(xs[0]))
            elif nm == 'pow': v = xs[0] ** xs[1] if xs[0] > 0 else float('nan')
            elif nm in ('DET', 'INV'):
                import numpy as np
                n = int(xs[0] if nm == 'DET' else xs[2]); o = 1 if nm == 'DET' else 3
                M = np.array(xs[o:o + n * n]).reshape(n, n)
                try: v = float(np.linalg.det(M)) if nm == 'DET' else float(np.linalg.inv(M)[int(xs[0]), int(xs[1])])
                except Exception: v = float('nan')
            elif hasattr(math, nm):
                try: v = getattr(math, nm)(*xs)
                except Exception: v = float('nan')
            else: v = env.setdefault(a, rnd.uniform(0.3, 2.0))
        elif k == 'sum': v = float('nan')
        memo[a] = v
        return v
    def go(q):
        r = 0.0
        for m, c in q.d.items():
            t = float(c)
            for aid, e in m: t *= at(T._alist[aid]) ** e
            r += t
        return r
    def ff(f):
        t = f[0]
        if t == 'le': return go(f[1]) <= 0
        if t == 'lt': return go(f[1]) < 0
        if t == 'eq': return go(f[1]) == 0
        if t == 'and': return all(ff(x) for x in f[1])
        if t == 'or': return any(ff(x) for x in f[1])
        if t == 'not': return not ff(f[1])
        return t == 'T'
    return go(p), (sum(abs(go(Poly({m: c}))) for m, c in p.d.items()) if p.d else 0.0)

class Ctx:
    """one symbolic execution with its contract clauses"""
    def __init__(self, tu, sizes, report, cname, heap=False, contracts=None, timeout=120):
        self.it = Interp(unit(tu), heap)
        self.sizes = sizes; self.R = report; self.cname = cname
        self.results = []
        self.it.deadline = time.time() + timeout
        if contracts: self.it.contracts.update(contracts)
        self.rnd = random.Random(7)
    @property
    def symbolic(self): return self.sizes is None
    def int(self, name, lo=None):
        if self.sizes is not None and name in self.sizes: return P(self.sizes[name])
        v = var(name, 'int')
        if lo is not None: self.it.assume(ge(v, lo))
        return v
    def real(self, name): return var(name)
    grnd = None
    def gen(self, signed=False):
        """a generic real in (0,1): a random dyadic number with 60 bits, represented by its image in GF(p) and a shadow"""
        k = self.grnd.randrange(1, 1 << 60)
        if signed and self.grnd.random() < 0.5: k = -k
        return P(G(k * G._S % G.PR, k / 2.0 ** 60))
    def requires(self, f): self.it.assume(f)
    def arr(self, n, et, name):
        n = P(n); c = n.const()
        if c is not None:
            b = self.it.bundle_for(et, name)
            return ArrC([concretise(bview(b, (P(i),)), et) for i in range(int(c))], et)
        return self.it.sym_array(n, et, name)
    def mat(self, name, r, c): return Obj('Matrix<double>', {'row': P(r), 'col': P(c), 'values': self.arr(P(r) * P(c), 'double', name)})
    def vec(self, name, n): return Obj('Vector<double>', {'size': P(n), 'values': self.arr(n, 'double', name)})
    def fn(self, name, sig=None, pick=None):
        z = lambda s: re.sub(r'\s|noexcept|PANSFEM2::|std::|class ', '', s or '')
        fs = self.it.func(name, (lambda f: z(f['type']['qualType']) == z(sig)) if sig else None)
        if pick: fs = [f for f in fs if pick(f)]
        if not fs: raise Unsupported('function %s %s not found in the current source' % (name, sig or ''))
        return fs[0]
    def call(self, name, args, this=None, sig=None, pick=None):
        f = self.fn(name, sig, pick)
        self.R.functions.add(name)
        th = None
        if this is not None: th = this if isinstance(this, LV) else self.it.new_root(this, 'this')
        r, lvs = self.it.run(f, args, th)
        if isinstance(r, LV): r = self.it.get(r)
        self.this = th; self.args = lvs
        return r
    def make(self, cls, vals):
        """construct an object through the class's own constructor with that many parameters"""
        it = self.it; rec = it.record_of(cls)
        if rec is None: raise Unsupported('class %s not found in the current source' % cls)
        for k in rec.get('inner', ()):
            if k.get('kind') == 'CXXConstructorDecl' and not k.get('isImplicit') and len(it.params(k)) == len(vals) and it.body_of(k) is not None:
                self.R.functions.add(cls + '::' + cls.split('<')[0])
                return it.new_root(it.construct(('cls', cls), [v if isinstance(v, LV) else it.new_root(v, 'arg') for v in vals], k['type']['qualType'], None), 'this')
        raise Unsupported('no constructor of %s with %d parameters' % (cls, len(vals)))
    def ok(self, label, good, how, detail='', t=0.0):
        self.results.append((label, good, how, detail, t))
    def ensure(self, label, f):
        t0 = time.time()
        r = self.it.prove(f)
        self.ok(label, True if r == 'proved' else None if r == 'unknown' or not f_ground(f) else False, 'smt', '' if r == 'proved' else show_f(f)[:300], time.time() - t0)
    def ensure_eq(self, label, p, q):
        t0 = time.time()
        p, q = P(p), P(q)
        d = p - q
        if not d.d: self.ok(label, True, 'normal form' if self.grnd is None else 'identity test over GF(p)', '', time.time() - t0); return
        if self.grnd is not None and isinstance(d.const(), G): self.ok(label, False, 'identity test over GF(p)', 'differs at a generic point', time.time() - t0); return
        if PV.is_zero(self.it, d): self.ok(label, True, 'term equality', '', time.time() - t0); return
        import pit
        z = pit.identically_zero(d)
        if z: self.ok(label, True, 'identity test over GF(2^61+24039)', '', time.time() - t0); return
        # refute numerically
        good = None; det = 'difference: ' + show(d)[:300]
        if self.sizes is not None and not (d.fv() and any(a.kind == 'sum' for a in d.atoms())):
            for _ in range(6):
                v, mag = evalf(d, {}, self.rnd)
                if v == v and abs(v) > 1e-9 * max(mag, 1e-300):
                    good = False; det = 'difference %g at a random point; %s' % (v, det); break
        self.ok(label, good, 'term equality', det, time.time() - t0)
    def forall(self, label, ranges, body):
        """ranges: [(name, lo, hi)]; body(*idx) -> list of (p,q) or (sublabel,p,q)"""
        it = self.it
        if all((P(lo)).const() is not None and (P(hi)).const() is not None for _, lo, hi in ranges):
            import itertools
            for idx in itertools.product(*[range(int(P(lo).const()), int(P(hi).const())) for _, lo, hi in ranges]):
                for t in body(*[P(i) for i in idx]):
                    l, p, q = t if len(t) == 3 else ('', *t)
                    self.ensure_eq('%s%s%s' % (label, l, list(idx)), p, q)
            return
        n = len(it.facts)
        vs = []
        for name, lo, hi in ranges:
            v = fresh(name, 'int'); vs.append(v)
            it.assume(And(le(lo, v), lt(v, hi)))
        try:
            for t in body(*vs):
                l, p, q = t if len(t) == 3 else ('', *t)
                self.ensure_eq(label + l, p, q)
        finally: del it.facts[n:]

def f_ground(f): return not f_fv(f) and not f_bases(f)

def concretise(v, et):
    return v

def mget(m, i, j): return aelem(m.f['values'], P(i) * m.f['col'] + P(j))
def vget(v, i): return aelem(v.f['values'], P(i))

class Wall(BaseException): pass

class Report:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier
        self.functions = set(); self.obl = []; self.bobl = []; self.violations = []; self.limits = []; self.known = []
        self.assumptions = []; self.cases = 0; self.t0 = time.time(); self.wall = int(os.environ.get("CPPVC_WALL", "520")) if tier == 'quick' else 2400; self.bounded = []; self.loops = 0; self.notes = []
        self.coverage_extra = {}; self.jobs = []; self.funcs_seen = set(); self.job_time = []

    def contract(self, *a, **k):
        """register one contract; all contracts run in parallel at flush()"""
        self.jobs.append((a, k))
    def flush(self):
        jobs, self.jobs = self.jobs, []
        if not jobs: return
        for a, k in jobs: unit(a[1])
        global _JOBS
        _JOBS = (self, jobs)
        n = min(len(jobs), int(os.environ.get('CPPVC_PROCS', '8')))
        if n <= 1: res = [_job(i) for i in range(len(jobs))]
        else:
            import gc; gc.collect(); gc.freeze()
            with multiprocessing.get_context('fork').Pool(n, maxtasksperchild=8) as pool: res = pool.map(_job, range(len(jobs)), chunksize=1)
        for d in res:
            self.obl += d['obl']; self.bobl += d['bobl']; self.violations += d['violations']; self.limits += d['limits']; self.bounded += d['bounded']
            self.functions |= d['functions']; self.loops += d['loops']; self.funcs_seen |= d['seen']
            for k, v in d['stat'].items():
                if isinstance(v, (int, float)): smt.STAT[k] = smt.STAT.get(k, 0) + v
            self.job_time.append((round(d['time'], 1), d['name']))
    def _contract(self, name, tu, body, small=(), sym=True, heap=False, contracts=None, timeout=150, soft=False, bounded=None):
        """check one contract.  body(ctx).  Symbolic sizes first; on failure the listed concrete sizes."""
        t0 = time.time()
        done = False; why = None; unproved = False
        # an instance at listed sizes is a bounded check of the contract, never counted as proved
        if bounded is None: bounded = sym or any(set(s) - {'seed'} for s in small)
        if sym:
            st = self._one(name, tu, body, None, heap, contracts, timeout)
            if st[0] == 'proved':
                self.obl += st[1]; done = True
            else:
                why = st[2]; unproved = st[0] == 'unproved' or st[0] == 'refuted'
                if st[0] == 'refuted' and not small:
                    self.violate(name, 'obligation', why); return 'refuted'
        if done: return 'proved'
        allok = True; n = 0
        for s in small:
            st = self._one(name, tu, body, s, heap, contracts, timeout)
            if st[0] == 'refuted':
                self.violate(name, 'obligation', '%s (sizes %s)' % (st[2], s)); return 'refuted'
            if st[0] == 'proved': (self.bobl if bounded else self.obl).extend([(l + ' @%s' % (s,), h, t) for l, h, t in st[1]]); n += 1
            else:
                allok = False; why = st[2]; unproved = unproved or st[0] == 'unproved'
        if unproved:
            self.violate(name, 'obligation', 'not discharged: %s' % why); return 'unproved'
        if sym:
            self.limits.append({'contract': name, 'reason': str(why)[:300], 'bounded_instances_proved': n, 'of': len(small)})
            return 'bounded'
        if not allok:
            self.limits.append({'contract': name, 'reason': str(why)[:300], 'instances_proved': n, 'of': len(small)})
            return 'partial'
        return 'proved'

    def _one(self, name, tu, body, sizes, heap, contracts, timeout):
        gf = sizes is not None and 'seed' in sizes; t0 = time.time()
        for attempt in range(20000 if gf else 1):
            T.GFMODE[0] = gf
            if attempt % 50 == 49 and time.time() - t0 > timeout: break
            try: return self._one2(name, tu, body, dict(sizes, seed=sizes['seed'] * 100000 + attempt) if gf else sizes, heap, contracts, timeout)
            except T.NonSquare: continue
            finally: T.GFMODE[0] = False
        return 'limit', [], 'no generic point with the required square roots'
    def _one2(self, name, tu, body, sizes, heap, contracts, timeout):
        # hard wall clock for one instance: the tool gives up (a limit, never a verdict) instead of running on
        left = min(2.0 * timeout, self.t0 + self.wall - time.time())
        if left <= 1: return 'limit', [], 'out of time'
        def ring(*_): raise Wall()
        try:
            old = signal.signal(signal.SIGALRM, ring); signal.setitimer(signal.ITIMER_REAL, left, 5)
            try: return self._one3(name, tu, body, sizes, heap, contracts, timeout)
            finally: signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, old)
        except (Wall, MemoryError) as e: return 'limit', [], 'tool limit: %s' % ('no answer within %d s' % left if isinstance(e, Wall) else 'memory')
    def _one3(self, name, tu, body, sizes, heap, contracts, timeout):
        c = Ctx(tu, sizes, self, name, heap, contracts, timeout)
        if sizes is not None and 'seed' in sizes: c.grnd = random.Random(sizes['seed'])
        try:
            body(c)
        except T.GFOrder as e:
            return 'limit', [], 'tool limit: %s' % e
        except OutOfRange as e:
            return 'refuted', [], str(e)
        except Unsupported as e:
            return 'limit', [], 'tool limit: %s %s' % (e, c.it.loc(e.node) if e.node else '')
        except frontend.FrontendError:
            raise
        except RecursionError as e:
            return 'limit', [], 'recursion limit'
        except (KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError, ZeroDivisionError) as e:
            if os.environ.get('CPPVC_DEBUG'): traceback.print_exc()
            return 'limit', [], 'tool limit (internal): %s %s' % (type(e).__name__, e)
        self.loops += len(c.it.loops)
        self.funcs_seen |= c.it.funcs_run
        good = []
        bad = None; lims = []
        for o in c.it.obls:
            if o.ok: good.append(('%s: %s @%s' % (name, o.name, o.where), o.how, o.time))
            elif o.how == 'refuted' and (sizes is not None or f_const(o)): bad = bad or '%s at %s: %s' % (o.name, o.where, o.detail)
            else: lims.append('%s at %s: %s' % (o.name, o.where, o.detail))
        for l, g, how, det, t in c.results:
            if g: good.append(('%s: %s' % (name, l), how, t))
            elif g is False: bad = bad or '%s: %s' % (l, det)
            else: lims.append('%s: %s' % (l, det))
        if bad: return 'refuted', good, bad
        if lims:
            # 'is this position written by some iteration' left open: out of reach, not a failed obligation
            hard = [l for l in lims if 'hit#' not in l and 'wit#' not in l]
            return ('unproved', good, hard[0]) if hard else ('limit', good, 'tool limit: ' + lims[0])
        if not c.results: return 'limit', good, 'no postcondition was reached'
        if sizes is None and c.it.unsat(): return 'limit', good, 'contradictory preconditions'
        return 'proved', good, None

    def violate(self, name, kind, detail, inp=None):
        self.violations.append({'contract': name, 'kind': kind, 'detail': str(detail)[:1500], 'input': inp})

    # ---- runtime evaluation of contracts on the real code --------------------------
    def driver_src(self, text, args=(), flags=(), timeout=240):
        d = tempfile.mkdtemp(prefix='cppvc_')
        try:
            p = os.path.join(d, 'gen.cpp'); open(p, 'w').write(text)
            return self.driver(p, args, list(flags) + ['-I', VERIF + '/tu'], timeout)
        finally: shutil.rmtree(d, ignore_errors=True)
    def driver(self, src, args=(), flags=(), timeout=240, stdin=None, name='drv'):
        """compile a driver of /verif/drivers against /repo/src and run it; returns (rc, stdout, stderr)"""
        d = tempfile.mkdtemp(prefix='cppvc_')
        try:
            exe = os.path.join(d, 'a.out')
            cmd = ['g++', '-std=c++17', '-O1', '-g0', '-w', '-fopenmp', '-I', REPO + '/src', '-I', VERIF + '/drivers', *flags, os.path.join(VERIF, 'drivers', src), '-o', exe]
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=400)
            if p.returncode != 0: return None, '', p.stderr[:3000]
            env = dict(os.environ); env['OMP_NUM_THREADS'] = env.get('OMP_NUM_THREADS', '4')
            env['ASAN_OPTIONS'] = 'detect_leaks=1:abort_on_error=0'
            try: p = subprocess.run([exe, *map(str, args)], capture_output=True, text=True, timeout=timeout, cwd=d, env=env, input=stdin)
            except subprocess.TimeoutExpired as e:
                return -99, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'
            return p.returncode, p.stdout, p.stderr[-3000:]
        finally: shutil.rmtree(d, ignore_errors=True)

_JOBS = None
def _job(i):
    R, jobs = _JOBS
    a, k = jobs[i]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30)) if len(jobs) > 1 else None
    Q_ = R; save = {x: getattr(R, x) for x in ('obl', 'bobl', 'violations', 'limits', 'bounded', 'functions', 'loops', 'funcs_seen')}
    R.obl, R.bobl, R.violations, R.limits, R.bounded, R.functions, R.loops, R.funcs_seen = [], [], [], [], [], set(), 0, set()
    t0 = time.time(); st0 = dict(smt.STAT)
    try: Q_._contract(*a, **k)
    except Exception as e:
        if os.environ.get('CPPVC_DEBUG'): traceback.print_exc()
        Q_.limits.append({'contract': a[0], 'reason': 'internal error %s %s' % (type(e).__name__, e)})
    out = {'obl': Q_.obl, 'bobl': Q_.bobl, 'violations': Q_.violations, 'limits': Q_.limits, 'bounded': Q_.bounded, 'functions': Q_.functions, 'loops': Q_.loops, 'seen': Q_.funcs_seen,
            'stat': {k: v - st0.get(k, 0) for k, v in smt.STAT.items() if isinstance(v, (int, float))}, 'time': time.time() - t0, 'name': a[0]}
    for x, v in save.items(): setattr(R, x, v)
    return out

def f_const(o): return o.detail.startswith('false') or o.how == 'refuted' and o.name in ('parallel loop iterations write disjoint locations', 'delete[] of an initialised pointer', 'division by zero')

# ---- driver protocol: lines  "case NAME" , "key n v1 v2 ..." , "end" ------------------
def parse_cases(out):
    cases = []; cur = None
    for line in out.split('\n'):
        t = line.split()
        if not t: continue
        if t[0] == 'case': cur = {'_name': t[1]}; 
        elif t[0] == 'end':
            if cur is not None: cases.append(cur)
            cur = None
        elif cur is not None:
            try: cur[t[0]] = [float(x) for x in t[2:]] if len(t) > 1 else []
            except ValueError: cur[t[0]] = t[2:]
    return cases, cur

def main(pid, title, fn, argv):
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    R = Report(pid, tier); R.seed = seed
    kf = known_findings(pid)
    R.kf = kf
    try:
        fn(R); R.flush()
    except frontend.FrontendError as e:
        R.violate('front end', 'build', 'the instantiation unit no longer compiles: ' + str(e)[:1200])
    wall = time.time() - R.t0
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {'obligations': len(R.obl) + sum(1 for _ in R.limits), 'discharged': len(R.obl), 'checker_cmd': 'python3-vt cppvc/check.py %s %s' % (pid, tier),
                       'trusted_base': ['clang 18 AST (real template instantiations of /repo/src)', 'cppvc weakest-precondition/symbolic executor (/verif/cppvc)', 'z3 ' + smt.z3.get_version_string(), 'model of std:: in cppvc/stdlib.py'],
                       'functions_under_contract': sorted(R.functions), 'functions_executed': sorted(R.funcs_seen)[:200],
                       'loops_summarised_by_invariant': R.loops, 'smt': dict(smt.STAT), 'undischarged': R.limits, 'bounded': R.bounded,
                       'runtime_replay_cases': R.cases, **R.coverage_extra},
          'wall_s': round(wall, 2), 'assumptions': R.assumptions + ['machine arithmetic treated as exact (int unbounded, double as real)'], 'violations': R.violations}
    backs = {}
    for l, h, t in R.obl: backs[h] = backs.get(h, 0) + 1
    ev['coverage']['discharged_by'] = backs
    bb = {}
    for l, h, t in R.bobl: bb[h] = bb.get(h, 0) + 1
    ev['coverage']['bounded_obligations'] = len(R.bobl); ev['coverage']['bounded_obligations_by'] = bb
    ev['coverage']['solver_time_s'] = round(smt.STAT['time'], 2)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    for k in R.known: print('KNOWN-FINDING: property=%s %s' % (pid, k))
    print('%s: %d obligations discharged, %d checked at listed sizes only (bounded), %d contracts undischarged, %d functions under contract, %d replay cases, %.1f s' %
          (pid, len(R.obl), len(R.bobl), len(R.limits), len(R.functions), R.cases, wall))
    if os.environ.get('CPPVC_TIMES'): print(sorted(R.job_time)[-12:])
    for l in R.limits[:8]: print('  undischarged: %s: %s' % (l['contract'], str(l['reason'])[:220]))
    if R.violations:
        path = os.path.join(VERIF, 'evidence', pid + '.replay.json')
        json.dump(R.violations, open(path, 'w'), indent=1, default=str)
        inp = any(v.get('input') is not None for v in R.violations)
        for v in R.violations[:5]: print('  failed: %s: %s' % (v['contract'], v['detail'][:300]))
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if inp else ' no-failing-input-found'))
        return 1
    if not R.obl and not R.bobl and not R.cases:
        print('no obligation was generated: machinery failure'); return 2
    return 0

def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)) if k.get('property') == pid and k.get('status') == 'known']
