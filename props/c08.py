from vc import *
import numpy as np, loops
from c05 import Facts, settle
TITLE = 'Lanczos eigenvalue solvers'
TU = 'lanczos.cpp'

# ---- kernels --------------------------------------------------------------------------
def kernels(c):
    it = c.it; n = c.int('n', 0); a = c.real('a')
    x, y = it.new_root(c.arr(n, 'double', 'x'), 'x'), it.new_root(c.arr(n, 'double', 'y'), 'y'); x0, y0 = it.get(x), it.get(y)
    c.call('xexda', [x, a]); r = it.get(x)
    c.ensure_eq('length', r.n, n)
    c.forall('quotient', [('i', 0, n)], lambda i: [(aelem(r, i), aelem(x0, i) * T.inv(a))])
    c.call('xeyda', [x, y, a]); r = it.get(x)
    c.ensure_eq('length', r.n, n)
    c.forall('quotient of another vector', [('i', 0, n)], lambda i: [(aelem(r, i), aelem(y0, i) * T.inv(a)), ('operand', aelem(it.get(y), i), aelem(y0, i))])
def reconvert(c):
    it = c.it; n, m = c.int('n', 0), c.int('m', 1)
    y = it.new_root(c.arr(m, 'double', 'y'), 'y'); y0 = it.get(y)
    q = it.new_root(vecs(c, m, n), 'q')
    r = c.call('ReconvertVector', [y, q])
    c.ensure_eq('length', r.n, n)
    c.forall('combination of the basis', [('i', 0, n)], lambda i: [(aelem(r, i), total(m, lambda k: read('q', (k, i)) * scal(aelem(y0, k))))])
def total(m, f):
    if m.const() is not None: return sum((f(P(k)) for k in range(int(m.const()))), ZERO)
    k = fresh('k', 'int'); return Sum(k, ZERO, m, f(k))
def vecs(c, m, n):
    it = c.it
    return ArrS(m, BArr(LeafArr(('const', n), (), 'int'), it.bundle_for('double', 'q'), 'double'), (), ('vec', 'double'))

# ---- bisection --------------------------------------------------------------------------
class Sturm:
    """the Sturm sequence of the tridiagonal matrix at lam and its sign changes, by recursion over the rows"""
    def __init__(self, it): self.it = it; self.al = lambda i: read('al', (i,)); self.be = lambda i: read('be', (i,))
    def raw(self, nm, t, lam): return fn(nm, (t, lam), 'int' if nm == 'sgnchanges' else 'real')
    def get(self, nm, t, lam):
        it = self.it; r = lambda n, u: self.raw(n, u, lam)
        for n in ('sturm', 'sturmsign', 'sgnchanges'):
            a = r(n, t).as_atom()
            if a in it.fnfacts: continue
            S, sg, C = r('sturm', t), r('sturmsign', t), r('sgnchanges', t)
            S1, sg1, C1, S2 = r('sturm', t - 1), r('sturmsign', t - 1), r('sgnchanges', t - 1), r('sturm', t - 2)
            up, dn = And(eq(sg, -sg1), eq(C, C1 + 1)), And(eq(sg, sg1), eq(C, C1))
            fs = [Or(eq(sg, 1), eq(sg, -1)), Implies(eq(t, 0), And(eq(S, 1), eq(sg, 1), eq(C, 0))),
                  Implies(le(1, t), Or(And(eq(sg1, 1), lt(S, 0), up), And(eq(sg1, 1), le(0, S), dn), And(eq(sg1, -1), lt(0, S), up), And(eq(sg1, -1), le(S, 0), dn))),
                  Implies(eq(t, 1), And(eq(S, self.al(ZERO) - lam), eq(sg1, 1), eq(C1, 0), eq(S1, 1))),
                  Implies(le(2, t), eq(S, (self.al(t - 1) - lam) * S1 - self.be(t - 2) ** 2 * S2))]
            it.fnfacts[a] = fs
        return r(nm, t)
    def row(self, q, m):
        ab = lambda x: fn('abs', (x,))
        return ab(self.al(q)) + ite(le(1, q), ab(self.be(q - 1)), ZERO) + ite(le(q + 2, m), ab(self.be(q)), ZERO)
class BisInv:
    def __init__(self, c, m, mode): self.c = c; self.m = m; self.mode = mode; self.st = Sturm(c.it); self.pair = None; self.report = []
    def candidates(self, it, L):
        st = self.st; m = self.m; out = []
        sc = [k for k in L['open'] if isinstance(L['H'][k], Poly)]
        if len(sc) != len(L['open']): return out
        re_ = [k for k in sc if L['H'][k].sort() != 'int']; in_ = [k for k in sc if L['H'][k].sort() == 'int']
        if len(re_) == 1 and not in_:      # bound of the rows
            v = re_[0]
            out.append(lambda g, k: Implies(le(self.q, k), le(st.row(self.q, m), g(v))))      # self.q: an arbitrary row
            out.append(lambda g, k: le(0, g(v)))
        if in_:
            ini = {v: L['comp'](L['S0'], v) for v in sc}; lams = [ZERO]; a0, a1, b0 = st.al(ZERO), st.al(ONE), st.be(ZERO)
            for r, v in L['S0'].items():
                if isinstance(v, Poly) and (v.sort() != 'int') and (r, ()) not in sc and v not in lams: lams.append(v)
            first = lambda lam: [ONE, a0 - lam, (a1 - lam) * (a0 - lam) - b0 ** 2]
            lams = [l for l in lams if any(ini[v] == a0 - l for v in re_)] or lams
            for lam in lams:
                for v in sc:
                    o = int(ini[v].const() is None)
                    for w in (0, 1, 2):
                        if ini[v] == first(lam)[w]: out.append(lambda g, k, v=v, o=w, lam=lam: eq(g(v), st.get('sturm', k + o, lam)))
                    if ini[v] == first(lam)[1]: continue
                    out.append(lambda g, k, v=v, o=o, lam=lam: eq(g(v), st.get('sturmsign', k + o, lam)))
                    out.append(lambda g, k, v=v, o=o, lam=lam: eq(g(v), st.get('sgnchanges', k + o, lam)))
        elif len(re_) > 1:
            for lo in re_:
                for hi in re_:
                    if lo == hi: continue
                    out.append(lambda g, k, lo=lo, hi=hi: le(g(lo), g(hi)))
        return out
    def __call__(self, it, L):
        st = self.st; m, mode = self.m, self.mode
        re_ = [k for k in L['open'] if isinstance(L['H'][k], Poly) and L['H'][k].sort() != 'int']
        if len(re_) < 2 or len(re_) != len(L['open']): return None
        comp = L['comp']
        def same(run, lam):      # equal arguments, equal counts
            out = []; C = st.get('sgnchanges', m, lam); ts = [ONE]
            for f in run['facts']:
                for p in f_polys(f):
                    for a in p.atoms():
                        if a.kind == 'fn' and a.a[0] == 'sgnchanges' and a.a[1][1] == lam: ts.append(a.a[1][0])
            return [Implies(eq(t, m), eq(st.get('sgnchanges', t, lam), C)) for t in ts]
        def holds(run, lh, f):
            mid = (comp(run['head'], lh[0]) + comp(run['head'], lh[1])) * P(Q(1, 2))
            with Facts(it, le(0, run['k']), run['cond'], *run['facts'], *same(run, mid)): return it.prove(f) == 'proved'
        def step(lo, hi, run):
            a, b, a2, b2 = comp(run['head'], lo), comp(run['head'], hi), comp(run['post'], lo), comp(run['post'], hi)
            mid = (a + b) * P(Q(1, 2)); C = st.get('sgnchanges', m, mid)
            return Or(And(le(C, mode), eq(a2, mid), eq(b2, b)), And(lt(mode, C), eq(a2, a), eq(b2, mid)))
        for lo in re_:
            for hi in re_:
                if lo == hi or self.pair: continue
                if all(holds(r, (lo, hi), step(lo, hi, r)) for r in L['runs']): self.pair = (lo, hi)
        def ob(name, ok):
            if it.record: it.obls.append(Obl(name, bool(ok), it.loc(L['node']), '' if ok else 'not shown', 'inductive invariant' if ok else 'unproved'))
        ob('each step halves the bracket and keeps the half that the count of sign changes of the midpoint selects', self.pair)
        if not self.pair: return None
        lo, hi = self.pair
        a0, b0 = comp(L['S0'], lo), comp(L['S0'], hi); self.b = b0
        self.lo, self.hi = fresh('lo'), fresh('hi')
        ob('the first bracket contains every disc of the matrix', it.prove(And(le(st.row(self.q, m), b0), le(a0, -st.row(self.q, m)))) == 'proved')
        return lambda s, k: [eq(self.lo, comp(s, lo)), eq(self.hi, comp(s, hi))]
def bisect(c):
    it = c.it; m = c.int('m', 1); mode = c.int('mode', 0); it.assume(lt(mode, m))
    h = BisInv(c, m, mode); it.inv = h; h.q = fresh('q', 'int'); it.assume(And(le(0, h.q), lt(h.q, m)))
    al, be = it.sym_array(m, 'double', 'al'), it.sym_array(m, 'double', 'be')
    r = c.call('BisectionMethod', [al, be, mode])
    if not h.pair: raise Unsupported('no bisection loop was found')
    c.ensure('the result lies in the last bracket', Implies(lt(0, h.b), And(le(h.lo, r), le(r, h.hi))))
    c.ensure('the last bracket is narrow', Implies(lt(0, h.b), le(h.hi - h.lo, P(Q(1, 10**12)) * h.b)))
    c.ensure('the zero matrix has the eigenvalue zero', Implies(le(h.b, 0), eq(r, 0)))

# ---- inverse iteration --------------------------------------------------------------------
class PowInv:
    """every step solves the shifted tridiagonal system for the vector of the step before and scales the solution to unit length"""
    def __init__(self, c, m, lam): self.c = c; self.m = m; self.lam = lam; self.done = False; self.y = None
    def __call__(self, it, L):
        arrs = [k for k in L['open'] if isinstance(L['H'][k], LeafArr)]
        if self.done or not arrs or len(arrs) != len(L['open']) or any(r['post'] is None for r in L['runs']): return
        # the outermost loop: its body has made the recursive definitions of the sweeps
        for key in arrs:
            why = [self.step(it, L, r, key) for r in L['runs']]
            if None in why: continue
            self.done = True; self.y = L['H'][key].base[1]
            for r, w in zip(L['runs'], why):
                if it.record: it.obls.append(Obl('(T - lambda I) s = y and y\' = s/|s| for some s' + (' (first step)' if r['first'] else ''), not w, it.loc(L['node']), w, 'recursive definition' if not w else 'unproved'))
            c0 = L['runs'][0]['cond']
            if it.record: it.obls.append(Obl('at least one step is made', it.prove(c0) == 'proved', it.loc(L['node']), '', 'smt'))
            return
    def step(self, it, L, run, key):
        """None: no system is solved for this array; '': shown"""
        import krylov, smt
        m, lam = self.m, self.lam; old = L['comp'](run['head'], key); new = L['comp'](run['post'], key); al = lambda j: read('al', (j,)); be = lambda j: read('be', (j,))
        with Facts(it, *run['facts']):
            i = fresh('i', 'int'); X = None
            with Facts(it, le(0, i), lt(i, m)): e = settle(it, new.read((i,)))
            for F in it.recdefs:
                a = read(F, (i,)).as_atom()
                if len(e.d) != 1: break
                (mm, k), = e.d.items(); d = Poly({tuple(x for x in mm if x[0] != a.id): k})
                if (a.id, 1) in mm and not any(i.as_atom() in x.fv for x in d.atoms()): X = F; sc = d
            if X is None: return None
            j = fresh('j', 'int')
            if sc != T.inv(fn('sqrt', (Sum(j, ZERO, m, read(X, (j,)) ** 2),))): return 'the vector is not scaled to unit length'
            rd = lambda F, j: read(F, (j,))
            for nm, t, fs, lower, upper in (('one row', ZERO, [eq(m, 1)], 0, 0), ('first row', ZERO, [le(2, m)], 0, 1), ('second row', ONE, [le(3, m)], 1, 1), ('second row, last', ONE, [eq(m, 2)], 1, 0), ('row', i, [le(2, i), le(i + 2, m)], 1, 1), ('last row', m - 1, [le(3, m)], 1, 0)):
                with Facts(it, *fs):
                    E = (al(t) - lam) * rd(X, t) - settle(it, old.read((t,)))
                    if lower: E = E + be(t - 1) * rd(X, t - 1)
                    if upper: E = E + be(t) * rd(X, t + 1)
                    mc = 1 if nm == 'one row' else 2 if nm == 'second row, last' else None; fix = (lambda p: subst(p, {m.as_atom(): P(mc)})) if mc else (lambda p: p)
                    for _ in range(12):      # definitions of the sweeps at this row and the one before
                        mp = {}
                        for x in smt._allatoms(E):
                            if x.kind == 'read' and x.a[0] in it.recdefs and len(x.a[1]) == 1 and (x.a[1][0] == t or lower and x.a[1][0] == t - 1): mp[x] = settle(it, it.recdefs[x.a[0]].read(x.a[1]))
                        if not mp: break
                        E = settle(it, fix(subst(E, mp)))
                    if not krylov.zero(E): return '%s of the system: residual %s' % (nm, show(E)[:300])
        return ''
def power(c):
    it = c.it; m = c.int('m', 1); lam = c.real('lam'); h = PowInv(c, m, lam); it.inv = h; it.summarise = True
    r = c.call('InversePowerMethod', [it.sym_array(m, 'double', 'al'), it.sym_array(m, 'double', 'be'), lam])
    if not h.done: raise Unsupported('no inverse iteration was found')
    c.ensure_eq('length', r.n, m)
    c.forall('the vector of the last step is returned', [('i', 0, m)], lambda i: [(aelem(r, i), read(h.y, (i,)))])

# ---- Lanczos processes on generic matrices ---------------------------------------------
VAR = {'Lanczos': (False, False), 'RestartLanczos': (False, False), 'ShiftedInvertLanczos': (True, False), 'GeneralShiftedInvertLanczos': (True, True), 'GeneralRestartShiftedInvertLanczos': (True, True)}
def sym(c, n):
    g = {}
    for i in range(n):
        for j in range(i + 1): g[i, j] = g[j, i] = c.gen(True)
    return g
def spd(c, n):
    """G^T G: the square roots of its quadratic forms are real"""
    a = [[c.gen(True) for _ in range(n)] for _ in range(n)]
    return {(i, j): sum((a[k][i] * a[k][j] for k in range(n)), ZERO) for i in range(n) for j in range(n)}
def csr(g, n):
    return Obj('CSR<double>', {'ROWS': P(n), 'COLS': P(n), 'indptr': ArrC([P(i * n) for i in range(n + 1)], 'int'), 'indices': ArrC([P(j) for i in range(n) for j in range(n)], 'int'), 'data': ArrC([g[i, j] for i in range(n) for j in range(n)], 'double')})
def dense(o):
    ip = [int(x.const()) for x in o.f['indptr'].v]; ix = [int(x.const()) for x in o.f['indices'].v]; n = len(ip) - 1
    g = {(i, j): ZERO for i in range(n) for j in range(n)}
    for i in range(n):
        for k in range(ip[i], ip[i + 1]): g[i, ix[k]] = g[i, ix[k]] + scal(o.f['data'].v[k])
    return g, n
def gauss(g, n, b):
    a = [[g[i, j] for j in range(n)] + [b[i]] for i in range(n)]
    for k in range(n):
        p = next(i for i in range(k, n) if a[i][k].d); a[k], a[p] = a[p], a[k]; iv = T.inv(a[k][k])
        a[k] = [x * iv for x in a[k]]
        for i in range(n):
            if i != k and a[i][k].d: f = a[i][k]; a[i] = [x - f * y for x, y in zip(a[i], a[k])]
    return [a[i][n] for i in range(n)]
def vals(it, v):
    v = it.get(v) if isinstance(v, LV) else v
    return [scal(aelem(v, P(i))) for i in range(int(v.n.const()))]
def process(c, name):
    it = c.it; n, m = c.sizes['n'], c.sizes['m']; inv_, gen_ = VAR[name]
    A = sym(c, n) if not inv_ else spd(c, n); B = spd(c, n) if gen_ else {(i, j): P(int(i == j)) for i in range(n) for j in range(n)}
    sg = c.gen() if inv_ else ZERO
    calls = []; its = []; it.ieee_div = True      # the vector after the last step is not used
    def bis(it_, f, this, a):
        al, be, mode = vals(it, a[0]), vals(it, a[1]), scal(it.get(a[2])); th = c.gen(True); calls.append((al, be, int(mode.const()), th)); return th
    def inv(it_, f, this, a):
        al, be, lam = vals(it, a[0]), vals(it, a[1]), scal(it.get(a[2])); its.append((al, be, lam))
        k = next((x[2] for x in calls if x[3] == lam), None)
        c.ok('inverse iteration for an eigenvalue of the same tridiagonal matrix', k is not None and any(x[2] == k and x[0] == al and x[1][:m - 1] == be[:m - 1] for x in calls), 'ground evaluation')
        return ArrC([P(int(i == k)) for i in range(m)], 'double')
    def solve(it_, f, this, a):
        o = it.get(a[0]); g, k = dense(o); b = [it.get(x) for x in a[1:] if isinstance(it.get(x), (ArrC, ArrS))][-1]
        eps = [scal(it.get(x)) for x in a[1:] if not isinstance(it.get(x), (ArrC, ArrS, Obj))][-1].const()
        c.ok('linear systems are solved to a tolerance of 1e-8 or less', eps is None or eps <= Q(1, 10**8), 'ground evaluation', str(eps))
        return ArrC(gauss(g, k, vals(it, b)), 'double')
    it.contracts['BisectionMethod'] = bis; it.contracts['InversePowerMethod'] = inv
    for s in ('ScalingCG', 'CG', 'BiCGSTAB', 'BiCGSTAB2', 'ScalingBiCGSTAB', 'ILU0CG', 'ILU0BiCGSTAB'): it.contracts[s] = solve
    Al = it.new_root(csr(A, n), 'A'); ev = it.new_root(ArrC([], 'double'), 'ev'); vv = it.new_root(ArrC([], ('vec', 'double')), 'vv')
    args = [Al] + ([it.new_root(csr(B, n), 'B')] if gen_ else []) + [ev, vv, P(m)] + ([sg] if inv_ else [])
    c.call(name, args)
    e = vals(it, ev); V = it.get(vv); V = [vals(it, aelem(V, P(k))) for k in range(int(V.n.const()))]
    c.ok('as many eigenpairs as requested', len(e) == m and len(V) == m and all(len(v) == n for v in V) and len(calls) >= m, 'ground evaluation')
    if len(e) != m or len(V) != m: return
    K = {p: A[p] - sg * B[p] for p in A}
    mul = lambda g, v: [sum((g[i, j] * v[j] for j in range(n)), ZERO) for i in range(n)]
    op = (lambda v: gauss(K, n, mul(B, v))) if inv_ else (lambda v: mul(A, v))
    q = [None] * m
    for k in range(m):
        md = [x for x in calls if (sg + T.inv(x[3]) if inv_ else x[3]) == e[k]]
        c.ok('eigenvalue %d is %s of the tridiagonal matrix' % (k, 'the shifted inverse of an eigenvalue' if inv_ else 'an eigenvalue'), bool(md), 'ground evaluation')
        if not md: return
        want = m - 1 - k if inv_ else k
        c.ok('eigenvalue %d is the one of that rank' % k, md[0][2] == want, 'ground evaluation', 'rank %d' % md[0][2])
        q[md[0][2]] = V[k]
    if any(x is None for x in q): return
    al, be = calls[0][0], calls[0][1]
    dot = lambda x, y: sum((a * b for a, b in zip(x, y)), ZERO)
    for i in range(m):
        for j in range(i + 1): c.ensure_eq('basis vectors %d and %d are orthonormal' % (i, j), dot(q[i], mul(B, q[j])), P(int(i == j)))
    for k in range(m):
        r = op(q[k])
        if k + 1 < m:
            for i in range(n): c.ensure_eq('three-term relation of step %d: component %d' % (k, i), r[i], al[k] * q[k][i] + (be[k - 1] * q[k - 1][i] if k else ZERO) + be[k] * q[k + 1][i])
        else: c.ensure_eq('diagonal entry of the last step', dot(mul(B, q[k]), r), al[k])
    c.ok('matrix unchanged', dense(it.get(Al))[0] == A, 'frame')

def run(R):
    R.contract('scaling kernels', TU, kernels, [dict(n=k) for k in (1, 2)])
    R.contract('combination of the basis vectors', TU, reconvert, [dict(n=2, m=2)])
    R.contract('bisection', TU, bisect, [], timeout=100)
    R.contract('inverse iteration', TU, power, [], timeout=100)
    for f in VAR:
        for n, m in ((1, 1), (2, 2), (3, 2), (4, 3)) + (((5, 4),) if 'Restart' in f else ()):
            R.contract('%s, %d of %d' % (f, m, n), TU, lambda c, f=f: process(c, f), [dict(n=n, m=m, seed=17 + n)], sym=False, timeout=100)
    R.bounded.append('Lanczos processes (orthonormal basis, three-term relation, rank and shift of the eigenvalues): n, m <= 5, 4 on generic matrices (identity testing of the executed text); the scalar routines are proved for all sizes')
    R.assumptions += ['the linear solver of the shift-invert variants is represented by its contract (C06): the exact solution of the system it is given, tolerance 1e-8 or less',
        'Gershgorin: every eigenvalue lies in a disc of a row; Sturm: the number of sign changes at lambda is the number of eigenvalues below lambda (mathematical theorems, not re-proved)',
        'inverse iteration: pivots of the shifted tridiagonal matrix are not zero; convergence of the iteration itself is not proved']
    runtime(R)

def runtime(R):
    n = 60 if R.tier == 'quick' else 1500
    rc, out, err = R.driver('lanczos.cpp', [R.seed, n], flags=['-fsanitize=address,undefined'])
    if rc is None: R.violate('driver', 'build', err); return
    cases, open_ = parse_cases(out)
    for c in cases:
        R.cases += 1
        bad = check_case(c)
        if bad: R.violate('eigenvalue problem (%s)' % c['_name'], 'execution', bad, dict(c)); return
    if rc != 0: R.violate('eigenvalue solvers', 'execution', 'driver status %s: %s' % (rc, err[-600:]), open_ or {'seed': R.seed})
def check_case(c):
    if c['_name'] == 'tri':
        al, be = np.array(c['al']), np.array(c['be']); m = len(al); Tm = np.diag(al) + np.diag(be[:m - 1], 1) + np.diag(be[:m - 1], -1)
        w, V = np.linalg.eigh(Tm); s = max(abs(al).max() + 2 * abs(be).max(), 0.0)
        for k in range(m):
            if not abs(c['ev'][k] - w[k]) <= 1e-10 * s: return 'eigenvalue %d of the tridiagonal matrix is %.17g, not %.17g' % (k, c['ev'][k], w[k])
        gap = lambda k: min([abs(w[k] - w[j]) for j in range(m) if j != k] or [1.0])
        for k in range(m):
            v = np.array(c['vec%d' % k])
            if len(v) != m: return 'eigenvector of length %d' % len(v)
            if s and abs(V[0, k]) > 1e-2 and gap(k) > 1e-3 * s and abs(c['sh%d' % k][0] - w[k]) > 1e-9 * s:      # the shift is not an eigenvalue to working accuracy and the start vector is not orthogonal to the eigenvector
                if not np.linalg.norm(Tm @ v - w[k] * v) <= 1e-7 * s or not abs(np.linalg.norm(v) - 1) < 1e-9: return 'inverse iteration with shift %.17g does not find the unit eigenvector of %.17g' % (c['sh%d' % k][0], w[k])
        y = np.array(c['y']); q = np.array(c['q']).reshape(m, -1)
        if not np.allclose(c['rec'], y @ q, 1e-12, 1e-12): return 'the vector is not the combination of the basis vectors'
        return None
    n, m = int(c['n'][0]), int(c['m'][0]); A = np.array(c['A']).reshape(n, n); B = np.array(c['B']).reshape(n, n); sg = c['sigma'][0]
    for nm, (inv_, gen_) in VAR.items():
        if inv_ and c['spd'][0] == 0: continue
        e = np.array(c['ev_' + nm]); V = np.array(c['vv_' + nm]).reshape(-1, n)
        if len(e) != m or len(V) != m: return '%s returned %d eigenvalues and %d eigenvectors for %d' % (nm, len(e), len(V), m)
        Bm = B if gen_ else np.eye(n); K = A - sg * Bm
        op = np.linalg.solve(K, Bm) if inv_ else A; q0 = np.diag(K if inv_ else A).copy()
        # Ritz values on the Krylov space of the start vector, in the inner product of B
        Qm = []; v = q0
        for k in range(m):
            for _ in range(3):
                for q in Qm: v = v - (q @ Bm @ v) * q
            nv = np.sqrt(v @ Bm @ v)
            if k and nv < 1e-5 * last: Qm = None; break      # breakdown: the Krylov space is invariant
            q = v / nv; Qm.append(q); v = op @ q; last = np.sqrt(v @ Bm @ v)
        if Qm is None: continue
        Qm = np.array(Qm).T; Tm = Qm.T @ Bm @ op @ Qm; w, Y = np.linalg.eigh((Tm + Tm.T) / 2); s = abs(w).max()
        if inv_: w, Y = w[::-1], Y[:, ::-1]
        if inv_ and min(abs(w)) < 1e-3 * s: continue
        for k in range(m):
            want = sg + 1 / w[k] if inv_ else w[k]
            if not abs(e[k] - want) <= 1e-5 * (abs(want) + (s if not inv_ else 1 / abs(w[k]))): return '%s, %d of %d: eigenvalue %d is %.12g, not %.12g' % (nm, m, n, k, e[k], want)
            gap = min([abs(w[k] - w[j]) for j in range(m) if j != k] or [1.0])
            if gap > 1e-2 * s and abs(Y[0, k]) > 1e-2:
                u = Qm @ Y[:, k]; r = V[k]
                if np.all(np.isfinite(r)):
                    if not min(np.linalg.norm(r - u), np.linalg.norm(r + u)) <= 1e-3 * np.linalg.norm(u): return '%s, %d of %d: vector %d is not the Ritz vector of its eigenvalue' % (nm, m, n, k)
    if not np.array_equal(np.array(c['after']).reshape(n, n), A): return 'the matrix was changed'
    return None
