from vc import *
import numpy as np, loops, pit, smt
from c05 import Facts, settle
from c08 import gauss, vals, total
TITLE = 'Method of moving asymptotes and convex linearisation'
TU = 'mma.cpp'
NAMES = ('x', 'y', 'z', 'lam', 'gsi', 'ita', 'mu', 'zeta', 's')
cf = lambda p: (lambda v: v.f if isinstance(v, G) else float(v))(P(p).const())
def gmax(*a): return max((P(x) for x in a), key=cf)
def gmin(*a): return min((P(x) for x in a), key=cf)
R_ = lambda s: P(Q(s))

def spec(kind, S, xk, df, g, dg):
    """asymptotes, move limits and approximation of the step, from the problem and the history"""
    n, m = S['n'], S['m']; w = [S['xmax'][j] - S['xmin'][j] for j in range(n)]; o = {}
    if kind == 'MMA':
        L, U = [None] * n, [None] * n
        for j in range(n):
            if S['k'] < 2: a, b = xk[j] - S['asyinit'] * w[j], xk[j] + S['asyinit'] * w[j]
            else:
                t = cf((xk[j] - S['xkm1'][j]) * (S['xkm1'][j] - S['xkm2'][j])); f = S['asydecr'] if t < 0 else S['asyincr'] if t > 0 else P(1)
                a, b = xk[j] - f * (S['xkm1'][j] - S['L'][j]), xk[j] + f * (S['U'][j] - S['xkm1'][j])
            L[j] = gmin(gmax(xk[j] - 10 * w[j], a), xk[j] - R_('1/100') * w[j]); U[j] = gmin(gmax(xk[j] + R_('1/100') * w[j], b), xk[j] + 10 * w[j])
        S['L'], S['U'] = L, U
        o['alpha'] = [gmax(S['xmin'][j], L[j] + S['albefa'] * (xk[j] - L[j]), xk[j] - S['move'] * w[j]) for j in range(n)]
        o['beta'] = [gmin(S['xmax'][j], U[j] - S['albefa'] * (U[j] - xk[j]), xk[j] + S['move'] * w[j]) for j in range(n)]
        A = lambda j, x: T.inv(U[j] - x); B = lambda j, x: T.inv(x - L[j])
        def pq(d, j):
            dp, dm = gmax(d, ZERO), gmax(-d, ZERO); r = S['raa0'] * T.inv(w[j])
            return (U[j] - xk[j]) ** 2 * (R_('1.001') * dp + R_('0.001') * dm + r), (xk[j] - L[j]) ** 2 * (R_('0.001') * dp + R_('1.001') * dm + r)
        o['dA'] = lambda j, x: T.inv(U[j] - x) ** 2; o['dB'] = lambda j, x: -T.inv(x - L[j]) ** 2
        o['ddA'] = lambda j, x: 2 * T.inv(U[j] - x) ** 3; o['ddB'] = lambda j, x: 2 * T.inv(x - L[j]) ** 3
    else:
        o['alpha'] = [gmax(S['xmin'][j], xk[j] - S['move'] * w[j]) for j in range(n)]
        o['beta'] = [gmin(S['xmax'][j], xk[j] + S['move'] * w[j]) for j in range(n)]
        A = lambda j, x: x; B = lambda j, x: T.inv(x)
        pq = lambda d, j: (gmax(d, ZERO), gmax(-d, ZERO) * xk[j] ** 2)
        o['dA'] = lambda j, x: ONE; o['dB'] = lambda j, x: -T.inv(x) ** 2
        o['ddA'] = lambda j, x: ZERO; o['ddB'] = lambda j, x: 2 * T.inv(x) ** 3
    o['A'], o['B'] = A, B
    t = [pq(df[j], j) for j in range(n)]; o['p0'], o['q0'] = [x[0] for x in t], [x[1] for x in t]
    t = [[pq(dg[i][j], j) for j in range(n)] for i in range(m)]; o['p'], o['q'] = [[x[0] for x in r] for r in t], [[x[1] for x in r] for r in t]
    o['b'] = [sum((o['p'][i][j] * A(j, xk[j]) + o['q'][i][j] * B(j, xk[j]) for j in range(n)), ZERO) - g[i] for i in range(m)]
    return o
def residual(S, o, w, eps):
    """optimality conditions of the relaxed subproblem"""
    n, m = S['n'], S['m']; F = {}
    pl = [o['p0'][j] + sum((w['lam'][i] * o['p'][i][j] for i in range(m)), ZERO) for j in range(n)]; ql = [o['q0'][j] + sum((w['lam'][i] * o['q'][i][j] for i in range(m)), ZERO) for j in range(n)]
    for j in range(n):
        x = w['x'][j]
        F['a', j] = pl[j] * o['dA'](j, x) + ql[j] * o['dB'](j, x) - w['gsi'][j] + w['ita'][j]
        F['e', j] = w['gsi'][j] * (x - o['alpha'][j]) - eps; F['f', j] = w['ita'][j] * (o['beta'][j] - x) - eps
    for i in range(m):
        F['b', i] = S['c'][i] + S['d'][i] * w['y'][i] - w['lam'][i] - w['mu'][i]
        F['d', i] = sum((o['p'][i][j] * o['A'](j, w['x'][j]) + o['q'][i][j] * o['B'](j, w['x'][j]) for j in range(n)), ZERO) - S['a'][i] * w['z'] - w['y'][i] + w['s'][i] - o['b'][i]
        F['g', i] = w['mu'][i] * w['y'][i] - eps; F['i', i] = w['lam'][i] * w['s'][i] - eps
    F['c', 0] = S['a0'] - w['zeta'] - sum((w['lam'][i] * S['a'][i] for i in range(m)), ZERO)
    F['h', 0] = w['zeta'] * w['z'] - eps
    return F, pl, ql
def linear(S, o, w, D, pl, ql):
    """derivative of the conditions in the direction D"""
    n, m = S['n'], S['m']; J = {}
    Gm = [[o['p'][i][j] * o['dA'](j, w['x'][j]) + o['q'][i][j] * o['dB'](j, w['x'][j]) for j in range(n)] for i in range(m)]
    for j in range(n):
        x = w['x'][j]
        J['a', j] = (pl[j] * o['ddA'](j, x) + ql[j] * o['ddB'](j, x)) * D['x'][j] + sum((Gm[i][j] * D['lam'][i] for i in range(m)), ZERO) - D['gsi'][j] + D['ita'][j]
        J['e', j] = D['gsi'][j] * (x - o['alpha'][j]) + w['gsi'][j] * D['x'][j]; J['f', j] = D['ita'][j] * (o['beta'][j] - x) - w['ita'][j] * D['x'][j]
    for i in range(m):
        J['b', i] = S['d'][i] * D['y'][i] - D['lam'][i] - D['mu'][i]
        J['d', i] = sum((Gm[i][j] * D['x'][j] for j in range(n)), ZERO) - S['a'][i] * D['z'] - D['y'][i] + D['s'][i]
        J['g', i] = D['mu'][i] * w['y'][i] + w['mu'][i] * D['y'][i]; J['i', i] = D['lam'][i] * w['s'][i] + w['lam'][i] * D['s'][i]
    J['c', 0] = -D['zeta'] - sum((D['lam'][i] * S['a'][i] for i in range(m)), ZERO)
    J['h', 0] = D['zeta'] * w['z'] + w['zeta'] * D['z']
    return J

def setup(c, kind):
    it = c.it; n, m = c.sizes['n'], c.sizes['m']; g = c.gen
    S = {'n': n, 'm': m, 'k': 0, 'a0': g(), 'a': [g() for _ in range(m)], 'c': [g() * 5 for _ in range(m)], 'd': [g() for _ in range(m)], 'xmin': [g() * R_('0.3') + R_('0.1') for _ in range(n)]}
    S['xmax'] = [x + g() + R_('0.2') for x in S['xmin']]
    if c.sizes.get('mu'): S['c'] = [x + 10 for x in S['c']]
    A = lambda v: ArrC(list(v), 'double')
    o = c.make(kind + '<double>', [P(n), P(m), S['a0'], A(S['a']), A(S['c']), A(S['d']), A(S['xmin']), A(S['xmax'])])
    if kind == 'MMA':
        S.update(raa0=R_('1.0e-5'), albefa=R_('0.1'), move=R_('0.5'), asyinit=R_('0.5'), asydecr=R_('0.7'), asyincr=R_('1.2'), xkm1=[ZERO] * n, xkm2=[ZERO] * n)
        if c.sizes.get('par'):
            S.update(raa0=g() * R_('0.01'), albefa=g() * R_('0.3'), move=g(), asyinit=g() + R_('0.1'), asydecr=g(), asyincr=1 + g())
            c.call('MMA<double>::SetParameters', [S[k] for k in ('raa0', 'albefa', 'move', 'asyinit', 'asydecr', 'asyincr')] + [g()], this=o)
    else:
        S.update(move=R_('0.5'))
        if c.sizes.get('par'): S['move'] = g(); c.call('CONLIN<double>::SetParameters', [S['move'], g()], this=o)
    return S, o
def flat2(it, v): return [[scal(aelem(aelem(v, P(i)), P(j))) for j in range(int(aelem(v, P(i)).n.const()))] for i in range(int(v.n.const()))]
def step(c, kind):
    it = c.it; S, o = setup(c, kind); n, m = S['n'], S['m']; g = c.gen
    st = {}
    def norm(it_, f, this, a):
        if len(a) != 17: raise Unsupported('KKTNorm has other parameters')
        a = [it.get(x) if isinstance(x, LV) else x for x in a]
        w = {k: (vals(it, v) if isinstance(v, (ArrC, ArrS)) else scal(v)) for k, v in zip(NAMES, a)}; eps = scal(a[9])
        ap = {'p': flat2(it, a[10]), 'q': flat2(it, a[11])}; ap.update((k, vals(it, v)) for k, v in zip(('p0', 'q0', 'alpha', 'beta', 'b'), a[12:]))
        st['calls'].append((w, eps)); st.setdefault('ap', ap)
        c.ok('the subproblem does not change within a step', ap == st['ap'], 'ground evaluation')
        key = (eps, w)
        for k2, v in st['memo']:
            if k2 == key: return v
        e = cf(eps)
        if st['cur'] is None or w == st['cur']: st['cur'] = w; st['tries'] = 0; st['base'] = (w, eps); v = P(5)
        else:
            st['tries'] += 1; st['trial'].append((st['base'], w, eps, st['tries']))
            if st['it'] == 0 and st['tries'] == 1: v = P(9)
            else: v = eps * (R_('0.95') if st['it'] == 1 else R_('0.01')); st['cur'] = w; st['it'] += 1; st['tries'] = 0; st['base'] = (w, eps)
        st['memo'].append((key, v)); return v
    def solve(it_, f, this, a):
        A, b = flat2(it, it.get(a[0])), vals(it, a[1]); k = len(b); st['solves'] += 1
        c.ok('the linear system is square', len(A) == k and all(len(r) == k for r in A), 'ground evaluation')
        return ArrC(gauss({(i, j): A[i][j] for i in range(k) for j in range(k)}, k, b), 'double')
    it.contracts['KKTNorm'] = norm; it.contracts['solvels'] = solve; it.contracts[kind + '::KKTNorm'] = norm; it.contracts[kind + '::solvels'] = solve
    w_ = [S['xmax'][j] - S['xmin'][j] for j in range(n)]; hist = []
    for t in range(c.sizes.get('steps', 1)):
        xk = [S['xmin'][j] + g() * w_[j] for j in range(n)]
        if t == 3: xk[0] = hist[-1][0]
        df = [g(True) * 3 for _ in range(n)]; gv = [g(True) for _ in range(m)]; dg = [[g(True) * 2 for _ in range(n)] for _ in range(m)]; f = g(True)
        hist.append(xk)
        st.update(calls=[], memo=[], cur=None, it=0, tries=0, base=None, trial=[], solves=0); st.pop('ap', None)
        xl = it.new_root(ArrC(list(xk), 'double'), 'x')
        c.call(kind + '<double>::UpdateVariables', [xl, f, ArrC(df, 'double'), ArrC(gv, 'double'), ArrC([ArrC(r, 'double') for r in dg], ('vec', 'double'))], this=o)
        pre = 'step %d: ' % (t + 1)
        sp = spec(kind, S, xk, df, gv, dg)
        if not st['calls'] or not st['trial']: raise Unsupported('the residual norm is not evaluated')
        ap = st['ap']
        for k in ('alpha', 'beta', 'p0', 'q0', 'b'):
            c.ok(pre + 'size of ' + k, len(ap[k]) == len(sp[k]), 'ground evaluation')
            for i in range(min(len(ap[k]), len(sp[k]))): c.ensure_eq(pre + '%s[%d]' % ({'alpha': 'lower move limit ', 'beta': 'upper move limit ', 'b': 'constraint constant '}.get(k, 'approximation of the objective ' + k), i), ap[k][i], sp[k][i])
        for k in ('p', 'q'):
            for i in range(m):
                for j in range(n): c.ensure_eq(pre + 'approximation of constraint %d, %s[%d]' % (i, k, j), ap[k][i][j], sp[k][i][j])
        w0, e0 = st['calls'][0]
        c.ok(pre + 'the iteration starts inside the move limits with positive multipliers', all(cf(sp['alpha'][j]) < cf(w0['x'][j]) < cf(sp['beta'][j]) for j in range(n)) and all(cf(v) > 0 for k in NAMES for v in (w0[k] if isinstance(w0[k], list) else [w0[k]])), 'shadow')
        last = None
        for (wb, eb), wt, et, tr in st['trial']:
            if et != eb: raise Unsupported('trial point for another relaxation')
            D = {k: ([x - y for x, y in zip(wt[k], wb[k])] if isinstance(wb[k], list) else wt[k] - wb[k]) for k in NAMES}
            F, pl, ql = residual(S, sp, wb, eb); J = linear(S, sp, wb, D, pl, ql)
            k0 = max(F, key=lambda k: abs(cf(F[k]))); tau = -J[k0] * T.inv(F[k0])
            for k in sorted(F): c.ensure_eq(pre + 'Newton direction of condition (%s), component %d' % k, J[k], -tau * F[k])
            tv = cf(tau)
            c.ok(pre + 'step length in (0, 1]', 0 < tv <= 1 + 1e-9, 'shadow', str(tv))
            c.ok(pre + 'the iterates stay inside the move limits with positive multipliers', all(cf(sp['alpha'][j]) < cf(wt['x'][j]) < cf(sp['beta'][j]) for j in range(n)) and all(cf(v) > 0 for k in NAMES if k != 'x' for v in (wt[k] if isinstance(wt[k], list) else [wt[k]])), 'shadow')
            if tr > 1: c.ensure_eq(pre + 'the step is halved', tau * 2, last)
            else:
                rates = [1.0] + [-1.01 * cf(d) / cf(v) for k in NAMES if k != 'x' for d, v in (zip(D[k], wb[k]) if isinstance(wb[k], list) else [(D[k], wb[k])])]
                rates = [rates[0]] + [r / tv for r in rates[1:]] + [r / tv for j in range(n) for r in (-1.01 * cf(D['x'][j]) / cf(wb['x'][j] - sp['alpha'][j]), 1.01 * cf(D['x'][j]) / cf(sp['beta'][j] - wb['x'][j]))]
                c.ok(pre + 'longest step that keeps the iterate interior', abs(tv * max(rates) - 1) < 1e-6, 'shadow', '%g %g' % (tv, max(rates)))
            last = tau
        eps_ = [cf(e) for w, e in st['calls']]
        c.ok(pre + 'relaxation ends below 1e-6', abs(eps_[-1] - 1e-6) < 1e-12 or eps_[-1] < 1e-6, 'shadow', str(eps_[-1]))
        red = {}
        for w, e in st['calls']: red.setdefault(round(math.log10(cf(e))), 0)
        c.ok(pre + 'relaxation shrinks only when the residual is below it', all(a >= b - 1e-15 for a, b in zip(eps_, eps_[1:])) and st['it'] >= 8, 'ground evaluation', str(st['it']))
        r = vals(it, xl)
        c.ok(pre + 'the solution of the subproblem is returned', r == st['cur']['x'], 'ground evaluation')
        S['k'] += 1
        if kind == 'MMA': S['xkm2'], S['xkm1'] = S['xkm1'], xk
        c.ensure_eq(pre + 'the objective is remembered', it.get(o).f['previousvalue'], f)

def kktnorm(c, kind):
    it = c.it; n, m = c.int('n', 1), c.int('m', 1)
    V = lambda nm, k: c.arr(k, 'double', nm)
    a0 = c.real('a0'); o = c.make(kind + '<double>', [n, m, a0, V('a', m), V('c', m), V('d', m), V('xmin', n), V('xmax', n)])
    if kind == 'MMA': ob = it.get(o); it.set(o, Obj(ob.cls, {**ob.f, 'L': V('L', n), 'U': V('U', n)}))
    M2 = lambda nm: vecs2(c, nm, m, n)
    z, zeta, eps = c.real('z'), c.real('zeta'), c.real('eps')
    r = c.call(kind + '<double>::KKTNorm', [V('x', n), V('y', m), z, V('lam', m), V('gsi', n), V('ita', n), V('mu', m), zeta, V('s', m), eps, M2('p'), M2('q'), V('p0', n), V('q0', n), V('alpha', n), V('beta', n), V('b', m)], this=o)
    rd = lambda nm, *i: read(nm, tuple(P(x) for x in i))
    pl = lambda j: rd('p0', j) + total(m, lambda i: rd('lam', i) * rd('p', i, j)); ql = lambda j: rd('q0', j) + total(m, lambda i: rd('lam', i) * rd('q', i, j))
    if kind == 'MMA': A = lambda j: T.inv(rd('U', j) - rd('x', j)); B = lambda j: T.inv(rd('x', j) - rd('L', j)); dA = lambda j: A(j) ** 2; dB = lambda j: -B(j) ** 2
    else: A = lambda j: rd('x', j); B = lambda j: T.inv(rd('x', j)); dA = lambda j: ONE; dB = lambda j: -B(j) ** 2
    gi = lambda i: total(n, lambda j: rd('p', i, j) * A(j) + rd('q', i, j) * B(j))
    want = total(n, lambda j: (pl(j) * dA(j) + ql(j) * dB(j) - rd('gsi', j) + rd('ita', j)) ** 2 + (rd('gsi', j) * (rd('x', j) - rd('alpha', j)) - eps) ** 2 + (rd('ita', j) * (rd('beta', j) - rd('x', j)) - eps) ** 2)
    want += total(m, lambda i: (rd('c', i) + rd('d', i) * rd('y', i) - rd('lam', i) - rd('mu', i)) ** 2 + (gi(i) - rd('a', i) * z - rd('y', i) + rd('s', i) - rd('b', i)) ** 2 + (rd('mu', i) * rd('y', i) - eps) ** 2 + (rd('lam', i) * rd('s', i) - eps) ** 2)
    want += (a0 - zeta - total(m, lambda i: rd('lam', i) * rd('a', i))) ** 2 + (zeta * z - eps) ** 2
    e = r.as_atom() if r.as_atom() else None
    if e is None or e.kind != 'fn' or e.a[0] != 'sqrt': c.ensure_eq('norm of the optimality conditions', r, fn('sqrt', (want,))); return
    c.ensure_eq('norm of the optimality conditions', e.a[1][0], want)
def vecs2(c, nm, m, n):
    it = c.it
    return ArrS(m, BArr(LeafArr(('const', n), (), 'int'), it.bundle_for('double', nm), 'double'), (), ('vec', 'double'))

def convergence(c, kind):
    it = c.it; n, m = c.int('n', 1), c.int('m', 1); V = lambda nm, k: c.arr(k, 'double', nm)
    o = c.make(kind + '<double>', [n, m, c.real('a0'), V('a', m), V('c', m), V('d', m), V('xmin', n), V('xmax', n)])
    prev, f, e = c.real('prev'), c.real('f'), c.real('e')
    ob = it.get(o); it.set(o, Obj(ob.cls, {**ob.f, 'previousvalue': prev, 'epsvalue': e}))
    it.assume(lt(0, e)); it.assume(Not(eq(f + prev, 0)))
    r = to_formula(c.call(kind + '<double>::IsConvergence', [f], this=o))
    ab = lambda x: ite(lt(x, 0), -x, x); s = ab(f + prev)
    c.ensure('convergence is a relative change below the tolerance', And(Implies(r, lt(ab(f - prev), e * s)), Implies(lt(ab(f - prev), e * s), r)))

def elimination(c, kind):
    it = c.it; k = c.sizes['k']; g = c.gen; one = ArrC([ONE], 'double')
    o = c.make(kind + '<double>', [ONE, ONE, ONE, one, one, one, one, one])
    z = c.sizes.get('zero', ()); A = [[ZERO if (i, j) in z else g(True) * 3 for j in range(k)] for i in range(k)]; b = [g(True) for _ in range(k)]
    x = vals(it, c.call(kind + '<double>::solvels', [ArrC([ArrC(list(r), 'double') for r in A], ('vec', 'double')), ArrC(list(b), 'double')], this=o))
    c.ok('length of the solution', len(x) == k, 'ground evaluation', str(len(x)))
    for i in range(min(k, len(x))): c.ensure_eq('equation %d of the linear system' % i, sum((A[i][j] * x[j] for j in range(k)), ZERO), b[i])

SIZES = [(1, 1), (2, 1), (1, 2), (3, 2), (2, 2), (2, 3)]
def run(R):
    for k in ('MMA', 'CONLIN'):
        R.contract('optimality residual, ' + k, TU, lambda c, k=k: kktnorm(c, k), [], timeout=200)
        R.contract('convergence, ' + k, TU, lambda c, k=k: convergence(c, k), [], timeout=100)
        el = [dict(k=n, seed=n) for n in (1, 2, 3, 4)] + [dict(k=3, seed=s, zero=z) for s, z in enumerate([((0, 0),), ((0, 0), (1, 0)), ((0, 0), (1, 1)), ((0, 0), (0, 1), (1, 0), (2, 2))], 5)] + [dict(k=4, seed=9, zero=((0, 0), (1, 0), (1, 1), (2, 1), (3, 2)))]
        R.contract('elimination, ' + k, TU, lambda c, k=k: elimination(c, k), el, sym=False, timeout=100)
        for n, m in SIZES + ([(4, 2), (3, 3), (2, 4)] if R.tier != 'quick' else []):
            R.contract('step, %s, n = %d, m = %d' % (k, n, m), TU, lambda c, k=k: step(c, k), [dict(n=n, m=m, seed=3)], sym=False, timeout=300)
        R.contract('history, %s' % k, TU, lambda c, k=k: step(c, k), [dict(n=2, m=1, seed=5, steps=4, par=1)], sym=False, timeout=300)
    R.bounded.append('update step: identities at generic points for the listed numbers of variables and constraints, four consecutive steps for the history of the asymptotes')
    R.assumptions += ['the residual norm is a contract in the step (its own contract is proved for all sizes), with scripted values that take every branch of the line search and of the relaxation', 'the elimination of the Newton system is a contract in the step; its own contract is checked for systems of up to four equations', 'termination of the Newton iteration is not proved', 'real arithmetic']
    runtime(R)

# ---- execution ------------------------------------------------------------------------------
def subproblem(kind, S, xk, df, g, dg):
    """numerical form of spec()"""
    w = S['xmax'] - S['xmin']
    if kind == 'MMA':
        if S['k'] < 2: L, U = xk - S['asyinit'] * w, xk + S['asyinit'] * w
        else:
            t = (xk - S['xkm1']) * (S['xkm1'] - S['xkm2']); f = np.where(t < 0, S['asydecr'], np.where(t > 0, S['asyincr'], 1.0))
            L, U = xk - f * (S['xkm1'] - S['L']), xk + f * (S['U'] - S['xkm1'])
        L = np.minimum(np.maximum(xk - 10 * w, L), xk - 0.01 * w); U = np.minimum(np.maximum(xk + 0.01 * w, U), xk + 10 * w)
        S['L'], S['U'] = L, U
        al = np.maximum.reduce([S['xmin'], L + S['albefa'] * (xk - L), xk - S['move'] * w]); be = np.minimum.reduce([S['xmax'], U - S['albefa'] * (U - xk), xk + S['move'] * w])
        A = lambda x: 1 / (U - x); B = lambda x: 1 / (x - L); dA = lambda x: 1 / (U - x) ** 2; dB = lambda x: -1 / (x - L) ** 2
        pq = lambda d: ((U - xk) ** 2 * (1.001 * np.maximum(d, 0) + 0.001 * np.maximum(-d, 0) + S['raa0'] / w), (xk - L) ** 2 * (0.001 * np.maximum(d, 0) + 1.001 * np.maximum(-d, 0) + S['raa0'] / w))
    else:
        al, be = np.maximum(S['xmin'], xk - S['move'] * w), np.minimum(S['xmax'], xk + S['move'] * w)
        A = lambda x: x; B = lambda x: 1 / x; dA = lambda x: 1 + 0 * x; dB = lambda x: -1 / x ** 2
        pq = lambda d: (np.maximum(d, 0), np.maximum(-d, 0) * xk ** 2)
    p0, q0 = pq(df); P_, Q_ = pq(dg); b = P_ @ A(xk) + Q_ @ B(xk) - g
    return al, be, A, B, dA, dB, p0, q0, P_, Q_, b
def penal(S, v):
    """min over y, z >= 0 of a0 z + sum c y + d y^2/2 subject to v - a z - y <= 0: value and multipliers"""
    def at(z):
        y = np.maximum(v - S['a'] * z, 0); return S['a0'] * z + np.sum(S['c'] * y + S['d'] * y * y / 2), (S['c'] + S['d'] * y) * (v - S['a'] * z > 0)
    if not np.any(S['a'] > 0) or not np.any(v > 0): return at(0.0)
    a, b = 0.0, max([0.0] + [v[i] / S['a'][i] for i in range(len(v)) if S['a'][i] > 1e-12 and v[i] > 0])
    for _ in range(200):
        l, r = a + (b - a) / 3, b - (b - a) / 3
        if at(l)[0] <= at(r)[0]: b = r
        else: a = l
    return at((a + b) / 2)
def check_sub(kind, S, xk, df, g, dg, y):
    """the point lies inside the move limits and is optimal: the dual bound at its multipliers is its value"""
    al, be, A, B, dA, dB, p0, q0, P_, Q_, b = subproblem(kind, S, xk, df, g, dg); n, m = len(xk), len(g)
    if np.any(al >= be): return None
    if len(y) != n: return 'result of length %d' % len(y)
    for j in range(n):
        if not al[j] - 1e-12 <= y[j] <= be[j] + 1e-12: return 'variable %d is %.12g, outside the move limits [%.12g, %.12g]' % (j, y[j], al[j], be[j])
    from scipy.optimize import minimize
    phi = lambda x: p0 @ A(x) + q0 @ B(x) + penal(S, P_ @ A(x) + Q_ @ B(x) - b)[0]
    best = phi(y)
    for x0 in (y, 0.5 * (al + be), np.clip(xk, al, be)):
        try: r = minimize(phi, x0, bounds=list(zip(al, be)), method='L-BFGS-B' if m == 1 else 'Powell', options=dict(maxiter=400))
        except Exception: continue
        z = np.clip(r.x, al, be)
        if phi(z) < best - 3e-4 * (1 + abs(best)): return 'the subproblem has value %.9g at the returned point %s and %.9g at %s' % (best, y.tolist(), phi(z), z.tolist())
    return None
def runtime(R):
    n = 60 if R.tier == 'quick' else 1500
    rc, out, err = R.driver('mma.cpp', [R.seed, n], flags=['-fsanitize=address,undefined'], timeout=60 if R.tier == 'quick' else 240)
    if rc is None: R.violate('driver', 'build', err); return
    cases, open_ = parse_cases(out)
    for c in cases:
        R.cases += 1
        bad = check_case(c)
        if bad: R.violate('%s step' % c['_name'], 'execution', bad, dict(c)); return
    if rc != 0: R.violate('optimiser step', 'execution', 'driver status %s: %s' % (rc, err[-600:]), open_ or {'seed': R.seed})
def check_case(c):
    kind = c['_name']
    if kind == 'solve':
        k = len(c['b']); A = np.array(c['A']).reshape(k, k); x = np.array(c['x'])
        if len(x) != k: return 'solution of length %d' % len(x)
        if np.linalg.cond(A) < 1e6 and np.abs(A @ x - c['b']).max() > 1e-8 * (1 + np.abs(A).max() * np.abs(x).max()) or np.linalg.cond(A) < 1e6 and not np.all(np.isfinite(x)): return 'residual of the linear system %s' % (A @ x - c['b'])
        return None
    S = {k: np.array(c[k]) for k in ('a', 'c', 'd', 'xmin', 'xmax')}; S.update(k=0, a0=1.0, move=0.5, raa0=1e-5, albefa=0.1, asyinit=0.5, asydecr=0.7, asyincr=1.2)
    if c['par']: S.update(zip(('raa0', 'albefa', 'move', 'asyinit', 'asydecr', 'asyincr'), c['par']))
    prev = 0.0
    for s in range(int(c['steps'][0])):
        t = str(s); xk, df, g = np.array(c['x' + t]), np.array(c['df' + t]), np.array(c['g' + t]); dg = np.array(c['dg' + t]).reshape(len(g), -1); f = c['f' + t][0]
        q = abs(f - prev) / abs(f + prev) if f + prev else None
        if q is not None and abs(q - 1e-5) > 1e-9 and bool(c['conv' + t][0]) != (q < 1e-5): return 'objective %.17g after %.17g: convergence reported %d' % (f, prev, c['conv' + t][0])
        bad = check_sub(kind, S, xk, df, g, dg, np.array(c['y' + t]))
        if bad: return 'step %d: %s' % (s + 1, bad)
        S['k'] += 1; S['xkm2'], S['xkm1'] = S.get('xkm1', 0 * xk), xk; prev = f
    return None
