from vc import *
import numpy as np
TITLE = 'design variable and sensitivity filters'
TU = 'filt.cpp'
NB = lambda i, j: read('nb.el', (P(i), P(j)), 'int')
NL = lambda i: read('nb.len', (P(i),), 'int')
W = lambda i, j: read('w.el', (P(i), P(j)))
S = lambda i: read('s', (P(i),))
D = lambda i: read('d', (P(i),))

def env(c):
    it = c.it; n = c.int('n', 0)
    it.axioms['nb.len'] = lambda i: [le(1, NL(i))]
    it.axioms['nb.el'] = lambda i, j: [le(0, NB(i, j)), lt(NB(i, j), n)]
    it.axioms['w.el'] = lambda i, j: [lt(0, W(i, j))]
    nb = it.sym_array(n, ('vec', 'int'), 'nb')      # one weight per neighbour: both lists share their lengths
    w = ArrS(P(n), BArr(nb.b.ln, it.sym_array(n, ('vec', 'double'), 'w').b.el, 'double'), (), ('vec', 'double'))
    return n, nb, w, it.sym_array(n, 'double', 's'), it.sym_array(n, 'double', 'd')
def wsum(c, i, f):
    j = fresh('j', 'int'); return Sum(j, ZERO, NL(i), f(i, j))

def run(R):
    def build(c, cls):
        n, nb, w, s, d = env(c)
        th = c.make(cls, [n, nb, w])
        return n, s, d, th
    def post(c, r, n, spec, what):
        c.ensure_eq('as many values as design variables', r.n, n)
        c.forall(what, [('i', 0, n)], lambda i: [(aelem(r, i), spec(i))])
    mean = lambda c, i, f, g=lambda i, j: W(i, j): wsum(c, i, f) * T.inv(wsum(c, i, g))
    def dens(c):
        n, s, d, th = build(c, 'DensityFilter<double>')
        r = c.call('DensityFilter<double>::GetFilteredVariables', [s], th)
        post(c, r, n, lambda i: mean(c, i, lambda i, j: W(i, j) * S(NB(i, j))), 'weighted mean of the neighbouring variables')
    R.contract('density filter variables', TU, dens, [])
    def dsens(c):
        n, s, d, th = build(c, 'DensityFilter<double>')
        r = c.call('DensityFilter<double>::GetFilteredSensitivitis', [s, d], th)
        post(c, r, n, lambda i: mean(c, i, lambda i, j: W(i, j) * D(NB(i, j))), 'weighted mean of the neighbouring sensitivities')
    R.contract('density filter sensitivities', TU, dsens, [])
    def hvar(c):
        n, s, d, th = build(c, 'HeavisideFilter<double>'); b = c.real('beta')
        c.call('HeavisideFilter<double>::UpdateBeta', [b], th)
        r = c.call('HeavisideFilter<double>::GetFilteredVariables', [s], th)
        half = Q(1, 2); th_ = lambda x: fn('tanh', (P(x),))
        post(c, r, n, lambda i: half * (th_(half * b) + th_(b * (mean(c, i, lambda i, j: W(i, j) * S(NB(i, j))) - half))) * T.inv(th_(half * b)), 'smoothed step of the weighted mean')
    R.contract('projection filter variables', TU, hvar, [])
    def hsens(c):
        n, s, d, th = build(c, 'HeavisideFilter<double>'); b = c.real('beta')
        c.call('HeavisideFilter<double>::UpdateBeta', [b], th)
        r = c.call('HeavisideFilter<double>::GetFilteredSensitivitis', [s, d], th)
        half = Q(1, 2); th_ = lambda x: fn('tanh', (P(x),))
        dp = lambda k: half * b * (1 - th_(b * (mean(c, k, lambda i, j: W(i, j) * S(NB(i, j))) - half)) * th_(b * (mean(c, k, lambda i, j: W(i, j) * S(NB(i, j))) - half))) * T.inv(th_(half * b))
        post(c, r, n, lambda i: mean(c, i, lambda i, j: W(i, j) * D(NB(i, j)) * dp(NB(i, j))), 'weighted mean of the neighbouring sensitivities times the slope of the projection there')
    R.contract('projection filter sensitivities', TU, hsens, [])
    def hdef(c):
        n, s, d, th = build(c, 'HeavisideFilter<double>')
        r = c.call('HeavisideFilter<double>::GetFilteredVariables', [s], th)
        half = Q(1, 2); th_ = lambda x: fn('tanh', (P(x),))
        post(c, r, n, lambda i: half * (th_(half) + th_(mean(c, i, lambda i, j: W(i, j) * S(NB(i, j))) - half)) * T.inv(th_(half)), 'initial steepness one')
    R.contract('projection filter before any update of the steepness', TU, hdef, [])
    def s1(c):
        n, s, d, th = build(c, 'SensitivityFilter<double>')
        r = c.call('SensitivityFilter<double>::GetFilteredSensitivitis', [s, d], th)
        post(c, r, n, lambda i: wsum(c, i, lambda i, j: W(i, j) * S(NB(i, j)) * D(NB(i, j))) * T.inv(wsum(c, i, W)) * T.inv(S(i)), 'mean weighted by distance and density')
    R.contract('sensitivity filter (first scheme)', TU, s1, [])
    def s2(c):
        n, s, d, th = build(c, 'SensitivityFilter2<double>')
        r = c.call('SensitivityFilter2<double>::GetFilteredSensitivitis', [s, d], th)
        post(c, r, n, lambda i: mean(c, i, lambda i, j: W(i, j) * S(NB(i, j)) * D(NB(i, j)), lambda i, j: W(i, j) * S(NB(i, j))), 'mean weighted by distance times density')
    R.contract('sensitivity filter (second scheme)', TU, s2, [])
    # lemma: on neighbourhoods that are symmetric with equal weight sums, the filtered sensitivity is the gradient of the filtered objective
    for cls in ('DensityFilter', 'HeavisideFilter'):
        def grad(c, cls=cls + '<double>'):
            it = c.it; n = c.sizes['n']; m = c.sizes['m']
            nb = [[(i + k) % n for k in range(-m, m + 1)] for i in range(n)]; wk = [c.real('w%d' % k) for k in range(m + 1)]
            for x in wk: it.assume(lt(0, x))
            s = [c.real('s%d' % k) for k in range(n)]; d = [c.real('d%d' % k) for k in range(n)]
            A = lambda xs: ArrC([P(x) for x in xs], 'double')
            th = c.make(cls, [P(n), ArrC([ArrC([P(x) for x in r], 'int') for r in nb], ('vec', 'int')), ArrC([A([wk[abs(k)] for k in range(-m, m + 1)]) for i in range(n)], ('vec', 'double'))])
            if cls[0] == 'H': c.call(cls + '::UpdateBeta', [c.real('beta')], th)
            rho = c.call(cls + '::GetFilteredVariables', [A(s)], th); g = c.call(cls + '::GetFilteredSensitivitis', [A(s), A(d)], th)
            f = sum((aelem(rho, P(i)) * d[i] for i in range(n)), ZERO)
            for k in range(n): c.ensure_eq('derivative with respect to variable %d' % k, aelem(g, P(k)), T.diff(f, next(iter(s[k].atoms()))))
        R.contract('gradient through the %s filter (rings)' % ('density' if cls[0] == 'D' else 'projection'), TU, grad, [dict(n=3, m=1), dict(n=4, m=1), dict(n=5, m=2)], sym=False)
    R.bounded.append('exactness of the filtered gradient: rings of 3, 4 and 5 variables with symbolic weights, variables, sensitivities and steepness')
    runtime(R)

def runtime(R):
    rc, out, err = R.driver('filt.cpp', [R.seed, 60 if R.tier == 'quick' else 4000], flags=['-fsanitize=address,undefined'])
    if rc is None: R.violate('driver', 'build', err); return
    cases, open_ = parse_cases(out)
    for c in cases:
        R.cases += 1; bad = check_case(c)
        if bad: R.violate('filters', 'execution', bad, c); return
    if rc != 0: R.violate('filters', 'execution', 'driver status %s: %s' % (rc, err[-600:]), open_ or {'seed': R.seed})

def check_case(c):
    t = [int(x) for x in c['nb']]; nb = []; w = []; k = q = 0
    while k < len(t): nb.append(t[k + 1:k + 1 + t[k]]); w.append(c['w'][q:q + t[k]]); q += t[k]; k += 1 + t[k]
    n = len(nb); s, d = c['s'], c['d']; b = c['beta'][0]; sw = [sum(r) for r in w]
    mean = lambda f: [sum(w[i][j] * f[p] for j, p in enumerate(nb[i])) / sw[i] for i in range(n)]
    th = math.tanh; m = mean(s)
    proj = lambda b: [0.5 * (th(0.5 * b) + th(b * (x - 0.5))) / th(0.5 * b) for x in m]
    slope = [0.5 * b * (1 - th(b * (x - 0.5)) ** 2) / th(0.5 * b) for x in m]
    sd = [x * y for x, y in zip(s, d)]
    want = dict(dv=m, dv2=m, ds=mean(d), h1=proj(1.0), hv=proj(b), hv2=proj(b), hs=mean([x * y for x, y in zip(d, slope)]),
                s1=[x / y for x, y in zip(mean(sd), s)], s2=[x / y for x, y in zip(mean(sd), m)])
    for k, v in want.items():
        r = c.get(k)
        if r is None or len(r) != n or any(not abs(x - y) <= 1e-9 * (1 + abs(y)) for x, y in zip(r, v)): return '%s: %s instead of %s' % (k, r, v)
