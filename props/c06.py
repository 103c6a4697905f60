from vc import *
import numpy as np, krylov
TITLE = 'Krylov solvers'
TU = 'krylov.cpp'
# name, arguments, symmetric preconditioner / matrix (conjugacy), preconditioner callee
SOLVERS = [('CG', 'A', 'cg'), ('ILU0CG', 'AM', 'cg'), ('ScalingCG', 'A', 'cg'), ('SORCG', 'AS', 'other'),
           ('BiCGSTAB', 'A', 'bi'), ('BiCGSTAB2', 'A', 'bi'), ('ILU0BiCGSTAB', 'AM', 'bi'), ('ScalingBiCGSTAB', 'A', 'bi')]

def k_get(it, f, this, args):
    o = it.get(this); i, j = scal(it.get(args[0])), scal(it.get(args[1]))
    it.oblige('matrix position in range', And(le(0, i), lt(i, o.f['ROWS']), le(0, j), lt(j, o.f['COLS'])))
    return read('A.entry', (i, j))

def solver(c, name, kind, family):
    it = c.it; sp = krylov.Space(c)
    it.contracts.update({'CSR::operator*': sp.op('A'), 'CSR::get': k_get, 'PreILU0': sp.op('M'), 'Scaling': sp.op('M'), 'SOR': sp.op('M')})
    b = it.new_root(sp.vec('b'), 'b'); eps = c.real('eps'); it.assume(gt(eps, 0)); it.wrap_ip = True
    h = krylov.Inv(sp, it.get(b), family, eps, name); it.inv = h
    A = sp.matrix(); m = c.int('itrmax')
    args = {'A': [A, b, m, eps], 'AM': [A, sp.matrix('M'), b, m, eps], 'AS': [A, b, m, eps, c.real('w'), c.int('sweeps'), c.real('soreps')]}[kind]
    a0 = it.get(A)
    r = c.call(name, args)
    if not hasattr(h, 'pairs'): raise Unsupported('no iteration loop was found')
    c.ok('the iteration stops early only when converged', h.nret > 0 or None, 'inductive invariant', 'the loop is never left early')
    c.ensure_eq('length of the result', r.n, sp.n)
    i = c.int('i'); it.assume(And(le(0, i), lt(i, sp.n)))
    c.ensure_eq('right hand side unchanged', aelem(it.get(b), i), read('b', (i,)))
    c.ok('matrix unchanged', all(it.get(A).f[k] is a0.f[k] for k in a0.f) or None, 'frame', 'the matrix is modified')

# ---- textbook recurrences on generic numbers (bounded: size and number of iterations) --------------
def csr_dense(c, n, name='A', sym=False, lower=None):
    g = {}
    for i in range(n):
        for j in range(n): g[i, j] = g[j, i] if sym and j < i else c.gen(True)
        g[i, i] = g[i, i] + 3
    if sym:
        for i in range(n):
            for j in range(i): g[i, j] = g[j, i]
    o = Obj('CSR<double>', {'ROWS': P(n), 'COLS': P(n), 'indptr': ArrC([P(n * i) for i in range(n + 1)], 'int'), 'indices': ArrC([P(j) for i in range(n) for j in range(n)], 'int'),
                            'data': ArrC([g[i, j] for i in range(n) for j in range(n)], 'double')})
    return o, g
WATCH = None
def ref(name, n, A, M, b, m, inner, stop=None, zero=0, one=1, div=None, div0=None):
    div0 = div0 or div     # quotient that is zero when the half step is already exact
    """textbook iterations; A, M: functions on lists"""
    def dot(x, y):
        s = sum((p * q for p, q in zip(x, y)), zero)
        if WATCH is not None and x is rh:         # cosine with the shadow residual: breakdown when it vanishes
            d = (sum(p * p for p in x) * sum(q * q for q in y)) ** 0.5
            if not d > 0 or not abs(s) > 1e-7 * d: WATCH.append(s)
        return s
    rh = None
    ax = lambda a, x, y: [a * p + q for p, q in zip(x, y)]
    x = [zero] * n; r = list(b)
    if name.endswith('CG'):
        z = M(r); p = list(z); rho = dot(z, r)
        for k in range(m):
            q = A(p); al = div(rho, dot(p, q)); x = ax(al, p, x); r = ax(-al, q, r); z = M(r); rn = dot(z, r); p = ax(div(rn, rho), p, z); rho = rn
            if stop and stop(r): break
        return x
    rh = list(r)
    if name == 'BiCGSTAB2':
        p = [zero] * n; u = [zero] * n; t0 = [zero] * n; w = [zero] * n; zz = [zero] * n; be = zero; rho = dot(rh, r)
        for k in range(m):
            p = [ri + be * (pi - ui) for ri, pi, ui in zip(r, p, u)]; Ap = A(p); al = div(rho, dot(rh, Ap))
            y = [ti - ri - al * wi + al * ai for ti, ri, wi, ai in zip(t0, r, w, Ap)]; t = ax(-al, Ap, r); At = A(t)
            if k % 2 == 0: ze, et = div0(dot(At, t), dot(At, At)), zero
            else:
                yy, yt, aty, tt, aa = dot(y, y), dot(y, t), dot(At, y), dot(At, t), dot(At, At); de = aa * yy - aty * aty
                ze, et = div0(yy * tt - yt * aty, de), div0(aa * yt - aty * tt, de)
            u = [ze * ai + et * (ti - ri + be * ui) for ai, ti, ri, ui in zip(Ap, t0, r, u)]
            zz = [ze * ri + et * zi - al * ui for ri, zi, ui in zip(r, zz, u)]
            x = [xi + al * pi + zi for xi, pi, zi in zip(x, p, zz)]
            r = [ti - et * yi - ze * ai for ti, yi, ai in zip(t, y, At)]
            rn = dot(rh, r); be = div(al * rn, ze * rho); w = [ai + be * pi for ai, pi in zip(At, Ap)]; rho = rn; t0 = t
            if stop and stop(r): break
        return x
    p = list(inner(r)); rho = dot(rh, r)
    for k in range(m):
        Mp = M(p); v = A(Mp); al = div(rho, dot(rh, v)); s = ax(-al, v, r); Ms = M(s); t = A(Ms); om = div0(dot(t, s), dot(t, t))
        x = [xi + al * pi + om * si for xi, pi, si in zip(x, Mp, Ms)]; r = ax(-om, t, s)
        rn = dot(rh, r); be = div(div(al, om) * rn, rho); p = [ri + be * (pi - om * vi) for ri, pi, vi in zip(r, p, v)]; rho = rn
        if stop and stop(r): break
    return x
def lsolve(n, g, v, div):
    """solution of L U y = v, unit lower and upper triangle stored in g"""
    y = list(v)
    for i in range(n):
        for j in range(i): y[i] = y[i] - g[i, j] * y[j]
    for i in reversed(range(n)):
        for j in range(i + 1, n): y[i] = y[i] - g[i, j] * y[j]
        y[i] = div(y[i], g[i, i])
    return y
def sor(n, g, b, w, m, zero, div):
    x = [zero] * n
    for _ in range(m):
        for i in range(n):
            s = b[i]
            for j in range(n):
                if j != i: s = s - g[i, j] * x[j]
            x[i] = x[i] + w * (div(s, g[i, i]) - x[i])
    return x
def iterates(c, name, kind, m):
    n = 4; it = c.it
    sym = name.endswith('CG')
    A, g = csr_dense(c, n, 'A', sym); b = [c.gen(True) for _ in range(n)]
    def contract(fnc):
        return lambda it_, f, this, args: ArrC(fnc([scal(aelem(it_.get(args[-1]), P(i))) for i in range(n)]), 'double')
    Af = lambda v: [sum((g[i, j] * v[j] for j in range(n)), ZERO) for i in range(n)]
    it.contracts['CSR::operator*'] = contract(Af)
    div = lambda a, b_: a * T.inv(b_)
    Mf = lambda v: v
    args = [A, it.new_root(ArrC(b, 'double'), 'b'), P(m), P(G.ZEROEPS) if hasattr(G, 'ZEROEPS') else P(0)]
    inner = lambda r: r
    if kind == 'AM':
        M, h = csr_dense(c, n, 'M'); Mf = lambda v: lsolve(n, h, v, div); it.contracts['PreILU0'] = lambda it_, f, this, a: ArrC(Mf([scal(aelem(it_.get(a[1]), P(i))) for i in range(n)]), 'double')
        args.insert(1, M)
    if name.startswith('Scaling'): Mf = lambda v: [div(v[i], g[i, i]) for i in range(n)]; inner = Mf
    if kind == 'AS':
        w = c.gen(); Mf = lambda v: sor(n, g, v, w, 1, ZERO, div); args += [w, P(1), P(-1)]
        it.contracts['SOR'] = lambda it_, f, this, a: ArrC(Mf([scal(aelem(it_.get(a[1]), P(i))) for i in range(n)]), 'double')
    it.wrap_sqrt = False
    r = c.call(name, args)
    want = ref(name, n, Af, Mf, b, m, inner, None, ZERO, ONE, div)
    for i in range(n): c.ensure_eq('component %d after %d iterations' % (i, m), aelem(r, P(i)), want[i])

def helper(c, name, order, f):
    """the vector kernels, elementwise"""
    it = c.it; n = c.int('n', 1); vs = {}; args = []; out = None
    for k, a in enumerate(order):
        if a == 's': args.append(c.real('a%d' % k))
        else:
            r = it.new_root(c.arr(n, 'double', 'v%d' % k), 'v%d' % k); args.append(r)
            if a == 'V': out = r
    olds = {id(a): it.get(a) for a in args if isinstance(a, LV)}
    r = c.call(name, args)
    res = it.get(out) if out is not None else r
    c.ensure_eq('length', res.n, n)
    def at(i): return [f(*[a if not isinstance(a, LV) else aelem(olds[id(a)], i) for a in args])]
    c.forall('element', [('i', 0, n)], lambda i: [(aelem(res, i), at(i)[0])])
    for a in args:
        if isinstance(a, LV) and a is not out: c.forall('operand unchanged', [('i', 0, n)], lambda i: [(aelem(it.get(a), i), aelem(olds[id(a)], i))])
HELP = [('subtract', 'vv', lambda a, b: a - b), ('xexpay', 'Vsv', lambda x, a, y: x + a * y), ('xeaxpy', 'sVv', lambda a, x, y: a * x + y),
        ('zeawpbxmypcz', 'svsvvsV', lambda a, w, b, x, y, c_, z: a * w + b * (x - y + c_ * z)), ('xeaxpbypcz', 'sVsvsv', lambda a, x, b, y, c_, z: a * x + b * y + c_ * z),
        ('zeaxpby', 'svsv', lambda a, x, b, y: a * x + b * y), ('zeawpbxpcy', 'svsvsv', lambda a, w, b, x, c_, y: a * w + b * x + c_ * y),
        ('zeavpbwpcxpdy', 'svsvsvsv', lambda a, v, b, w, c_, x, d, y: a * v + b * w + c_ * x + d * y)]

def run(R):
    for nm, order, f in HELP:
        R.contract('vector kernel ' + nm, TU, lambda c, a=(nm, order, f): helper(c, *a), [dict(n=k) for k in (1, 2, 3)])
    for nm, kind, fam in SOLVERS:
        R.contract(nm + ': invariants of the iteration', TU, lambda c, a=(nm, kind, fam): solver(c, *a), [], timeout=150)
        for m in (1, 2, 3):
            R.contract('%s: iterate %d is the textbook one' % (nm, m), TU, lambda c, a=(nm, kind, m): iterates(c, *a), [dict(seed=7 + m)], sym=False, bounded=True, timeout=100)
    R.bounded.append('iterates equal the textbook recurrences: 3 unknowns, 1 to 3 iterations, generic (random, GF(p)) matrices and right hand sides')
    R.assumptions += ['product of a matrix with a vector: contract proved in C04; preconditioner application: a linear map (C07); symmetry of matrix and preconditioner where conjugacy is claimed',
                      'no division by a vanishing inner product (breakdown) before convergence']
    runtime(R)

def runtime(R):
    n = 40 if R.tier == 'quick' else 800
    rc, out, err = R.driver('krylov.cpp', [R.seed, n, 0], flags=['-fsanitize=address,undefined'])
    if rc is None: R.violate('driver', 'build', err); return
    cases, open_ = parse_cases(out)
    for c in cases:
        R.cases += 1
        bad = check_case(c)
        if bad: R.violate('system of %d equations' % len(c['b']), 'execution', bad, dict(c)); return
    if rc != 0: R.violate('Krylov solvers', 'execution', 'driver status %s: %s' % (rc, err[-600:]), open_ or {'seed': R.seed})

def ilu0(a):
    n = len(a); pat = a != 0; m = a.copy()
    for i in range(n):
        for k in range(i):
            if not pat[i, k]: continue
            m[i, k] /= m[k, k]
            for j in range(k + 1, n):
                if pat[i, j] and pat[k, j]: m[i, j] -= m[i, k] * m[k, j]
    return m
def check_case(c):
    global WATCH
    WATCH = []
    try: return check_case_(c)
    finally: WATCH = None
def check_case_(c):
    b = np.array(c['b']); n = len(b); A = np.array(c['A']).reshape(n, n); bn = np.linalg.norm(b); w, sit = c['sor'][0], int(c['sor'][1])
    if 'after' in c and not np.array_equal(np.array(c['after']).reshape(n, n), A): return 'a solver changed the matrix'
    M = ilu0(A); ga = {(i, j): A[i, j] for i in range(n) for j in range(n)}; gm = {(i, j): M[i, j] for i in range(n) for j in range(n)}
    d = np.diag(A); xs = np.linalg.solve(A, b)
    dv = lambda p, q: p / q if q else float('nan')
    dv0 = lambda p, q: p / q if q else 0.0
    pre = {'ILU0': lambda v: lsolve(n, gm, v, dv), 'Scal': lambda v: [p / q for p, q in zip(v, d)], 'SORC': lambda v: sor(n, ga, v, w, sit, 0.0, dv)}
    for key, x in c.items():
        if '_' not in key or key == '_name': continue
        tag, nm = key.split('_'); x = np.array(x)
        if len(x) != n: return '%s returned %d components' % (nm, len(x))
        if tag in ('full', 'coarse', 'mid'):
            eps = {'full': 1e-9, 'coarse': 3e-2, 'mid': 1e-4}[tag]
            res = np.linalg.norm(b - A @ x)
            if not res <= eps * bn * 1.0001 + 1e-12 * bn and 'Bi' in nm:      # breakdown of the method itself (a vanishing inner product) is excluded
                with np.errstate(all='ignore'): want = ref(nm, n, lambda v: list(A @ np.array(v)), pre.get(nm[:4], lambda v: v), list(b), 400, pre['Scal'] if nm == 'ScalingBiCGSTAB' else (lambda r: r), lambda r: np.linalg.norm(r) < eps * bn, 0.0, 1.0, dv, dv0)
                if WATCH or not np.all(np.isfinite(want)): WATCH.clear(); continue
            if not res <= eps * bn * 1.0001 + 1e-12 * bn: return '%s (tolerance %g) returned %s with residual %g of a right hand side of norm %g' % (nm, eps, x.tolist(), res, bn)
            if tag != 'full' : continue
        else:
            m = int(tag[1:])
            if m >= n or np.linalg.norm(b - A @ x) <= 1e-9 * bn: continue     # exact solution reached: later iterations divide rounding errors
            WATCH.clear()
            with np.errstate(all='ignore'):
                want = np.array(ref(nm, n, lambda v: list(A @ np.array(v)), pre.get(nm[:4], lambda v: v), list(b), m, pre['Scal'] if nm == 'ScalingBiCGSTAB' else (lambda r: r), None, 0.0, 1.0, dv, dv0))
            if not WATCH and np.all(np.isfinite(want)) and np.linalg.norm(b - A @ want) > 1e-8 * bn and np.linalg.norm(want) < 1e3 * np.linalg.norm(xs) and not np.allclose(x, want, rtol=1e-6, atol=1e-7 * np.linalg.norm(xs)): return '%s after %d iterations: %s instead of %s' % (nm, m, x.tolist(), want.tolist())
    return None
