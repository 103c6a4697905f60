from feq import *
TITLE = 'finite deformation elements'
TU = 'el_solid.cpp'
PL = (('ShapeFunction3Triangle', 'Gauss1Triangle'), ('ShapeFunction4Square', 'Gauss4Square'), ('ShapeFunction8Square', 'Gauss9Square'))
SO = (('ShapeFunction4Tetrahedron', 'Gauss1Tetrahedron'), ('ShapeFunction8Cubic', 'Gauss8Cubic'))
def run(R):
    seeds = [{'seed': 1}, {'seed': 2}] if R.tier == 'quick' else [{'seed': k} for k in range(1, 6)]
    def mk(fnm, tm, d, npar, resid, symm=False, sds=seeds):
        def body(c):
            tab = gtab(c, *tm); n = len(tab[0][0])
            el = GEl(c, n, d); x, u = el.nodal('x', d), el.nodal('u', d); p = [c.gen() for _ in range(npar)]
            c.call(fnm, [el.K0(), el.F0(), el.M0(), el.element, el.doulist, x, u] + p, pick=mang(*tm))
            K, F, m = (c.it.get(a) for a in c.args[:3])
            check_map(c, m, el.dou, n, lambda i, j: d * i + j)
            X, U = el.fields['x'], el.fields['u']
            dirv = [[c.gen() for _ in range(d)] for _ in range(n)]
            Ud = [[Dual(a, b) for a, b in zip(r, s)] for r, s in zip(U, dirv)]
            res = resid(GEN, X, Ud, tab, *(p if len(p) == 3 or symm else p + [1]))
            check_vec(c, F, [r.a for r in res])
            c.ensure_eq('Ke rows', K.f['row'], d * n); c.ensure_eq('Ke columns', K.f['col'], d * n)
            A = mentries(K); v = [s for r in dirv for s in r]
            if not symm:
                Kv = mv(A, v)
                for i in range(d * n): c.ensure_eq('Ke v = -dFe[v] row %d' % i, Kv[i], -res[i].b)
            else:
                # symmetric part of the exact tangent, column by column
                cols = []
                for q in range(d * n):
                    Uq = [[Dual(U[a][i], ONE if d * a + i == q else ZERO) for i in range(d)] for a in range(n)]
                    cols.append([-r.b for r in resid(GEN, X, Uq, tab, *p)])
                for i in range(d * n):
                    for j in range(d * n): c.ensure_eq('Ke = symmetric part of -dFe/du (%d,%d)' % (i, j), A[i][j], (cols[j][i] + cols[i][j]).scale(Q(1, 2)))
            for i in range(d * n):
                for j in range(i): c.ensure_eq('Ke symmetric (%d,%d)' % (i, j), A[i][j], A[j][i])
        R.contract('%s<%s>' % (fnm, ','.join(tm)), TU, body, sds, sym=False, contracts=GCON, timeout=400)
    def rest(fnm, tm, d, npar):
        """unstressed under every translation"""
        def body(c):
            tab = gtab(c, *tm); n = len(tab[0][0])
            el = GEl(c, n, d); x = el.nodal('x', d); t = [c.gen() for _ in range(d)]
            u = el.nodal('u', d, lambda N: [t for _ in range(N)]); p = [c.gen() for _ in range(npar)]
            con = dict(GCON)
            c.call(fnm, [el.K0(), el.F0(), el.M0(), el.element, el.doulist, x, u] + p, pick=mang(*tm))
            F = c.it.get(c.args[1])
            for i, f in enumerate(ventries(F)): c.ensure_eq('translation leaves no residual (%d)' % i, f, ZERO)
        R.contract('%s<%s> translation' % (fnm, ','.join(tm)), TU, body, seeds[:1], sym=False, contracts=GCON, timeout=400)
    for tm in PL:
        mk('PlaneStrainStiffnessTotalLagrange', tm, 2, 3, tl_residual); mk('PlaneStrainStiffnessUpdatedLagrange', tm, 2, 3, ul_residual)
        rest('PlaneStrainStiffnessTotalLagrange', tm, 2, 3)
    for tm in SO:
        mk('SolidTotalLagrange', tm, 3, 2, tl_residual); mk('SolidUpdatedLagrange', tm, 3, 2, ul_residual)
        rest('SolidTotalLagrange', tm, 3, 2)
    for tm in (('ShapeFunction2Line', 'Gauss1Line'), ('ShapeFunction3Line', 'Gauss2Line')):
        mk('PlaneStrainSurfacePressureUpdatedLagrange', tm, 2, 2, pressure_residual, True)
    R.assumptions.append('the logarithm is an uninterpreted function with derivative 1/x; nodal data in generic position (identity testing over GF(p))')
    replay(R, entries(), ['FEM/Equation/PlaneStrain.h', 'FEM/Equation/Solid.h'])
def entries():
    E = []
    def add(fnm, tm, d, npar, resid, symm=False):
        pr = [tm]
        def spec(R, env):
            X, U = env.x[0], env.u[0]; n = len(X); t = env.T[tm]; p = list(env.p) + ([1.0] if npar == 2 and not symm else [])
            cols = []
            for q in range(d * n):
                Uq = [[Dual(U[a][i], 1.0 if d * a + i == q else 0.0) for i in range(d)] for a in range(n)]
                cols.append(resid(GEN, X, Uq, t, *p))
            K = [[-cols[j][i].b for j in range(d * n)] for i in range(d * n)]
            if symm: K = [[(K[i][j] + K[j][i]) / 2 for j in range(d * n)] for i in range(d * n)]
            return {'K': K, 'F': [c.a for c in cols[0]]}
        E.append(Entry(fnm, tm, ['K', 'F', 'M', 'E', 'D', ('x', d), ('u', d)] + ['r'] * npar, spec, d, slots_std, pairs=pr, tol=1e-8, small_u=True))
    for tm in PL: add('PlaneStrainStiffnessTotalLagrange', tm, 2, 3, tl_residual); add('PlaneStrainStiffnessUpdatedLagrange', tm, 2, 3, ul_residual)
    for tm in SO: add('SolidTotalLagrange', tm, 3, 2, tl_residual); add('SolidUpdatedLagrange', tm, 3, 2, ul_residual)
    for tm in (('ShapeFunction2Line', 'Gauss1Line'), ('ShapeFunction3Line', 'Gauss2Line')): add('PlaneStrainSurfacePressureUpdatedLagrange', tm, 2, 2, pressure_residual, True)
    return E
