from feq import *
TITLE = 'linear elasticity elements'
TU = 'el_solid.cpp'
EY, NU, TH = var('E'), var('nu'), var('t')
T3, T4, T8 = ('ShapeFunction3Triangle', 'Gauss1Triangle'), ('ShapeFunction4Square', 'Gauss4Square'), ('ShapeFunction8Square', 'Gauss9Square')
B4, B8 = ('ShapeFunction4Square', 'Gauss1Square', 'Gauss4Square'), ('ShapeFunction8Square', 'Gauss4Square', 'Gauss9Square')
GEN_SEEDS = [{'seed': 1}, {'seed': 2}]
def dmat(D): return Obj('Matrix<double>', {'row': P(3), 'col': P(3), 'values': ArrC([x for r in D for x in r], 'double')})
def gtab2(c, S, Qs):
    """tables of several rules for one shape function"""
    return [gtab(c, S, q) for q in Qs]
def run(R):
    def mk(fnm, tmpl, d, args, spec, rect=None):
        """symbolic contract: Ke == spec(X, tables)"""
        def body(c):
            tabs = gtab2(c, tmpl[0], tmpl[1:]); n = len(tabs[0][0][0])
            el = El(c, n, d, d); x = el.nodal('x', d)
            c.call(fnm, [el.K0(), el.M0(), el.element, el.doulist, x] + args(), pick=mang(*tmpl))
            K, m = c.it.get(c.args[0]), c.it.get(c.args[1])
            check_map(c, m, el.dou, n, lambda i, j: d * i + j)
            check_mat(c, K, spec(el.fields['x'], *tabs))
        R.contract('%s<%s>' % (fnm, ','.join(tmpl)), TU, body, [{}], sym=False, contracts=CON, timeout=400)
    C2 = iso4(SYM, 2, *lame_strain(SYM, EY, NU)); C3 = iso4(SYM, 3, *lame_strain(SYM, EY, NU))
    Cs = voigt4(stress_D(SYM, EY, NU))
    Dg = [[var('D%d%d' % (i, j)) for j in range(3)] for i in range(3)]
    iso = lambda: [EY, NU, TH]
    for tm in (T3, T4, T8):
        mk('PlaneStrainStiffness', tm, 2, iso, lambda X, t: elastic(SYM, X, t, C2, TH))
        mk('PlaneStressStiffness', tm, 2, iso, lambda X, t: elastic(SYM, X, t, Cs, TH))
        mk('PlaneStiffness', tm, 2, lambda: [dmat(Dg), TH], lambda X, t: elastic(SYM, X, t, voigt4(Dg), TH))
        mk('HomogenizePlaneStrainBodyForce', tm, 2, iso, lambda X, t: hom_load(SYM, X, t, strain_D(SYM, EY, NU), TH))
    for tm in (B4, B8):
        mk('PlaneStrainStiffnessSRI', tm, 2, iso, lambda X, v, d: sri(SYM, X, v, d, EY, NU, TH))
        mk('PlaneStrainStiffnessBbar', tm, 2, iso, lambda X, v, d: bbar(SYM, X, v, d, strain_D(SYM, EY, NU), TH))
        mk('PlaneStiffnessBbar', tm, 2, lambda: [dmat(Dg), TH], lambda X, v, d: bbar(SYM, X, v, d, Dg, TH))
    for tm in (('ShapeFunction4Tetrahedron', 'Gauss1Tetrahedron'), ('ShapeFunction8Cubic', 'Gauss8Cubic')):
        mk('SolidLinearIsotropicElastic', tm, 3, lambda: [EY, NU], lambda X, t: elastic(SYM, X, t, C3, P(1)))
    def tr2(c):
        el = El(c, 2, 2, 2); x = el.nodal('x', 2)
        c.call('Truss2D', [el.K0(), el.M0(), el.element, el.doulist, x, EY, var('A')])
        check_map(c, c.it.get(c.args[1]), el.dou, 2, lambda i, j: 2 * i + j)
        check_mat(c, c.it.get(c.args[0]), truss(SYM, el.fields['x'], EY, var('A')))
    R.contract('Truss2D', TU, tr2, [{}], sym=False, contracts=CON)
    # homogenised constitutive law
    def hom(fnm, tm, check):
        def body(c):
            tab = gtab(c, *tm); n = len(tab[0][0])
            el = El(c, n, 2, 2); x = el.nodal('x', 2); ch = [el.nodal('chi%d' % k, 2) for k in range(3)]
            r = c.call(fnm, [x, el.element] + ch + ([TH] if check else [EY, NU, TH]), pick=mang(*tm))
            check_mat(c, r, hom_const(SYM, el.fields['x'], [el.fields['chi%d' % k] for k in range(3)], tab, None if check else strain_D(SYM, EY, NU), TH), 'C')
        R.contract('%s<%s>' % (fnm, ','.join(tm)), TU, body, [{}], sym=False, contracts=CON)
    for tm in (T3, T4, T8):
        hom('HomogenizePlaneStrainConstitutive', tm, False); hom('HomogenizePlaneStrainCheck', tm, True)
    # generic-point contracts (identity testing)
    def gen(fnm, tm, nd, dim, mkargs, spec, tu=TU, flat=False):
        def body(c):
            tabs = gtab2(c, tm[0], tm[1:2] if tu != TU else tm[1:]); n = len(tabs[0][0][0])
            el = GEl(c, n, nd); x = el.nodal('x', dim, (lambda n: gplane(c, n)) if flat else None); args = mkargs(c, el)
            c.call(fnm, [el.K0(), el.M0(), el.element, el.doulist, x] + args, pick=mang(*tm))
            K, m = c.it.get(c.args[0]), c.it.get(c.args[1])
            check_map(c, m, el.dou, n, lambda i, j: nd * i + j)
            check_mat(c, K, spec(c, el, tabs))
            check_sym(c, K)
        R.contract('%s<%s>%s' % (fnm, ','.join(tm), ' flat' if flat else ''), tu, body, GEN_SEEDS if tu == TU or R.tier != 'quick' else GEN_SEEDS[:1], sym=False, contracts=GCON, timeout=400)
    def par(k):
        def f(c, el):
            el.p = [c.gen() for _ in range(k)]; return list(el.p)
        return f
    def parD(c, el):
        d = [c.gen() for _ in range(6)]; el.D = [[d[0], d[1], d[2]], [d[1], d[3], d[4]], [d[2], d[4], d[5]]]; el.p = [c.gen()]
        return [dmat(el.D)] + el.p
    for tm in (T4, T8):
        gen('PlaneStrainStiffnessWilsonTaylor', tm, 2, 2, par(3), lambda c, el, tb: wilson_taylor(GEN, el.fields['x'], tb[0], strain_D(GEN, *el.p[:2]), el.p[2], gsolve))
        gen('PlaneStiffnessWilsonTaylor', tm, 2, 2, parD, lambda c, el, tb: wilson_taylor(GEN, el.fields['x'], tb[0], el.D, el.p[0], gsolve))
    for tm, flat in ((('ShapeFunction4Square', 'Gauss4Square', 'Gauss2Line'), True), (('ShapeFunction8Square', 'Gauss4Square', 'Gauss2Line'), True), (('ShapeFunction4Square', 'Gauss1Square', 'Gauss1Line'), False)):
        for six, fnm in ((False, 'ShellLinearIsotropicElastic'), (True, 'ShellLinearIsotropicElastic2')):
            def sp(c, el, tb, six=six, tm=tm):
                pts = c.call('sfPoints', [], pick=mang(tm[0])); cd = []
                for i in range(el.n):
                    D = c.call('sfdN', [aelem(pts, P(i))], pick=mang(tm[0])); cd.append(mentries(D))
                return shell(GEN, el.fields['x'], tb[0], gtab(c, 'ShapeFunction2Line', tm[2]), cd, *el.p, six)
            gen(fnm, tm, 6 if six else 5, 3, par(3), sp, 'el_shell.cpp', flat)
    def bargs(c, el):
        v1, v2 = (el.nodal(k, 3, lambda n: [gunit(c) for _ in range(n)]) for k in ('v1', 'v2')); el.p = [c.gen() for _ in range(4)]; return [v1, v2] + el.p
    for tm in (('ShapeFunction2Line', 'Gauss1Line', 'Gauss4Square'), ('ShapeFunction3Line', 'Gauss2Line', 'Gauss4Square')):
        gen('BeamLinearIsotropicElastic', tm, 6, 3, bargs, lambda c, el, tb: beam(GEN, el.fields['x'], el.fields['v1'], el.fields['v2'], tb[0], gtab(c, 'ShapeFunction4Square', 'Gauss4Square'), *el.p), 'el_shell.cpp')
    replay(R, entries(), INC)
INC = ['FEM/Equation/PlaneStrain.h', 'FEM/Equation/PlaneStress.h', 'FEM/Equation/Solid.h', 'FEM/Equation/Truss.h', 'FEM/Equation/Beam.h', 'FEM/Equation/Shell.h', 'FEM/Equation/Homogenization.h']
def npinv(A): return np.linalg.inv(np.array(A, float)).tolist()
def entries():
    """the same specifications for the replay on compiled code"""
    E = []; std = ['K', 'M', 'E', 'D', ('x', 2)]; iso = std + ['r', 'r', 'r']; isoA = std + [('A', 3, 3), 'r']
    def add(fnm, tm, args, spec, nd=2, **k):
        pr = [(tm[0], q) for q in tm[1:]] if 'pairs' not in k else k.pop('pairs')
        E.append(Entry(fnm, tm, args, lambda R, env: {'K': spec(env.x[0], env, *[env.T[q] for q in pr])}, nd, slots_std if 'D' in args else None, pairs=pr, **k))
    C2 = lambda e: iso4(FLT, 2, *lame_strain(FLT, e.p[0], e.p[1])); C3 = lambda e: iso4(FLT, 3, *lame_strain(FLT, e.p[0], e.p[1])); D2 = lambda e: strain_D(FLT, e.p[0], e.p[1])
    for tm in (T3, T4, T8):
        add('PlaneStrainStiffness', tm, iso, lambda X, e, t: elastic(FLT, X, t, C2(e), e.p[2]), sym=True)
        add('PlaneStressStiffness', tm, iso, lambda X, e, t: elastic(FLT, X, t, voigt4(stress_D(FLT, e.p[0], e.p[1])), e.p[2]), sym=True)
        add('PlaneStiffness', tm, isoA, lambda X, e, t: elastic(FLT, X, t, voigt4(e.A), e.p[0]))
        add('HomogenizePlaneStrainBodyForce', tm, iso, lambda X, e, t: hom_load(FLT, X, t, D2(e), e.p[2]))
        hx = [('x', 2), 'E', ('chi0', 2), ('chi1', 2), ('chi2', 2)]
        add('HomogenizePlaneStrainConstitutive', tm, hx + ['r', 'r', 'r'], lambda X, e, t: hom_const(FLT, X, [e.chi0[0], e.chi1[0], e.chi2[0]], t, D2(e), e.p[2]), ret=True)
        add('HomogenizePlaneStrainCheck', tm, hx + ['r'], lambda X, e, t: hom_const(FLT, X, [e.chi0[0], e.chi1[0], e.chi2[0]], t, None, e.p[0]), ret=True)
    for tm in (B4, B8):
        add('PlaneStrainStiffnessSRI', tm, iso, lambda X, e, v, d: sri(FLT, X, v, d, *e.p), sym=True)
        add('PlaneStrainStiffnessBbar', tm, iso, lambda X, e, v, d: bbar(FLT, X, v, d, D2(e), e.p[2]), sym=True)
        add('PlaneStiffnessBbar', tm, isoA, lambda X, e, v, d: bbar(FLT, X, v, d, e.A, e.p[0]))
    for tm in (T4, T8):
        add('PlaneStrainStiffnessWilsonTaylor', tm, iso, lambda X, e, t: wilson_taylor(FLT, X, t, D2(e), e.p[2], npinv), sym=True, tol=1e-7)
    for tm in (('ShapeFunction4Tetrahedron', 'Gauss1Tetrahedron'), ('ShapeFunction8Cubic', 'Gauss8Cubic')):
        add('SolidLinearIsotropicElastic', tm, ['K', 'M', 'E', 'D', ('x', 3), 'r', 'r'], lambda X, e, t: elastic(FLT, X, t, C3(e), 1.0), 3, sym=True)
    add('Truss2D', (), std + ['r', 'r'], lambda X, e: truss(FLT, X, *e.p), nn=2, pairs=(), sym=True)
    for tm in (('ShapeFunction4Square', 'Gauss4Square', 'Gauss2Line'), ('ShapeFunction8Square', 'Gauss4Square', 'Gauss2Line'), ('ShapeFunction4Square', 'Gauss1Square', 'Gauss1Line')):
        for six, fnm in ((False, 'ShellLinearIsotropicElastic'), (True, 'ShellLinearIsotropicElastic2')):
            add(fnm, tm, ['K', 'M', 'E', 'D', ('x', 3), 'r', 'r', 'r'], lambda X, e, t, z, nodes, six=six: shell(FLT, X, t, z, [q[1] for q in nodes], *e.p, six), 6 if six else 5, pairs=[tm[:2], ('ShapeFunction2Line', tm[2]), (tm[0], 'Nodes')], sym=True, tol=1e-7)
    for tm in (('ShapeFunction2Line', 'Gauss1Line', 'Gauss4Square'), ('ShapeFunction3Line', 'Gauss2Line', 'Gauss4Square')):
        add('BeamLinearIsotropicElastic', tm, ['K', 'M', 'E', 'D', ('x', 3), ('v1', 3), ('v2', 3), 'r', 'r', 'r', 'r'], lambda X, e, t, q: beam(FLT, X, e.v1[0], e.v2[0], t, q, *e.p), 6, pairs=[tm[:2], ('ShapeFunction4Square', 'Gauss4Square')], sym=True, tol=1e-7)
    return E
def hom_load(R, X, tab, D, t):
    F = mats(2 * len(X), 3, R.zero)
    for N, dN, w, r in tab:
        J, det, G = geom(R, X, dN); B = bcols(R, G)
        madd(F, [[dotz(R, b, [D[k][q] for k in range(3)]) for q in range(3)] for b in B], det * w * t)
    return F
def hom_const(R, X, chi, tab, D, t):
    C = mats(3, 3, R.zero); n = len(X)
    for N, dN, w, r in tab:
        J, det, G = geom(R, X, dN); B = bcols(R, G)
        e = [[R.zero - dotz(R, [B[c][i] for c in range(2 * n)], [chi[q][c // 2][c % 2] for c in range(2 * n)]) + (R.one(1) if D is not None and i == q else R.zero) for q in range(3)] for i in range(3)]
        madd(C, [[dotz(R, D[i], [e[k][q] for k in range(3)]) for q in range(3)] for i in range(3)] if D is not None else e, det * w * t)
    return C
