from feq import *
from c15 import pts, edge, ssum, outer, scale
from c01 import sumk
TITLE = 'loads, masses, geometry and field utilities'
INC = ['FEM/Equation/PlaneStrain.h', 'FEM/Equation/PlaneStress.h', 'FEM/Equation/General.h', 'FEM/Equation/Numeric.h']
PL = (('ShapeFunction3Triangle', 'Gauss1Triangle'), ('ShapeFunction4Square', 'Gauss4Square'), ('ShapeFunction8Square', 'Gauss9Square'))
LN = (('ShapeFunction2Line', 'Gauss1Line'), ('ShapeFunction3Line', 'Gauss2Line'))
SO = (('ShapeFunction4Tetrahedron', 'Gauss1Tetrahedron'), ('ShapeFunction8Cubic', 'Gauss8Cubic'), ('ShapeFunction20Cubic', 'Gauss27Cubic'))
def inter(R, N, q, s, F):
    for i, n in enumerate(N):
        for a in range(2): F[2 * i + a] = F[2 * i + a] + n * q[a] * s
def xat(R, env, N): return [dotz(R, N, [v[k] for v in env.x[0]]) for k in range(len(env.x[0][0]))]
def mass(R, env):
    n = env.ns[0]; K = mats(2 * n, 2 * n, R.zero)
    for fam, s, G in pts(R, env):
        N = fam[0][0]
        for i in range(n):
            for j in range(n):
                v = N[i] * N[j] * s * env.p[0] * env.p[1]
                for a in range(2): K[2 * i + a][2 * j + a] = K[2 * i + a][2 * j + a] + v
    return {'K': K}
def body(R, env):
    F = [R.zero] * (2 * env.ns[0])
    for fam, s, G in pts(R, env): inter(R, fam[0][0], env.f(*xat(R, env, fam[0][0])), s * env.p[0], F)
    return {'F': F}
def surf(R, env):
    F = [R.zero] * (2 * env.ns[0])
    for fam, s, x in edge(R, env): inter(R, fam[0][0], env.f(*x), s * env.p[0], F)
    return {'F': F}
def measure(R, env): return {'S': ssum(R, [R.det(mmul(fam[0][1], env.x[0])) * w for fam, w, r in env.tab])}
def lineint(R, env): return {'S': ssum(R, [env.f(*x) * s for fam, s, x in edge(R, env)])}
def entries():
    E = []; G = []; x = ('x', 2)
    for p in ('PlaneStrain', 'PlaneStress'):
        for tm in PL:
            E.append(Entry(p + 'Mass', tm, ['K', 'M', 'E', 'D', x, 'r', 'r'], mass, 2, slots_std, sym=True))
            E.append(Entry(p + 'BodyForce', tm, ['F', 'M', 'E', 'D', x, 'FV', 'r'], body, 2, slots_std))
        for tm in LN: E.append(Entry(p + 'SurfaceForce', tm, ['F', 'M', 'E', 'D', x, 'FV', 'r'], surf, 2, slots_std))
    for tm in PL: G.append(Entry('Area', tm, [x, 'E'], measure, 0, None, scal=True))
    for tm in SO: G.append(Entry('Volume', tm, [('x', 3), 'E'], measure, 0, None, scal=True))
    for tm in LN: G.append(Entry('NumericIntegrationOnLine', tm, [('x', 1), 'E', 'FS'], lineint, 0, None, scal=True))
    return E, G
GTU = 'el_general.cpp'
def nodes(c, name, n, NN):
    """arbitrary list of n node numbers of a mesh with NN nodes"""
    if c.symbolic:
        a = c.it.sym_array(P(n), 'int', name)
        c.it.axioms[name] = lambda i: [Implies(And(le(0, i), lt(i, n)), And(le(0, read(name, (i,), 'int')), lt(read(name, (i,), 'int'), NN)))]
        return a
    v = [var('%s%d' % (name, i), 'int') for i in range(int(P(n).const()))]
    for e in v: c.it.assume(And(le(0, e), lt(e, NN)))
    return ArrC(v, 'int')
def vecs(c, name, n, d):
    n = P(n)
    if n.const() is not None: return ArrC([c.vec('%s%d' % (name, i), d) for i in range(int(n.const()))], VT)
    b = LeafArr(('sym', name), (), 'real'); sz = const_leaf(name + '.size', d, n); ln = const_leaf(name + '.len', d, n)
    return ArrS(n, BObj('Vector<double>', {'size': sz, 'values': BArr(ln, b, 'double')}), (), VT)
def general(R):
    def cog(c):
        n, NN, d = c.int('n', 1), c.int('N', 1), c.int('d', 1)
        x = vecs(c, 'x', NN, d); e = nodes(c, 'e', n, NN)
        r = c.call('CenterOfGravity', [x, e])
        c.ensure_eq('dimension', r.f['size'], d)
        c.forall('mean of the nodes', [('k', 0, d)], lambda k: [(vget(r, k) * n, sumk(c, n, lambda i: vget(aelem(x, aelem(e, i)), k)))])
    R.contract('CenterOfGravity', GTU, cog, [dict(n=n, N=5, d=d) for n, d in ((1, 2), (3, 2), (4, 3))], contracts=CON)
    def spring(c):
        n, m = c.int('n', 1), c.int('m', 1); al = c.real('alpha')
        e = c.arr(n, 'int', 'e'); d = c.arr(m, 'int', 'dou'); x = vecs(c, 'x', c.int('N', 1), 2)
        c.call('WeakSpring', [El.K0(None), El.M0(None), e, d, x, al])
        K, mp = c.it.get(c.args[0]), c.it.get(c.args[1])
        c.ensure_eq('rows', K.f['row'], n * m); c.ensure_eq('columns', K.f['col'], n * m)
        c.forall('alpha times identity', [('i', 0, n * m), ('j', 0, n * m)], lambda i, j: [(mget(K, i, j), al * ind(eq(i, j)))])
        c.ensure_eq('map nodes', mp.n, n)
        c.forall('map', [('i', 0, n), ('j', 0, m)], lambda i, j: [('dofs', aelem(mp, i).n, m), ('dof', aelem(aelem(mp, i), j).f['first'], aelem(d, j)), ('row', aelem(aelem(mp, i), j).f['second'], i * m + j)])
    R.contract('WeakSpring', GTU, spring, [dict(n=n, m=m, N=3) for n, m in ((1, 1), (2, 3), (4, 2), (3, 6))], contracts=LA)
    # element vector: sizes concrete, values and numbering arbitrary
    def elvec(multi):
        def f(c):
            n, nd, off = c.sizes['n'], c.sizes['nd'], 0
            NN = var('N', 'int'); c.it.assume(ge(NN, 1)); D = 6
            x = vecs(c, 'u', NN, D); ms, es, want = [], [], {}
            perm = list(range(sum(n) * nd)); random.Random(c.sizes['s']).shuffle(perm)
            for k, m in enumerate(n):
                e = [var('e%d_%d' % (k, i), 'int') for i in range(m)]
                for v in e: c.it.assume(And(le(0, v), lt(v, NN)))
                rows = []
                for i in range(m):
                    row = []
                    for j in range(nd):
                        s = perm[off]; off += 1; dof = (s * 5 + j) % D
                        row.append(Obj('pair', {'first': P(dof), 'second': P(s)})); want[s] = (e[i], dof)
                    rows.append(ArrC(row, ('pair', 'int', 'int')))
                ms.append(ArrC(rows, ('vec', ('pair', 'int', 'int')))); es.append(ArrC(e, 'int'))
            if multi: r = c.call('ElementVector', [x, ArrC(ms, ('vec', ('vec', ('pair', 'int', 'int')))), ArrC(es, ('vec', 'int'))], pick=lambda f: 'vector<vector<int' in f['type']['qualType'].replace('std::', ''))
            else: r = c.call('ElementVector', [x, ms[0], es[0]], pick=lambda f: 'vector<vector<int' not in f['type']['qualType'].replace('std::', ''))
            c.ensure_eq('size', r.f['size'], off)
            for s, (node, dof) in want.items(): c.ensure_eq('slot %d' % s, vget(r, s), vget(aelem(x, node), dof))
        return f
    R.contract('ElementVector', GTU, elvec(False), [dict(n=[n], nd=d, s=s) for n, d, s in ((1, 1, 1), (3, 2, 2), (4, 3, 3), (8, 2, 4))], sym=False)
    R.contract('ElementVector (several maps)', GTU, elvec(True), [dict(n=n, nd=d, s=s) for n, d, s in (([2], 1, 1), ([3, 2], 2, 2), ([1, 2, 3], 1, 3))], sym=False)
    def lag(c):
        n = c.sizes['n']; xs = [var('x%d' % i) for i in range(n)]; t = var('t')
        N = c.call('LagrangeInterpolation', [ArrC(xs, 'double'), t]); D = c.call('LagrangeInterpolationDerivative', [ArrC(xs, 'double'), t])
        c.ensure_eq('number of functions', N.n, n); c.ensure_eq('number of derivatives', D.n, n)
        from terms import diff
        for i in range(n):
            w = ONE
            for j in range(n):
                if j != i: w = w * (t - xs[j]) * inv(xs[i] - xs[j])
            c.ensure_eq('N_%d' % i, aelem(N, P(i)), w); c.ensure_eq('dN_%d' % i, aelem(D, P(i)), diff(w, t.as_atom()))
    R.contract('LagrangeInterpolation', GTU, lag, [dict(n=n) for n in range(1, 6)], sym=False)
    # averaging between elements and nodes
    def mesh(c, NN):
        E = c.int('E', 1)
        if c.symbolic:
            es = c.it.sym_array(E, ('vec', 'int'), 'es')
            rd = lambda i, j: read('es.el', (i, j), 'int'); ln = lambda i: read('es.len', (i,), 'int')
            c.it.axioms['es.len'] = lambda i: [Implies(And(le(0, i), lt(i, E)), ge(ln(i), 1))]
            c.it.axioms['es.el'] = lambda i, j: [Implies(And(le(0, i), lt(i, E), le(0, j), lt(j, ln(i))), And(le(0, rd(i, j)), lt(rd(i, j), NN)))]
            return E, es
        rnd = random.Random(c.sizes['s']); n = int(NN.const())
        return E, ArrC([ArrC([P(k) for k in rnd.sample(range(n), rnd.randint(1, min(4, n)))], 'int') for _ in range(int(E.const()))], ('vec', 'int'))
    def e2n(vec):
        def f(c):
            NN = c.int('N', 1); E, es = mesh(c, NN); d = c.int('d', 1)
            ue = vecs(c, 'ue', E, d) if vec else c.arr(E, 'double', 'ue')
            u0 = c.vec('u0', d) if vec else c.real('u0')
            r = c.call('InterpolateNodalFromElemental', [NN, u0, ue, es], pick=lambda f: ('Vector' in f['type']['qualType']) == vec)
            c.ensure_eq('one value per node', r.n, NN)
            def post(n, k=None):
                g = (lambda v: vget(v, k)) if vec else (lambda v: v)
                cnt = sumk(c, E, lambda i: sumk(c, aelem(es, i).n, lambda j: ind(eq(aelem(aelem(es, i), j), n))))
                tot = g(u0) + sumk(c, E, lambda i: sumk(c, aelem(es, i).n, lambda j: ind(eq(aelem(aelem(es, i), j), n)) * g(aelem(ue, i))))
                if cnt.const() == 0: return []
                return [(g(aelem(r, n)), tot * inv(cnt))]
            c.forall('mean over the adjacent elements', [('n', 0, NN)] + ([('k', 0, d)] if vec else []), post)
        return f
    def n2e(vec):
        def f(c):
            NN = c.int('N', 1); E, es = mesh(c, NN); d = c.int('d', 1)
            un = vecs(c, 'un', NN, d) if vec else c.arr(NN, 'double', 'un')
            u0 = c.vec('u0', d) if vec else c.real('u0')
            r = c.call('InterpolateElementalFromNodal', [u0, un, es], pick=lambda f: ('Vector' in f['type']['qualType']) == vec)
            c.ensure_eq('one value per element', r.n, E)
            def post(i, k=None):
                g = (lambda v: vget(v, k)) if vec else (lambda v: v); L = aelem(es, i).n
                return [(g(aelem(r, i)), (g(u0) + sumk(c, L, lambda j: g(aelem(un, aelem(aelem(es, i), j))))) * inv(L))]
            c.forall('mean over the nodes of the element', [('i', 0, E)] + ([('k', 0, d)] if vec else []), post)
        return f
    SMn = [dict(N=n, E=e, d=d, s=s) for n, e, d, s in ((1, 1, 1, 1), (3, 2, 2, 2), (5, 4, 2, 3), (4, 5, 3, 4))]
    for vec in (False, True):
        R.contract('InterpolateNodalFromElemental' + (' of vectors' if vec else ''), GTU, e2n(vec), SMn, contracts=LA)
        R.contract('InterpolateElementalFromNodal' + (' of vectors' if vec else ''), GTU, n2e(vec), SMn, contracts=LA)
def run(R):
    seeds = [{'seed': 1}, {'seed': 2}] if R.tier == 'quick' else [{'seed': k} for k in range(1, 6)]
    E, G = entries()
    for e in E: contract(R, 'el_solid.cpp', e, seeds)
    for e in G: contract(R, GTU, e, seeds)
    general(R)
    replay(R, E + G, INC)
    runtime(R)
def runtime(R):
    """the utility contracts on compiled code"""
    rc, out, err = R.driver('gen.cpp', [R.seed, 40 if R.tier == 'quick' else 1000], ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'])
    if rc is None: R.violate('utilities driver', 'build', err); return
    cases, cur = parse_cases(out)
    for c in cases:
        R.cases += 1; nn, d, ne = map(int, c['nn']); f = list(map(int, c['el'])); el = []
        while f: el.append(f[1:1 + f[0]]); f = f[1 + f[0]:]
        X, vn, ve = (np.array(c[k]).reshape(-1, d) for k in ('x', 'vn', 've')); un, ue = np.array(c['un']), np.array(c['ue']); u0 = c['u0'][0]; v0 = np.array(c['v0'])
        inc = [[i for i, e in enumerate(el) for q in e if q == n] for n in range(nn)]
        def n2e(w0, w):
            with np.errstate(all='ignore'): return [(w0 + sum(w[i] for i in r)) / np.float64(len(r)) for r in inc]
        used = [n for n in range(nn) if inc[n]]
        m = list(map(int, c['map'])); ev = {}; i = 0
        while m:
            for q in range(m[0]): ev[m[2 + 2 * q]] = vn[el[0][i], m[1 + 2 * q]]
            m = m[1 + 2 * m[0]:]; i += 1
        xs = c['xs']; p = c['xp'][0]; k = len(xs)
        lag = [np.prod([(p - xs[j]) / (xs[i] - xs[j]) for j in range(k) if j != i]) for i in range(k)]
        dlag = [sum(np.prod([(p - xs[q]) / (xs[i] - xs[q]) for q in range(k) if q != i and q != j]) / (xs[i] - xs[j]) for j in range(k) if j != i) for i in range(k)]
        dl = list(map(int, c['dl'])); nd = len(dl)
        exp = {'cog': X[el[0]].mean(axis=0), 'e2n': [(u0 + sum(un[q] for q in e)) / len(e) for e in el], 'e2nv': np.array([(v0 + sum(vn[q] for q in e)) / len(e) for e in el]).ravel(),
               'ev': [ev[q] for q in range(len(ev))], 'ev2': [ev[q] for q in range(len(ev))], 'lag': lag, 'dlag': dlag,
               'ws': np.r_[[nd * len(el[0])] * 2, (c['al'][0] * np.eye(nd * len(el[0]))).ravel()], 'wsm': [v for i in range(len(el[0])) for v in [nd] + [z for j in range(nd) for z in (dl[j], nd * i + j)]]}
        got = dict(c); a = n2e(u0, ue); b = n2e(v0, ve)
        got['n2e'] = [c['n2e'][n] for n in used] if len(c['n2e']) == nn else c['n2e']; exp['n2e'] = [a[n] for n in used]
        gv = np.array(c['n2ev'])
        got['n2ev'] = gv.reshape(nn, d)[used].ravel() if gv.size == nn * d else gv; exp['n2ev'] = np.array([b[n] for n in used]).ravel()
        for k_, w in exp.items():
            g = np.array(got[k_], float).ravel(); w = np.array(w, float).ravel()
            if g.shape != w.shape or not np.allclose(g, w, rtol=1e-9, atol=1e-9):
                R.violate('utility ' + k_, 'execution', 'observed %s, contract requires %s' % (g.tolist()[:20], w.tolist()[:20]), {q: c[q] for q in ('nn', 'el', 'x', 'un', 'ue', 'vn', 've', 'u0', 'v0', 'map', 'xs', 'xp', 'dl', 'al')}); return
    if rc != 0: R.violate('utility execution', 'execution', 'driver ended with status %s: %s' % (rc, err[-500:]), cur or {})
