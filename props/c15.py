from feq import *
TITLE = 'scalar transport and flow elements'
TU = 'el_flow.cpp'
INC = ['FEM/Equation/HeatTransfer.h', 'FEM/Equation/Advection.h', 'FEM/Equation/ReactionDiffusion.h', 'FEM/Equation/Stokes.h', 'FEM/Equation/NavierStokes.h']
def ssum(R, it):
    s = R.zero
    for x in it: s = s + x
    return s
def pts(R, env, k=0):
    """quadrature points: (shape families, J, weight*J, gradients per family); geometry by family k"""
    out = []
    for fam, w, r in env.tab:
        J = mmul(fam[k][1], env.x[k]); d = R.det(J); iJ = R.inv(J)
        out.append((fam, d * w, [mmul(iJ, f[1]) for f in fam]))
    return out
def edge(R, env, k=0):
    out = []
    for fam, w, r in env.tab:
        J = mmul(fam[k][1], env.x[k])[0]; out.append((fam, R.sqrt(dotz(R, J, J)) * w, [dotz(R, fam[k][0], [x[i] for x in env.x[k]]) for i in range(len(J))]))
    return out
def bil(R, env, f, n=None):
    n = n or env.ns[0]; K = mats(n, n, R.zero)
    for fam, s, G in pts(R, env):
        madd(K, f(fam[0][0], G[0]), s)
    return K
def outer(a, b): return [[x * y for y in b] for x in a]
def grad2(R, G): return [[dotz(R, [G[k][i] for k in range(2)], [G[k][j] for k in range(2)]) for j in range(len(G[0]))] for i in range(len(G[0]))]
def scale(A, s): return [[x * s for x in r] for r in A]
def supg_tau(R, G, a, k, shock):
    an = R.sqrt(dotz(R, a, a)); s = ssum(R, [R.abs(dotz(R, [G[q][i] for q in range(2)], a)) for i in range(len(G[0]))])
    he = R.div(R.div(R.one(2), s) * an, R.one(1)); al = R.div(he * an, k * R.one(2))
    t = R.div(he * an, R.one(2)) if shock else R.div(he, an * R.one(2))
    return t * R.le(al, R.one(3), R.div(al, R.one(3)), R.one(1))
def lumped(R, env, rho=None):
    A = ssum(R, [s for fam, s, G in pts(R, env)])
    if rho is not None: A = A * rho
    return R.div(A, R.one(env.ns[0]))
def diag(R, n, v): return [[v if i == j else R.zero for j in range(n)] for i in range(n)]
def blk2(R, A, B=None):
    n = len(A); K = mats(2 * n, 2 * n, R.zero)
    for i in range(n):
        for j in range(n): K[i][j] = A[i][j]; K[n + i][n + j] = A[i][j]
    return K
def S_(name):
    def f(R, env):
        p = env.p
        if name == 'HeatTransfer': return {'K': bil(R, env, lambda N, G: scale(grad2(R, G), p[0] * p[1]))}
        if name == 'HeatCapacity': return {'K': bil(R, env, lambda N, G: scale(outer(N, N), p[0] * p[1] * p[2]))}
        if name == 'Advection': return {'K': bil(R, env, lambda N, G: outer(N, [G[0][j] * p[0] + G[1][j] * p[1] for j in range(len(N))]))}
        if name in ('Diffusion', 'ReactionDiffusionStiffness'): return {'K': bil(R, env, lambda N, G: scale(grad2(R, G), p[0]))}
        if name in ('Mass', 'ReactionDiffusionConsistentMass'): return {'K': bil(R, env, lambda N, G: outer(N, N))}
        if name == 'ReactionDiffusionLumpedMass': return {'K': diag(R, env.ns[0], lumped(R, env))}
        if name in ('AdvectionSUPG', 'MassSUPG', 'AdvectionShockCapturing'):
            a, k = p[:2], p[2]
            def g(N, G):
                t = supg_tau(R, G, a, k, name == 'AdvectionShockCapturing'); Ga = [G[0][j] * a[0] + G[1][j] * a[1] for j in range(len(N))]
                return scale({'AdvectionSUPG': lambda: outer(Ga, Ga), 'MassSUPG': lambda: outer(Ga, N), 'AdvectionShockCapturing': lambda: grad2(R, G)}[name](), t)
            return {'K': bil(R, env, g)}
        if name == 'HeatTransferSurfaceFlux':
            F = [R.zero] * env.ns[0]
            for fam, s, x in edge(R, env):
                q = env.f(*x); F = [u + N * q * s * p[0] for u, N in zip(F, fam[0][0])]
            return {'F': F}
        if name == 'ReactionDiffusionReaction':
            F = [R.zero] * env.ns[0]; U = [u[0] for u in env.u[0]]
            for fam, s, G in pts(R, env):
                q = env.f(dotz(R, fam[0][0], U), dotz(R, G[0][0], U), dotz(R, G[0][1], U)); F = [a + N * q * s for a, N in zip(F, fam[0][0])]
            return {'F': F}
        if name == 'NavierStokesDecoupledConsistentMass': return {'K': blk2(R, bil(R, env, lambda N, G: scale(outer(N, N), p[0])))}
        if name == 'NavierStokesDecoupledLumpedMass': return {'K': diag(R, 2 * env.ns[0], lumped(R, env, p[0]))}
        if name == 'NavierStokesAuxiliaryVelocity':
            m = env.ns[0]; F = [R.zero] * (2 * m); u = env.u[0]
            for fam, s, G in pts(R, env):
                N = fam[0][0]; U = [dotz(R, N, [v[k] for v in u]) for k in range(2)]; dU = [[dotz(R, G[0][l], [v[k] for v in u]) for l in range(2)] for k in range(2)]   # dU[k][l] = d u_k / d x_l
                for k in range(2):
                    c = U[0] * dU[k][0] + U[1] * dU[k][1]
                    for i in range(m): F[k * m + i] = F[k * m + i] - (N[i] * c * p[0] + (G[0][0][i] * dU[k][0] + G[0][1][i] * dU[k][1]) * p[1]) * s
            return {'F': F}
        if name == 'NavierStokesPressurePoisson':
            m = env.ns[0]; F = [R.zero] * m; u = env.u[0]; K = bil(R, env, lambda N, G: grad2(R, G))
            for fam, s, G in pts(R, env):
                div = dotz(R, G[0][0], [v[0] for v in u]) + dotz(R, G[0][1], [v[1] for v in u])
                F = [a - R.div(N * div * p[0], p[1]) * s for a, N in zip(F, fam[0][0])]
            return {'K': K, 'F': F}
        if name == 'NavierStokesNextstepVelocity':
            m = env.ns[0]; F = [R.zero] * (2 * m); P_ = [v[0] for v in env.q[0]]
            for fam, s, G in pts(R, env):
                for k in range(2):
                    d = dotz(R, G[0][k], P_)
                    for i in range(m): F[k * m + i] = F[k * m + i] - fam[0][0][i] * d * s
            return {'F': F}
        raise KeyError(name)
    return f
# ---- mixed velocity-pressure elements ----------------------------------------------------
def mixed(R, env, f, vec=False):
    m, n = env.ns; K = [R.zero] * (2 * m + n) if vec else mats(2 * m + n, 2 * m + n, R.zero)
    for fam, s, G in pts(R, env, 1): f(K, fam[0][0], G[0], fam[1][0], G[1], s)
    return K
def add(K, i, j, v): K[i][j] = K[i][j] + v
def viscous(R, K, G, mu, s, m, divform):
    """mu (grad u : grad w + grad u^T : grad w)   [divform: mu (grad u : grad w + div u div w)]"""
    for i in range(m):
        for j in range(m):
            g = G[0][i] * G[0][j] + G[1][i] * G[1][j]
            for a in range(2):
                for b in range(2):
                    v = (G[a][i] * G[b][j] if divform else G[b][i] * G[a][j])
                    if a == b: v = v + g
                    add(K, a * m + i, b * m + j, v * mu * s)
def press(K, G, N, s, m, sgn):
    for i in range(m):
        for j in range(len(N)):
            for a in range(2):
                v = G[a][i] * N[j] * s
                add(K, a * m + i, 2 * m + j, -v); add(K, 2 * m + j, a * m + i, v * sgn)
def ns_tau(R, env, M, G, U, rho, mu, dt):
    un = R.sqrt(dotz(R, U, U)); area = ssum(R, [s for _, s, _ in pts(R, env, 1)])
    den = ssum(R, [R.abs(dotz(R, [G[q][i] for q in range(2)], U)) for i in range(len(M))])
    he = R.le(un, P(Q(1, 10 ** 10)) if R is not FLT else 1e-10, R.sqrt(area), R.div(un * R.one(2), den) if R is not FLT or den else 0.0)
    sq = lambda x: x * x
    return R.div(R.one(1), R.sqrt(sq(R.div(R.one(2), dt)) + sq(R.div(un * R.one(2), he)) + sq(R.div(mu * R.one(4), rho * he * he))))
def X_(name):
    def f(R, env):
        m, n = env.ns; p = env.p
        if name in ('StokesStiffness', 'ContinuityStiffness'):
            def g(K, M, G, N, H, s):
                if name == 'StokesStiffness': viscous(R, K, G, p[0], s, m, True)
                press(K, G, N, s, m, -1 if name == 'StokesStiffness' else 1)
            return {'K': mixed(R, env, g)}
        if name in ('StokesMass', 'NavierStokesConsistentMass', 'BrinkmanBodyForce', 'NavierStokesBrinkmanBodyForce'):
            k = [[p[0], R.zero], [R.zero, p[0]]] if 'Mass' in name else env.A
            def g(K, M, G, N, H, s):
                for i in range(m):
                    for j in range(m):
                        for a in range(2):
                            for b in range(2): add(K, a * m + i, b * m + j, M[i] * M[j] * k[a][b] * s)
            return {'K': mixed(R, env, g)}
        if name in ('StokesBodyForce', 'NavierStokesBodyForce'):
            F = [R.zero] * (2 * m + n)
            for fam, s, G in pts(R, env, 1):
                q = env.f(*[dotz(R, fam[1][0], [v[k] for v in env.x[1]]) for k in range(2)])
                for a in range(2):
                    for i in range(m): F[a * m + i] = F[a * m + i] + fam[0][0][i] * q[a] * s
            return {'F': F}
        if name == 'StokesSurfaceForce':
            F = [R.zero] * (2 * m + n)
            for fam, s, x in edge(R, env, 1):
                q = env.f(*x)
                for a in range(2):
                    for i in range(m): F[a * m + i] = F[a * m + i] + fam[0][0][i] * q[a] * s
            return {'F': F}
        if name == 'NavierStokesStiffness':
            def g(K, M, G, N, H, s):
                U = [dotz(R, M, [v[k] for v in env.u[0]]) for k in range(2)]; viscous(R, K, G, p[1], s, m, False)
                for i in range(m):
                    for j in range(m):
                        v = M[i] * (G[0][j] * U[0] + G[1][j] * U[1]) * p[0] * s
                        add(K, i, j, v); add(K, m + i, m + j, v)
            return {'K': mixed(R, env, g)}
        if name in ('NavierStokesTangent', 'NavierStokesAdjoint'):
            D = 2 * m + n; up = [[env.u[0][i][k] for i in range(m)] for k in range(2)] + [[env.u[1][i][2] for i in range(n)]]
            cols = []; F0 = None
            flat = up[0] + up[1] + up[2]
            if R is FLT:
                F0 = ns_resid(R, env, flat, p)
                for q in range(D): cols.append([-r.b for r in ns_resid(GEN, env, [Dual(v, 1.0 if k == q else 0.0) for k, v in enumerate(flat)], p)])
            else:
                F0 = ns_resid(R, env, flat, p)
                for q in range(D): cols.append([-r.b for r in ns_resid(R, env, [Dual(P(v), ONE if k == q else ZERO) for k, v in enumerate(flat)], p)])
            K = tr(cols)
            if name == 'NavierStokesAdjoint':
                sg = lambda i: -1 if i >= 2 * m else 1
                return {'K': [[K[j][i] * (sg(i) * sg(j)) for j in range(D)] for i in range(D)]}
            return {'K': K, 'F': F0}
        if 'SUPGPSPG' in name:
            def g(K, M, G, N, H, s):
                U = [dotz(R, M, [v[k] for v in env.u[0]]) for k in range(2)]; t = ns_tau(R, env, M, G, U, *p) * s
                A = [G[0][j] * U[0] + G[1][j] * U[1] for j in range(m)]       # U.grad of the velocity functions
                if name == 'ContinuitySUPGPSPGStiffness':
                    for j in range(n):
                        for i in range(m):
                            for a in range(2): add(K, a * m + i, 2 * m + j, A[i] * H[a][j] * t)
                        for i in range(n): add(K, 2 * m + i, 2 * m + j, (H[0][i] * H[0][j] + H[1][i] * H[1][j]) * t)
                    return
                B = A if 'Stiffness' in name else M                             # advected / accelerated trial function
                for j in range(m):
                    for a in range(2):
                        for i in range(m): add(K, a * m + i, a * m + j, A[i] * B[j] * p[0] * t)
                        for i in range(n): add(K, 2 * m + i, a * m + j, H[a][i] * B[j] * p[0] * t)
            return {'K': mixed(R, env, g)}
        raise KeyError(name)
    return f
def ns_resid(R, env, z, p):
    """-( rho w.(u.grad)u + mu (grad u + grad u^T):grad w - p div w ,  q div u )"""
    m, n = env.ns; u = [z[:m], z[m:2 * m]]; pr = z[2 * m:]
    F = [0 if R is not SYM else ZERO] * (2 * m + n)
    for fam, s, G in pts(R, env, 1):
        M, N, g = fam[0][0], fam[1][0], G[0]
        U = [dot(u[k], M) for k in range(2)]; dU = [[dot(u[k], g[l]) for l in range(2)] for k in range(2)]; pp = dot(pr, N)
        conv = [U[0] * dU[k][0] + U[1] * dU[k][1] for k in range(2)]
        sig = [[(dU[k][l] + dU[l][k]) * p[1] - (pp if k == l else pp * 0) for l in range(2)] for k in range(2)]
        for k in range(2):
            for i in range(m): F[k * m + i] = F[k * m + i] - (conv[k] * M[i] * p[0] + sig[k][0] * g[0][i] + sig[k][1] * g[1][i]) * s
        dv = dU[0][0] + dU[1][1]
        for i in range(n): F[2 * m + i] = F[2 * m + i] - dv * N[i] * s
    return F
def entries():
    E = []; x = ('x', 2)
    PL = (('ShapeFunction3Triangle', 'Gauss1Triangle'), ('ShapeFunction4Square', 'Gauss4Square'), ('ShapeFunction8Square', 'Gauss9Square'))
    for tm in PL:
        for nm, np_, sy in (('HeatTransfer', 2, 1), ('HeatCapacity', 3, 1), ('Advection', 2, 0), ('Diffusion', 1, 1), ('Mass', 0, 1), ('ReactionDiffusionConsistentMass', 0, 1),
                            ('ReactionDiffusionLumpedMass', 0, 1), ('ReactionDiffusionStiffness', 1, 1)):
            E.append(Entry(nm, tm, ['K', 'M', 'E', 'D', x] + ['r'] * np_, S_(nm), 1, slots_std, sym=bool(sy)))
        for nm in ('AdvectionSUPG', 'MassSUPG', 'AdvectionShockCapturing'):
            E.append(Entry(nm, tm, ['K', 'M', 'E', 'D', x, 'r', 'r', 'r'], S_(nm), 1, slots_std, order=True))
        E.append(Entry('ReactionDiffusionReaction', tm, ['F', 'M', 'E', 'D', x, ('u', 1), 'FR'], S_('ReactionDiffusionReaction'), 1, slots_std))
        for nm in ('NavierStokesDecoupledConsistentMass', 'NavierStokesDecoupledLumpedMass'):
            E.append(Entry(nm, tm, ['K', 'M', 'E', 'D', x, 'r'], S_(nm), 2, slots_blk, sym=True))
        E.append(Entry('NavierStokesAuxiliaryVelocity', tm, ['F', 'M', 'E', 'D', x, ('u', 2), 'r', 'r'], S_('NavierStokesAuxiliaryVelocity'), 2, slots_blk))
        E.append(Entry('NavierStokesPressurePoisson', tm, ['K', 'F', 'M', 'E', 'D', x, ('u', 2), 'r', 'r'], S_('NavierStokesPressurePoisson'), 1, slots_std, sym=True))
        E.append(Entry('NavierStokesNextstepVelocity', tm, ['F', 'M', 'E', 'D', x, ('u', 2), ('q', 1), 'r'], S_('NavierStokesNextstepVelocity'), 2, slots_blk))
    for tm in (('ShapeFunction2Line', 'Gauss1Line'), ('ShapeFunction3Line', 'Gauss2Line')):
        E.append(Entry('HeatTransferSurfaceFlux', tm, ['F', 'M', 'E', 'D', x, 'FS', 'r'], S_('HeatTransferSurfaceFlux'), 1, slots_std))
    mx = ['M', 'E', 'M2', 'E2', 'D', x]
    for tm in (('ShapeFunction8Square', 'ShapeFunction4Square', 'Gauss9Square'), ('ShapeFunction6Triangle', 'ShapeFunction3Triangle', 'Gauss3Triangle'), ('ShapeFunction4Square', 'ShapeFunction4Square', 'Gauss4Square')):
        for nm, a, sy in (('StokesStiffness', ['r'], 1), ('StokesMass', ['r'], 1), ('NavierStokesConsistentMass', ['r'], 1), ('ContinuityStiffness', [], 0), ('BrinkmanBodyForce', [('A', 2, 2)], 0),
                          ('NavierStokesBrinkmanBodyForce', [('A', 2, 2)], 0), ('NavierStokesStiffness', [('u', 2), 'r', 'r'], 0), ('NavierStokesAdjoint', [('u', 3), 'r', 'r'], 0)):
            E.append(Entry(nm, tm, ['K'] + mx + a, X_(nm), 3, slots_mix, sf=2, sym=bool(sy)))
        E.append(Entry('NavierStokesTangent', tm, ['K', 'F'] + mx + [('u', 3), 'r', 'r'], X_('NavierStokesTangent'), 3, slots_mix, sf=2))
        for nm in ('StokesBodyForce', 'NavierStokesBodyForce'): E.append(Entry(nm, tm, ['F'] + mx + ['FV'], X_(nm), 3, slots_mix, sf=2))
    for tm in (('ShapeFunction3Line', 'ShapeFunction2Line', 'Gauss2Line'), ('ShapeFunction2Line', 'ShapeFunction2Line', 'Gauss1Line')):
        E.append(Entry('StokesSurfaceForce', tm, ['F'] + mx + ['FV'], X_('StokesSurfaceForce'), 3, slots_mix, sf=2))
    for tm in (('ShapeFunction4Square', 'ShapeFunction4Square', 'Gauss4Square'), ('ShapeFunction3Triangle', 'ShapeFunction3Triangle', 'Gauss1Triangle')):
        for nm in ('NavierStokesSUPGPSPGStiffness', 'NavierStokesSUPGPSPGConsistentMass', 'ContinuitySUPGPSPGStiffness'):
            E.append(Entry(nm, tm, ['K'] + mx + [('u', 2), 'r', 'r', 'r'], X_(nm), 3, slots_mix, sf=2, order=True))
            E.append(Entry(nm, tm, ['K'] + mx + [('u', 2), 'r', 'r', 'r'], X_(nm), 3, slots_mix, sf=2, zero=('u',)))
    return E
def run(R):
    seeds = [{'seed': 1}, {'seed': 2}] if R.tier == 'quick' else [{'seed': k} for k in range(1, 6)]
    E = entries()
    for e in E: contract(R, TU, e, seeds)
    replay(R, E, INC)
    R.assumptions.append('nodal data in generic position for the contracts decided by identity testing over GF(p); source fields are uninterpreted functions of the point')
