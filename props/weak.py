"""Weak-form specifications of the elements, over any number type (fe.GEN or fe.SYM)."""
from fe import *
def stress_D(R, E, nu):
    f = R.div(E, R.one(1) - nu * nu); z = R.zero
    return [[f, f * nu, z], [f * nu, f, z], [z, z, f * (R.one(1) - nu) * R.div(R.one(1), R.one(2))]]
def half(R): return R.div(R.one(1), R.one(2)) if not isinstance(R, Gen) else Q(1, 2)
def bulk_shear(R, E, nu): return R.div(E, (R.one(1) - nu * 2) * 3), R.div(E, (R.one(1) + nu) * 2)
def sri(R, X, tv, td, E, nu, t):
    """bulk part under the first rule, 3-d deviatoric part under the second"""
    K, mu = bulk_shear(R, E, nu); d = 2; terms = []
    Cv = iso4(R, d, K, R.zero); 
    Cd = iso4(R, d, mu * R.div(R.one(-2), R.one(3)) if not isinstance(R, Gen) else mul(mu, Q(-2, 3)), mu)
    for tab, C in ((tv, Cv), (td, Cd)):
        for N, dN, w, r in tab:
            J, det, G = geom(R, X, dN); terms.append((G, G, C, det * w * t))
    return bilinear(R, len(X), d, len(X), terms)
def mul(a, q): return a * (q if isinstance(a, (Poly, Dual)) else float(q))
def bcols(R, G):
    """strain operator columns (e11, e22, 2e12) of a plane displacement field with gradients G"""
    z = R.zero; cols = []
    for a in range(len(G[0])): cols += [[G[0][a], z, G[1][a]], [z, G[1][a], G[0][a]]]
    return cols
def quad(R, cols, D, cols2=None):
    cols2 = cols2 or cols
    DB = [[dot([D[i][k] for k in range(len(D)) if not is0(D[i][k])] or [R.zero], [c[k] for k in range(len(D)) if not is0(D[i][k])] or [R.zero]) for i in range(len(D))] for c in cols2]
    return [[dotz(R, a, b) for b in DB] for a in cols]
def dotz(R, a, b):
    s = R.zero
    for x, y in zip(a, b):
        if not is0(x) and not is0(y): s = s + x * y
    return s
def madd(A, B, s):
    for i in range(len(A)):
        for j in range(len(A[0])):
            if not is0(B[i][j]): A[i][j] = A[i][j] + B[i][j] * s
def bbar(R, X, tv, td, D, t):
    """dilatation (e11+e22)/2 (1,1,0) under the first rule, the rest of the strain under the second"""
    n = len(X); K = mats(2 * n, 2 * n, R.zero); h = half(R)
    for tab, vol in ((tv, True), (td, False)):
        for N, dN, w, r in tab:
            J, det, G = geom(R, X, dN); cols = []
            for b in bcols(R, G):
                m = mul(b[0] + b[1], h) if isinstance(h, Q) else (b[0] + b[1]) * h
                cols.append([m, m, R.zero] if vol else [b[0] - m, b[1] - m, b[2]])
            madd(K, quad(R, cols, D), det * w * t)
    return K
def wilson_taylor(R, X, tab, D, t, minv):
    """K_dd - K_da K_aa^-1 K_ad with the incompatible modes 1-r^2, 1-s^2 in both displacement components"""
    n = len(X); Kdd = mats(2 * n, 2 * n, R.zero); Kaa = mats(4, 4, R.zero); Kad = mats(4, 2 * n, R.zero)
    for N, dN, w, r in tab:
        J = mmul(dN, X); det = R.det(J); iJ = R.inv(J); G = mmul(iJ, dN)
        dP = mmul(iJ, [[r[0] * (-2), R.zero], [R.zero, r[1] * (-2)]])
        B, A = bcols(R, G), bcols(R, dP); s = det * w * t
        madd(Kdd, quad(R, B, D), s); madd(Kaa, quad(R, A, D), s); madd(Kad, quad(R, A, D, B), s)
    corr = mmul(mmul(tr(Kad), minv(Kaa)), Kad)
    return [[a - b for a, b in zip(x, y)] for x, y in zip(Kdd, corr)]
def strain_D(R, E, nu):
    l, m = lame_strain(R, E, nu); z = R.zero
    return [[l + m * 2, l, z], [l, l + m * 2, z], [z, z, m]]
def truss(R, X, E, A):
    d = [X[1][i] - X[0][i] for i in range(2)]; L = R.sqrt(dot(d, d)); k = R.div(E * A, L * L * L)
    return [[d[i % 2] * d[j % 2] * k * (1 if i // 2 == j // 2 else -1) for j in range(4)] for i in range(4)]
def degenerate(R, cols_at, D0, ndof, pts):
    """sum over points of det * w * eps_a : D0 : eps_b, with cols_at(point) -> (grad columns, frame, pairs, scale)"""
    K = mats(ndof, ndof, R.zero)
    for p in pts:
        grads, pairs, s = cols_at(p)
        cols = []
        for H in grads:      # H[i][k] = d u_i / d x_k
            E = [[mul(H[i][k] + H[k][i], Q(1, 2)) for k in range(3)] for i in range(3)]
            cols.append([mul(dot(a, mv(E, b)), 1 if a is b else 2) for a, b in pairs])
        madd(K, quad(R, cols, D0), s)
    return K
def shell(R, X, tab, tz, corners_dN, E, nu, t, six):
    n = len(X); nd = 6 if six else 5
    l = [X[1][i] - X[0][i] for i in range(3)]; v1, v2, v3 = [], [], []
    for dN in corners_dN:
        T_ = mmul(dN, X); c = unit3(R, cross(T_[0], T_[1])); v3.append(c); a = unit3(R, cross(l, c)); v1.append(a); v2.append(unit3(R, cross(c, a)))
    f = R.div(E, -(nu * nu) + 1); z = 0; sh = mul(f * (-nu + 1), Q(1, 2)); ks = mul(sh, Q(5, 6))
    D0 = [[f, f * nu, z, z, z], [f * nu, f, z, z, z], [z, z, sh, z, z], [z, z, z, ks, z], [z, z, z, z, ks]]
    th = mul(t, Q(1, 2))
    def at(p):
        (N, dN, w, r), (Nz, dNz, wz, rz) = p; ze = rz[0]
        Xz = [[X[a][i] + th * ze * v3[a][i] for i in range(3)] for a in range(n)]
        J = mmul(dN, Xz) + [[th * dot(N, [v3[a][i] for a in range(n)]) for i in range(3)]]
        iJ = R.inv(J)
        g = [[iJ[k][0] * dN[0][a] + iJ[k][1] * dN[1][a] for k in range(3)] for a in range(n)]
        gz = [[g[a][k] * ze + iJ[k][2] * N[a] for k in range(3)] for a in range(n)]
        grads = []
        for a in range(n):
            for i in range(3): grads.append([[g[a][k] if m == i else 0 for k in range(3)] for m in range(3)])
            if six: dirs = [[v1[a][i] * v2[a][q] - v2[a][i] * v1[a][q] for i in range(3)] for q in range(3)]
            else: dirs = [[-v2[a][i] for i in range(3)], v1[a]]
            for d in dirs: grads.append([[th * d[m] * gz[a][k] for k in range(3)] for m in range(3)])
        P2 = unit3(R, cross(J[0], J[1])); P0 = unit3(R, cross(l, P2)); P1 = unit3(R, cross(P2, P0))
        return grads, [(P0, P0), (P1, P1), (P0, P1), (P0, P2), (P1, P2)], R.det(J) * w * wz
    return degenerate(R, at, D0, nd * n, [(p, q) for p in tab for q in tz])
def beam(R, X, v1, v2, tab, t12, E, nu, a_, b_):
    n = len(X); v1 = [unit3(R, v) for v in v1]; v2 = [unit3(R, v) for v in v2]
    sh = mul(R.div(E, nu + 1), Q(5, 12)); D0 = [[E, 0, 0], [0, sh, 0], [0, 0, sh]]
    ha, hb = mul(a_, Q(1, 2)), mul(b_, Q(1, 2))
    def at(p):
        (N, dN, w, r), (N2, dN2, w2, r2) = p; y, z = r2
        off = [[ha * y * v1[a][i] + hb * z * v2[a][i] for i in range(3)] for a in range(n)]
        J = mmul(dN, [[X[a][i] + off[a][i] for i in range(3)] for a in range(n)])
        J.append([ha * dot(N, [v1[a][i] for a in range(n)]) for i in range(3)]); J.append([hb * dot(N, [v2[a][i] for a in range(n)]) for i in range(3)])
        iJ = R.inv(J); grads = []
        g = [[iJ[k][0] * dN[0][a] for k in range(3)] for a in range(n)]
        gy = [[g[a][k] * y + iJ[k][1] * N[a] for k in range(3)] for a in range(n)]
        gz = [[g[a][k] * z + iJ[k][2] * N[a] for k in range(3)] for a in range(n)]
        ax = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
        for a in range(n):
            for i in range(3): grads.append([[g[a][k] if m == i else 0 for k in range(3)] for m in range(3)])
            for q in range(3):
                c1, c2 = cross(ax[q], v1[a]), cross(ax[q], v2[a])      # rotation vector cross director
                grads.append([[ha * c1[m] * gy[a][k] + hb * c2[m] * gz[a][k] for k in range(3)] for m in range(3)])
        P1 = unit3(R, [dot(N, [v1[a][i] for a in range(n)]) for i in range(3)]); P2 = unit3(R, [dot(N, [v2[a][i] for a in range(n)]) for i in range(3)]); P0 = unit3(R, cross(P1, P2))
        return grads, [(P0, P0), (P0, P1), (P0, P2)], R.det(J) * w * w2
    return degenerate(R, at, D0, 6 * n, [(p, q) for p in tab for q in t12])
# ---- finite deformation -----------------------------------------------------------------
def tl_residual(R, X, U, tab, E, nu, t):
    """-int dE : S with S = lam tr(E) I + 2 mu E (St. Venant-Kirchhoff), reference configuration"""
    n, d = len(X), len(X[0]); lam, mu = lame_strain(R, E, nu); F_ = [0] * (d * n)
    for N, dN, w, r in tab:
        J, det, G = geom(R, X, dN); s = det * w * t
        H = mmul(G, U)                                  # H[k][i] = d u_i / d X_k
        F = [[H[k][i] + (1 if i == k else 0) for k in range(d)] for i in range(d)]
        C = mmul(tr(F), F); Eg = [[mul(C[i][j] - (1 if i == j else 0), Q(1, 2)) for j in range(d)] for i in range(d)]
        trE = Eg[0][0]
        for k in range(1, d): trE = trE + Eg[k][k]
        S = [[Eg[i][j] * mu * 2 + (trE * lam if i == j else 0) for j in range(d)] for i in range(d)]
        Pk = mmul(F, S)
        for a in range(n):
            for i in range(d): F_[d * a + i] = F_[d * a + i] - dot(Pk[i], [G[k][a] for k in range(d)]) * s
    return F_
def ul_residual(R, X, U, tab, E, nu, t):
    """-int sigma : grad v over the current configuration, compressible neo-Hookean Cauchy stress"""
    n, d = len(X), len(X[0]); lam, mu = lame_strain(R, E, nu); F_ = [0] * (d * n)
    x = [[X[a][i] + U[a][i] for i in range(d)] for a in range(n)]
    for N, dN, w, r in tab:
        j, det, g = geom(R, x, dN); _, _, G = geom(R, X, dN)
        F = tr(mmul(G, x)); dF = R.det(F); lg = R.log(dF); iF = rinv(dF)
        b = mmul(F, tr(F))
        sg = [[((b[i][k] - (1 if i == k else 0)) * mu + (lg * lam if i == k else 0)) * iF for k in range(d)] for i in range(d)]
        s = det * w * t
        for a in range(n):
            for i in range(d): F_[d * a + i] = F_[d * a + i] - dot(sg[i], [g[k][a] for k in range(d)]) * s
    return F_
def pressure_residual(R, X, U, tab, p, t):
    """int p N n ds on the deformed edge, n ds = (-dx2, dx1)"""
    n = len(X); x = [[X[a][i] + U[a][i] for i in range(2)] for a in range(n)]; F_ = [0] * (2 * n)
    for N, dN, w, r in tab:
        tx = mmul(dN, x)[0]
        for a in range(n):
            F_[2 * a] = F_[2 * a] - tx[1] * N[a] * p * w * t; F_[2 * a + 1] = F_[2 * a + 1] + tx[0] * N[a] * p * w * t
    return F_
