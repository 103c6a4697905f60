"""Finite-element contracts: generic weak-form specifications, written once over an abstract ring (symbolic terms, exact
rationals or floats), and the symbolic element arguments (arbitrary mesh, arbitrary element, arbitrary dof numbering)."""
from vc import *
from c11 import mang
from la_contracts import LA
import numpy as np

# ---- ring helpers --------------------------------------------------------------------
def mats(r, c, z=ZERO): return [[z for _ in range(c)] for _ in range(r)]
def mmul(A, B):
    n, k, m = len(A), len(B), len(B[0]); R = []
    for i in range(n):
        row = []
        for j in range(m):
            s = None
            for l in range(k):
                t = A[i][l] * B[l][j]
                s = t if s is None else s + t
            row.append(s if s is not None else ZERO)
        R.append(row)
    return R
def tr(A): return [list(x) for x in zip(*A)]
def pdet(A):
    n = len(A)
    if n == 0: return 1
    if n == 1: return A[0][0]
    if n == 2: return A[0][0] * A[1][1] - A[0][1] * A[1][0]
    s = None
    for j in range(n):
        t = A[0][j] * pdet([r[:j] + r[j + 1:] for r in A[1:]])
        if j % 2: t = t * (-1)
        s = t if s is None else s + t
    return s

class Sym:
    """terms; determinant and inverse of Jacobians are the callee's contract (uninterpreted, extensional)"""
    zero = ZERO
    def det(self, A):
        c = pdet(A) if len(A) <= 1 else None
        return c if c is not None else fn('DET', (P(len(A)),) + tuple(x for r in A for x in r))
    def inv(self, A):
        if len(A) == 1: return [[inv(A[0][0])]]
        k = (P(len(A)),) + tuple(x for r in A for x in r)
        return [[fn('INV', (P(i), P(j)) + k) for j in range(len(A))] for i in range(len(A))]
    def sqrt(self, x): return T.sqrt(P(x))
    def log(self, x): return fn('log', (P(x),))
    def abs(self, x): return fn('abs', (P(x),))
    def one(self, x): return P(x)
    def div(self, a, b): return P(a) * inv(P(b))
    def le(self, a, b, x, y): return ite(le(a, b), x, y)
class Exact(Sym):
    """terms with the determinant and inverse expanded (Leibniz / adjugate)"""
    def det(self, A): return pdet(A)
    def inv(self, A):
        n = len(A); d = inv(P(pdet(A)))
        return [[P(pdet([r[:i] + r[i + 1:] for k, r in enumerate(A) if k != j])) * d * (-1) ** (i + j) for j in range(n)] for i in range(n)]
class Flt:
    zero = 0.0
    def det(self, A): return float(np.linalg.det(np.array(A, float)))
    def inv(self, A): return np.linalg.inv(np.array(A, float)).tolist()
    def sqrt(self, x): return math.sqrt(x)
    def log(self, x): return math.log(x)
    def abs(self, x): return abs(x)
    def one(self, x): return float(x)
    def div(self, a, b): return a / b
    def le(self, a, b, x, y): return x if a <= b else y
SYM, EXACT, FLT = Sym(), Exact(), Flt()

def inv_contract(it, f, this, args):
    m = it.get(this); n = m.f['row'].const()
    if n is None or m.f['col'].const() != n or n == 1: return NotImplemented
    n = int(n); A = [[mget(m, i, j) for j in range(n)] for i in range(n)]
    R = SYM.inv(A)
    return Obj('Matrix<double>', {'row': P(n), 'col': P(n), 'values': ArrC([R[i][j] for i in range(n) for j in range(n)], 'double')})
def det_contract(it, f, this, args):
    m = it.get(this); n = m.f['row'].const()
    if n is None or m.f['col'].const() != n or n == 1: return NotImplemented
    n = int(n)
    return SYM.det([[mget(m, i, j) for j in range(n)] for i in range(n)])
def vfield(it, f, this, args):
    x = it.get(args[0]); n = int(x.f['size'].const()); xs = tuple(vget(x, i) for i in range(n))
    return Obj('Vector<double>', {'size': P(n), 'values': ArrC([fn('field%d' % i, xs) for i in range(n)], 'double')})
def sfield(it, f, this, args):
    x = it.get(args[0]); n = int(x.f['size'].const())
    return fn('sfield', tuple(vget(x, i) for i in range(n)))
def rfield(it, f, this, args):
    u = it.get(args[0]); g = it.get(args[1])
    return fn('reaction', (scal(u),) + tuple(vget(g, i) for i in range(int(g.f['size'].const()))))
FIELDS = {'FV::operator()': vfield, 'FS::operator()': sfield, 'FR::operator()': rfield}
CON = {**LA, 'Matrix<double>::Inverse': inv_contract, 'Matrix<double>::Determinant': det_contract, **FIELDS}

# ---- arguments -------------------------------------------------------------------------
VT = ('cls', 'Vector<double>')
class El:
    """an arbitrary element of an arbitrary mesh: symbolic node numbers, nodal fields of any length"""
    def __init__(self, c, n, ndou, dim, generic=None):
        self.c = c; self.n = n; self.dim = dim; self.generic = generic
        self.NX = var('nodes', 'int')
        self.e = [var('e%d' % i, 'int') for i in range(n)]
        c.it.assume(ge(self.NX, 1))
        for e in self.e: c.it.assume(And(le(0, e), lt(e, self.NX)))
        self.element = ArrC(self.e, 'int')
        self.dou = [var('dou%d' % i, 'int') for i in range(ndou)]
        self.doulist = ArrC(self.dou, 'int')
        self.fields = {}
    def nodal(self, name, dim, vals=None):
        """nodal field; vals: explicit values at the element's nodes (generic points)"""
        c = self.c
        if vals is not None:        # concrete table: node numbers become concrete and scrambled
            raise NotImplementedError
        b = LeafArr(('sym', name), (), 'real')
        sz = const_leaf(name + '.size', dim, self.NX); ln = const_leaf(name + '.len', dim, self.NX)
        a = ArrS(self.NX, BObj('Vector<double>', {'size': sz, 'values': BArr(ln, b, 'double')}), (), VT)
        self.fields[name] = [[vget(aelem(a, e), k) for k in range(dim)] for e in self.e]
        return a
    def K0(self): return Obj('Matrix<double>', {'row': P(1), 'col': P(2), 'values': ArrC([var('junk0'), var('junk1')], 'double')})
    def F0(self): return Obj('Vector<double>', {'size': P(1), 'values': ArrC([var('junk2')], 'double')})
    def M0(self): return ArrC([ArrC([Obj('pair', {'first': P(7), 'second': P(8)})], ('pair', 'int', 'int'))], ('vec', ('pair', 'int', 'int')))
def const_leaf(name, v, n):
    i = fresh('i', 'int')
    return LeafArr(('sym', name), (), 'int').write((i,), P(v), 'set', ((i.as_atom(), ZERO, n),))

def gtab(c, S, Qr):
    """(N, dN, w, r) at every quadrature point, from the code's own tables (contracts C11, C12)"""
    k = (id(c.it.u), S, Qr, T.GFMODE[0])
    if k not in _gtabs: _gtabs[k] = _gtab(c, S, Qr)
    return _gtabs[k]
_gtabs = {}
def _gtab(c, S, Qr):
    pts = c.call('qPoints', [], pick=mang(Qr)); ws = c.call('qWeights', [], pick=mang(Qr))
    out = []
    for g in range(int(pts.n.const())):
        p = aelem(pts, P(g)); w = aelem(ws, P(g)); t = ONE
        for k in range(int(w.n.const())): t = t * aelem(w, P(k))
        N = c.call('sfN', [p], pick=mang(S)); D = c.call('sfdN', [p], pick=mang(S))
        d, n = int(D.f['row'].const()), int(D.f['col'].const())
        out.append(([vget(N, i) for i in range(n)], [[mget(D, k, i) for i in range(n)] for k in range(d)], t, [vget(p, k) for k in range(d)]))
    return out

def check_map(c, m, dou, n, slot, lab='node to element map'):
    """slot(i, j): row of the j-th dof of node i"""
    c.ensure_eq(lab + ' nodes', m.n, n)
    for i in range(n):
        mi = aelem(m, P(i))
        c.ensure_eq(lab + ' dofs of node %d' % i, mi.n, len(dou))
        for j in range(len(dou)):
            p = aelem(mi, P(j))
            c.ensure_eq(lab + ' (%d,%d) dof' % (i, j), p.f['first'], dou[j]); c.ensure_eq(lab + ' (%d,%d) row' % (i, j), p.f['second'], slot(i, j))
def check_mat(c, K, S, lab='Ke'):
    c.ensure_eq(lab + ' rows', K.f['row'], len(S)); c.ensure_eq(lab + ' columns', K.f['col'], len(S[0]))
    for i in range(len(S)):
        for j in range(len(S[0])): c.ensure_eq('%s(%d,%d)' % (lab, i, j), mget(K, i, j), S[i][j])
def check_vec(c, F, S, lab='Fe'):
    c.ensure_eq(lab + ' size', F.f['size'], len(S))
    for i in range(len(S)): c.ensure_eq('%s(%d)' % (lab, i), vget(F, i), S[i])

# ---- weak forms -------------------------------------------------------------------------
def geom(R, X, dN):
    J = mmul(dN, X); return J, R.det(J), mmul(R.inv(J), dN)
def lame_strain(R, E, nu):
    den = (R.one(1) + nu) * (R.one(1) - nu * 2)
    return R.div(E * nu, den), R.div(E * (R.one(1) - nu * 2), den * 2)       # lambda, mu = E/(2(1+nu))
def iso4(R, d, lam, mu):
    """C_ikjl = lam d_ik d_jl + mu (d_ij d_kl + d_il d_kj)"""
    z = R.zero
    def C(i, k, j, l):
        s = z
        if i == k and j == l: s = s + lam
        if i == j and k == l: s = s + mu
        if i == l and k == j: s = s + mu
        return s
    return {(i, k, j, l): C(i, k, j, l) for i in range(d) for k in range(d) for j in range(d) for l in range(d) if not is0(C(i, k, j, l))}
def is0(x): return (not x.d) if isinstance(x, Poly) else x == 0
V2 = {(0, 0): 0, (1, 1): 1, (0, 1): 2, (1, 0): 2}
def voigt4(D):
    """fourth-order tensor of a 3x3 plane matrix on (e11, e22, 2 e12)"""
    return {(i, k, j, l): D[V2[i, k]][V2[j, l]] for i in range(2) for k in range(2) for j in range(2) for l in range(2) if not is0(D[V2[i, k]][V2[j, l]])}
def bilinear(R, n, d, m, terms):
    """terms: list of (G_a, G_b, C, scale) with K[(a,i),(b,j)] += G_a[k][a] C[i,k,j,l] G_b[l][b] scale"""
    K = mats(d * n, d * m, R.zero)
    for Ga, Gb, C, s in terms:
        Cs = {k: v * s for k, v in C.items()}
        for a in range(n):
            for b in range(m):
                GG = [[Ga[k][a] * Gb[l][b] for l in range(d)] for k in range(d)]
                for (i, k, j, l), v in Cs.items():
                    K[d * a + i][d * b + j] = K[d * a + i][d * b + j] + GG[k][l] * v
    return K
def elastic(R, X, tab, C, t):
    d = len(X[0]); terms = []
    for N, dN, w, r in tab:
        J, det, G = geom(R, X, dN); terms.append((G, G, C, det * w * t))
    return bilinear(R, len(X), d, len(X), terms)

# ---- generic ring: Poly (symbolic or GF(p) constants), float, Dual ----------------------
def rinv(x): return x.rinv() if isinstance(x, Dual) else inv(x) if isinstance(x, Poly) else (inv(P(x)) if isinstance(x, int) else 1.0 / x)
class Dual:
    """a + b eps, eps^2 = 0"""
    __slots__ = ('a', 'b')
    def __init__(self, a, b): self.a = a; self.b = b
    def __add__(self, o): return Dual(self.a + o.a, self.b + o.b) if isinstance(o, Dual) else Dual(self.a + o, self.b)
    __radd__ = __add__
    def __neg__(self): return Dual(-self.a, -self.b)
    def __sub__(self, o): return self + (-o)
    def __rsub__(self, o): return (-self) + o
    def __mul__(self, o): return Dual(self.a * o.a, self.a * o.b + self.b * o.a) if isinstance(o, Dual) else Dual(self.a * o, self.b * o)
    __rmul__ = __mul__
    def rinv(self):
        i = rinv(self.a); return Dual(i, -(self.b * i * i))
def wrapmul(a, b): return b * a if isinstance(b, Dual) else a * b
class Gen:
    """works on any of the number types"""
    zero = 0
    def det(self, A): return pdet(A)
    def inv(self, A):
        n = len(A); d = rinv(pdet(A))
        if n == 1: return [[d]]
        return [[d * pdet([r[:i] + r[i + 1:] for k, r in enumerate(A) if k != j]) * (1 if (i + j) % 2 == 0 else -1) for j in range(n)] for i in range(n)]
    def sqrt(self, x):
        if isinstance(x, Dual):
            s = self.sqrt(x.a); return Dual(s, x.b * rinv(s * 2))
        return T.sqrt(x) if isinstance(x, Poly) else math.sqrt(x)
    def log(self, x):
        if isinstance(x, Dual): return Dual(self.log(x.a), x.b * rinv(x.a))
        return fn('log', (x,)) if isinstance(x, Poly) else math.log(x)
    def tanh(self, x): return fn('tanh', (x,)) if isinstance(x, Poly) else math.tanh(x)
    def abs(self, x): return fn('abs', (x,)) if isinstance(x, Poly) else abs(x)
    def le(self, a, b, x, y):
        d = P(a) - P(b); return x if (d.const() or 0) <= 0 else y
    def one(self, x): return x
    def div(self, a, b): return a * rinv(b)
GEN = Gen()
# Poly op Dual must dispatch to Dual
def _patch():
    for nm in ('__add__', '__sub__', '__mul__'):
        f = getattr(Poly, nm)
        def g(self, o, f=f): return NotImplemented if isinstance(o, Dual) else f(self, o)
        setattr(Poly, nm, g)
_patch()

# exact contracts of Inverse and Determinant on constant (generic) matrices
def _rows(m, n): return [[mget(m, i, j) for j in range(n)] for i in range(n)]
def gsolve(A):
    """inverse of a constant matrix (Gauss-Jordan in the coefficient field)"""
    n = len(A); A = [list(r) + [ONE if i == j else ZERO for j in range(n)] for i, r in enumerate(A)]
    for i in range(n):
        k = next(r for r in range(i, n) if A[r][i].d)
        A[i], A[k] = A[k], A[i]
        iv = inv(A[i][i]); A[i] = [x * iv for x in A[i]]
        for r in range(n):
            if r != i and A[r][i].d:
                f = A[r][i]; A[r] = [x - f * y for x, y in zip(A[r], A[i])]
    return [r[n:] for r in A]
def ginv_contract(it, f, this, args):
    m = it.get(this); n = m.f['row'].const()
    if n is None or m.f['col'].const() != n: return NotImplemented
    n = int(n); R = gsolve(_rows(m, n)) if n > 3 else GEN.inv(_rows(m, n))
    return Obj('Matrix<double>', {'row': P(n), 'col': P(n), 'values': ArrC([P(R[i][j]) for i in range(n) for j in range(n)], 'double')})
def gdet_contract(it, f, this, args):
    m = it.get(this); n = m.f['row'].const()
    if n is None or m.f['col'].const() != n: return NotImplemented
    return P(pdet(_rows(m, int(n))))
GCON = {**LA, 'Matrix<double>::Inverse': ginv_contract, 'Matrix<double>::Determinant': gdet_contract, **FIELDS}
class GEl:
    """a generic element: nodal values are generic reals (elements of GF(p)); the element's nodes are scattered in the mesh"""
    def __init__(self, c, n, ndou, order=None):
        self.c = c; self.n = n; self.NX = n + 3
        ids = list(range(self.NX)); c.grnd.shuffle(ids); self.e = ids[:n]
        self.element = ArrC([P(i) for i in self.e], 'int')
        self.dou = [var('dou%d' % i, 'int') for i in range(ndou)]; self.doulist = ArrC(self.dou, 'int'); self.fields = {}
    def nodal(self, name, dim, tab=None):
        tab = tab(self.NX) if tab else [[self.c.gen() for _ in range(dim)] for _ in range(self.NX)]
        self.fields[name] = [tab[i] for i in self.e]; self.tab = tab
        return ArrC([Obj('Vector<double>', {'size': P(dim), 'values': ArrC(r, 'double')}) for r in tab], VT)
    K0 = El.K0; F0 = El.F0; M0 = El.M0
def mv(A, v):
    out = []
    for r in A:
        s = None
        for x, y in zip(r, v):
            t = x * y; s = t if s is None else s + t
        out.append(s)
    return out
def mentries(K): return [[mget(K, i, j) for j in range(int(K.f['col'].const()))] for i in range(int(K.f['row'].const()))]
def ventries(F): return [vget(F, i) for i in range(int(F.f['size'].const()))]
def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def dot(a, b):
    s = None
    for x, y in zip(a, b):
        t = x * y; s = t if s is None else s + t
    return s
def unit3(R, a):
    n = rinv(R.sqrt(dot(a, a))); return [x * n for x in a]
def check_sym(c, K, lab='Ke symmetric'):
    A = mentries(K)
    for i in range(len(A)):
        for j in range(i): c.ensure_eq('%s (%d,%d)' % (lab, i, j), A[i][j], A[j][i])

def gunit(c):
    """generic vector whose norm is a perfect square"""
    a, b, s = c.gen(), c.gen(), c.gen(); q = inv(a * a + b * b + 1) * s * s * 1
    return [a * 2 * q, b * 2 * q, (a * a + b * b - 1) * q]
def gplane(c, n):
    """generic points of a generic plane with square-norm axes"""
    a, b, d, e = (c.gen() for _ in range(4)); q = inv(a * a + b * b + d * d + e * e)     # rotation from a quaternion
    A = [[(a*a+b*b-d*d-e*e)*q, (b*d+a*e)*2*q, (b*e-a*d)*2*q], [(b*d-a*e)*2*q, (a*a-b*b+d*d-e*e)*q, (d*e+a*b)*2*q]]
    o = [c.gen() for _ in range(3)]; P_ = []
    for i in range(n):
        r, s = c.gen(), c.gen(); P_.append([o[k] + A[0][k] * r + A[1][k] * s for k in range(3)])
    return P_
