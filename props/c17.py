from vc import *
import numpy as np, itertools
TITLE = 'structured meshes'
TU = 'mesh.cpp'
D = '<double>'
half = Q(1, 2)
import stdlib
def mfn(c, name, *a): return stdlib.call(c.it, name, [c.it.new_root(P(x), 'm') for x in a], None)
def mpow(c, a, b): return mfn(c, 'pow', a, b)
def xy(nodes, k):
    v = aelem(nodes, P(k)); return [aelem(v.f['values'], P(0)), aelem(v.f['values'], P(1))]
def listed(r, want): return [(' size', r.n, len(want))] + [(' node %d' % k, aelem(r, P(k)), w) for k, w in enumerate(want)]
def node_is(n, k, want): return [(' dimension', aelem(n, P(k)).f['size'], 2)] + [(' coordinate %d' % a, p, q) for a, (p, q) in enumerate(zip(xy(n, k), want))]
def at_(x, y, nx, ny): return lambda i, j: [x * i * T.inv(nx), y * j * T.inv(ny)]

def quad_nodes(c, n, nx, ny, at):
    c.ensure_eq('number of nodes', n.n, (nx + 1) * (ny + 1))
    c.forall('node', [('i', 0, nx + 1), ('j', 0, ny + 1)], lambda i, j: node_is(n, (ny + 1) * i + j, at(i, j)))
def quad_elements(c, e, nx, ny):
    c.ensure_eq('number of elements', e.n, nx * ny)
    c.forall('element', [('i', 0, nx), ('j', 0, ny)], lambda i, j: listed(aelem(e, ny * i + j), [(ny + 1) * (i + a) + (j + b) for a, b in ((0, 0), (1, 0), (1, 1), (0, 1))]))
def quad_edges(c, e, nx, ny, mid=None):
    """counterclockwise around the rectangle: bottom, right, top, left"""
    N = lambda i, j: (ny + 1) * i + j; m = (lambda *a: []) if mid is None else (lambda *a: [mid(*a)])
    c.ensure_eq('number of boundary edges', e.n, 2 * (nx + ny))
    c.forall('bottom edge', [('i', 0, nx)], lambda i: listed(aelem(e, i), [N(i, 0), N(i + 1, 0)] + m('h', i, 0)))
    c.forall('right edge', [('j', 0, ny)], lambda j: listed(aelem(e, nx + j), [N(nx, j), N(nx, j + 1)] + m('v', nx, j)))
    c.forall('top edge', [('i', 0, nx)], lambda i: listed(aelem(e, nx + ny + i), [N(nx - i, ny), N(nx - i - 1, ny)] + m('h', nx - i - 1, ny)))
    c.forall('left edge', [('j', 0, ny)], lambda j: listed(aelem(e, 2 * nx + ny + j), [N(0, ny - j), N(0, ny - j - 1)] + m('v', 0, ny - j - 1)))
def ring_elements(c, e, nt, nr):
    c.ensure_eq('number of elements', e.n, nt * nr)
    def body(i, j):
        q = nxt(j, nt); return listed(aelem(e, nt * i + j), [nt * i + j, nt * (i + 1) + j, nt * (i + 1) + q, nt * i + q])
    c.forall('element', [('i', 0, nr), ('j', 0, nt)], body)
def nxt(j, nt): return ite(lt(j + 1, nt), j + 1, ZERO)
def ring_edges(c, e, nt, nr):
    c.ensure_eq('number of boundary edges', e.n, 2 * nt)
    c.forall('inner edge', [('k', 0, nt)], lambda k: listed(aelem(e, k), [nxt(nt - k - 1, nt), nt - k - 1]))
    c.forall('outer edge', [('k', 0, nt)], lambda k: listed(aelem(e, nt + k), [nt * nr + k, nt * nr + nxt(k, nt)]))
SM2 = [dict(nx=a, ny=b) for a, b in ((1, 1), (1, 2), (2, 1), (3, 2), (2, 4))]

def run(R):
    def square(c, what):
        x, y = c.real('x'), c.real('y'); nx, ny = c.int('nx', 1), c.int('ny', 1)
        C = what + D; th = c.make(C, [x, y, nx, ny] + ([c.real('lmax')] if what[0] == 'G' else []))
        quad_nodes(c, c.call(C + '::GenerateNodes', [], th), nx, ny, at_(x, y, nx, ny))
        if what[0] == 'G': return
        quad_elements(c, c.call(C + '::GenerateElements', [], th), nx, ny)
        quad_edges(c, c.call(C + '::GenerateEdges', [], th), nx, ny)
    R.contract('rectangle', TU, lambda c: square(c, 'SquareMesh'), SM2)
    R.contract('ground structure nodes', TU, lambda c: square(c, 'GrandStructure2D'), SM2)
    def square2(c):
        x, y = c.real('x'), c.real('y'); nx, ny = c.int('nx', 1), c.int('ny', 1); C = 'SquareMesh<double>::'
        th = c.make('SquareMesh' + D, [x, y, nx, ny]); o1 = (nx + 1) * (ny + 1); o2 = o1 + (nx + 1) * ny; at = at_(x, y, nx, ny)
        n = c.call(C + 'GenerateNodes2', [], th)
        c.ensure_eq('number of nodes', n.n, o2 + nx * (ny + 1))
        c.forall('corner node', [('i', 0, nx + 1), ('j', 0, ny + 1)], lambda i, j: node_is(n, (ny + 1) * i + j, at(i, j)))
        c.forall('vertical midside node', [('i', 0, nx + 1), ('j', 0, ny)], lambda i, j: node_is(n, ny * i + j + o1, at(i, j + half)))
        c.forall('horizontal midside node', [('i', 0, nx), ('j', 0, ny + 1)], lambda i, j: node_is(n, (ny + 1) * i + j + o2, at(i + half, j)))
    R.contract('rectangle, second order: nodes', TU, square2, SM2)
    def square2e(c):
        x, y = c.real('x'), c.real('y'); nx, ny = c.int('nx', 1), c.int('ny', 1); C = 'SquareMesh<double>::'
        th = c.make('SquareMesh' + D, [x, y, nx, ny]); o1 = (nx + 1) * (ny + 1); o2 = o1 + (nx + 1) * ny
        e = c.call(C + 'GenerateElements2', [], th); N = lambda i, j: (ny + 1) * i + j; H = lambda i, j: (ny + 1) * i + j + o2; V = lambda i, j: ny * i + j + o1
        c.ensure_eq('number of elements', e.n, nx * ny)
        c.forall('element', [('i', 0, nx), ('j', 0, ny)], lambda i, j: listed(aelem(e, ny * i + j), [N(i, j), N(i + 1, j), N(i + 1, j + 1), N(i, j + 1), H(i, j), V(i + 1, j), H(i, j + 1), V(i, j)]))
        quad_edges(c, c.call(C + 'GenerateEdges2', [], th), nx, ny, lambda k, i, j: H(i, j) if k == 'h' else V(i, j))
    R.contract('rectangle, second order: elements and edges', TU, square2e, SM2)
    def graded(c):
        x, y, rx, ry = [c.real(k) for k in ('x', 'y', 'rx', 'ry')]; nx, ny = c.int('nx', 1), c.int('ny', 1); C = 'SquareMesh2' + D
        th = c.make(C, [x, y, nx, ny, rx, ry]); pw = lambda b, e: mpow(c, b, e)
        n = c.call(C + '::GenerateNodes', [], th); it = c.it
        def coord(x, r, n, i, side):
            r0 = half * x * T.inv(pw(r, P(n) * half) - 1)
            return r0 * (pw(r, i) - 1) if side < 0 else x - r0 * (pw(r, n - i) - 1) if side > 0 else half * x
        c.ensure_eq('number of nodes', n.n, (nx + 1) * (ny + 1))
        if c.sizes is None:
            for sx, sy in itertools.product((-1, 0, 1), repeat=2):
                k0 = len(it.facts); i, j = c.int('i'), c.int('j'); it.assume(And(le(0, i), le(i, nx), le(0, j), le(j, ny)))
                for q, m, s in ((i, nx, sx), (j, ny, sy)): it.assume(lt(2 * q, m) if s < 0 else gt(2 * q, m) if s > 0 else eq(2 * q, m))
                for l, p, q in node_is(n, (ny + 1) * i + j, [coord(x, rx, nx, i, sx), coord(y, ry, ny, j, sy)]): c.ensure_eq('node' + l, p, q)
                del it.facts[k0:]
        else:
            a, b = c.sizes['nx'], c.sizes['ny']; sg = lambda i, n: (2 * i > n) - (2 * i < n)
            c.forall('node', [('i', 0, nx + 1), ('j', 0, ny + 1)], lambda i, j: node_is(n, (ny + 1) * i + j, [coord(x, rx, nx, i, sg(int(i.const()), a)), coord(y, ry, ny, j, sg(int(j.const()), b))]))
        quad_elements(c, c.call(C + '::GenerateElements', [], th), nx, ny)
        quad_edges(c, c.call(C + '::GenerateEdges', [], th), nx, ny)
    R.contract('graded rectangle', TU, graded, SM2)
    def annulus(c):
        r0, r1 = c.real('r0'), c.real('r1'); nr, nt = c.int('nr', 1), c.int('nt', 1); C = 'AnnulusMesh' + D
        th = c.make(C, [r0, r1, nr, nt]); n = c.call(C + '::GenerateNodes', [], th)
        c.ensure_eq('number of nodes', n.n, (nr + 1) * nt)
        def node(i, j):
            r = (r1 - r0) * i * T.inv(nr) + r0; t = 2 * Q('3.141592653589793') * j * T.inv(nt)
            return node_is(n, nt * i + j, [r * mfn(c, 'cos', t), r * mfn(c, 'sin', t)])
        c.forall('node', [('i', 0, nr + 1), ('j', 0, nt)], node)
        ring_elements(c, c.call(C + '::GenerateElements', [], th), nt, nr); ring_edges(c, c.call(C + '::GenerateEdges', [], th), nt, nr)
    R.contract('annulus', TU, annulus, [dict(nr=a, nt=b) for a, b in ((1, 3), (2, 4), (3, 5))])
    def sqan(c, C):
        circ = 'Circle' in C; it = c.it
        a, b = c.real('a'), c.real('b'); nx, ny, nt = c.int('nx', 1), c.int('ny', 1), c.int('nt', 1); N = 2 * (nx + ny)
        if circ: r, p = c.real('r'), c.real('p'); th = c.make(C, [a, b, r, p, nx, ny, nt])
        else: cc, d = c.real('c'), c.real('d'); th = c.make(C, [a, b, cc, d, nx, ny, nt])
        n = c.call(C + '::GenerateNodes', [], th); c.ensure_eq('number of nodes', n.n, N * (nt + 1))
        def outer(s, j, a, b):   # walk counterclockwise from the lower right corner
            return [[half * a, b * (j * T.inv(ny) - half)], [a * (half - j * T.inv(nx)), half * b], [-half * a, b * (half - j * T.inv(ny))], [a * (j * T.inv(nx) - half), -half * b]][s]
        off = [ZERO, ny, ny + nx, 2 * ny + nx]
        for s in range(4):
            def node(i, j, s=s):
                o = outer(s, j, a, b)
                if circ:
                    t = mpow(c, i * T.inv(nt), p); ang = 2 * Q('3.141592653589793') * (off[s] + j - half * ny) * T.inv(N)
                    q = [r * mfn(c, 'cos', ang), r * mfn(c, 'sin', ang)]
                else: t = i * T.inv(nt); q = outer(s, j, cc, d)
                return node_is(n, N * i + off[s] + j, [t * u + (1 - t) * v for u, v in zip(o, q)])
            c.forall('node on side %d' % s, [('i', 0, nt + 1), ('j', 0, nx if s % 2 else ny)], node)
        ring_elements(c, c.call(C + '::GenerateElements', [], th), N, nt); ring_edges(c, c.call(C + '::GenerateEdges', [], th), N, nt)
    SA = [dict(nx=a, ny=b, nt=k) for a, b, k in ((1, 1, 1), (2, 1, 1), (1, 2, 2))]
    R.contract('rectangle with a rectangular hole', TU, lambda c: sqan(c, 'SquareAnnulusMesh' + D), SA)
    R.contract('rectangle with a circular hole', TU, lambda c: sqan(c, 'SquareCircleAnnulusMesh' + D), SA)
    # rectangle of nx x ny cells with the centred nv x nw cells cut out
    SH = [dict(nv=a, nw=b, p=p, q=q) for a, b, p, q in ((1, 1, 1, 1), (2, 1, 1, 1), (2, 2, 1, 1), (3, 2, 1, 2), (2, 3, 2, 1))]
    C2 = 'SquareAnnulusMesh2' + D
    class Hole: pass
    def hole(c):
        h = Hole(); h.a, h.b = c.real('a'), c.real('b'); h.nv, h.nw, h.p, h.q = c.int('nv', 1), c.int('nw', 1), c.int('p', 1), c.int('q', 1)
        h.nx, h.ny = h.nv + 2 * h.p, h.nw + 2 * h.q
        h.th = c.make(C2, [h.a, h.b, h.nx, h.ny, h.nv, h.nw]); h.B = (h.ny + 1) * (h.p + 1); h.m = 2 * (h.q + 1); h.Rt = h.B + h.m * (h.nv - 1)
        h.L = lambda i, j: (h.ny + 1) * i + j                   # left columns 0..p
        h.M = lambda i, j: h.B + h.m * i + j                    # column p+1+i, rows below the hole
        h.U = lambda i, j: h.B + h.m * i + (h.q + 1) + j        # the same column, row q+nw+j
        h.Z = lambda i, j: h.Rt + (h.ny + 1) * i + j            # column p+nv+i
        return h
    def holen(c):
        h = hole(c); n = c.call(C2 + '::GenerateNodes', [], h.th); at = at_(h.a, h.b, h.nx, h.ny)
        c.ensure_eq('number of nodes', n.n, (h.nx + 1) * (h.ny + 1) - (h.nv - 1) * (h.nw - 1))
        c.forall('node left of the hole', [('i', 0, h.p + 1), ('j', 0, h.ny + 1)], lambda i, j: node_is(n, h.L(i, j), at(i, j)))
        c.forall('node below the hole', [('i', 0, h.nv - 1), ('j', 0, h.q + 1)], lambda i, j: node_is(n, h.M(i, j), at(h.p + 1 + i, j)))
        c.forall('node above the hole', [('i', 0, h.nv - 1), ('j', 0, h.q + 1)], lambda i, j: node_is(n, h.U(i, j), at(h.p + 1 + i, h.q + h.nw + j)))
        c.forall('node right of the hole', [('i', 0, h.p + 1), ('j', 0, h.ny + 1)], lambda i, j: node_is(n, h.Z(i, j), at(h.p + h.nv + i, j)))
    R.contract('rectangle with cells cut out: nodes', TU, holen, SH)
    def holee(c):
        h = hole(c); e = c.call(C2 + '::GenerateElements', [], h.th)
        c.ensure_eq('number of elements', e.n, h.nx * h.ny - h.nv * h.nw)
        quad = lambda f, g, j: [f(j), g(j), g(j + 1), f(j + 1)]
        col = lambda F, i: lambda j: F(i, j); o = h.ny * h.p
        c.forall('element left of the hole', [('i', 0, h.p), ('j', 0, h.ny)], lambda i, j: listed(aelem(e, h.ny * i + j), quad(col(h.L, i), col(h.L, i + 1), j)))
        up = lambda j: h.L(h.p, h.q + h.nw + j); ur = lambda j: h.Z(ZERO, h.q + h.nw + j)
        k0 = len(c.it.facts)
        def blk(label, cond, pos, lft, rgt):
            c.forall(label, [('j', 0, h.q)], lambda j: listed(aelem(e, pos + j), quad(lft, rgt, j)))
        many = c.sizes is None or c.sizes['nv'] >= 2
        if c.sizes is None: c.it.assume(ge(h.nv, 2))
        if many:
            blk('element below the first hole column', None, o, col(h.L, h.p), col(h.M, ZERO))
            blk('element above the first hole column', None, o + h.q, up, col(h.U, ZERO))
            c.forall('element below a hole column', [('i', 0, h.nv - 2), ('j', 0, h.q)], lambda i, j: listed(aelem(e, o + h.q * (2 * i + 2) + j), quad(col(h.M, i), col(h.M, i + 1), j)))
            c.forall('element above a hole column', [('i', 0, h.nv - 2), ('j', 0, h.q)], lambda i, j: listed(aelem(e, o + h.q * (2 * i + 3) + j), quad(col(h.U, i), col(h.U, i + 1), j)))
            blk('element below the last hole column', None, o + h.q * (2 * h.nv - 2), col(h.M, h.nv - 2), col(h.Z, ZERO))
            blk('element above the last hole column', None, o + h.q * (2 * h.nv - 1), col(h.U, h.nv - 2), ur)
        else:
            blk('element below the hole', None, o, col(h.L, h.p), col(h.Z, ZERO)); blk('element above the hole', None, o + h.q, up, ur)
        del c.it.facts[k0:]
        o2 = o + 2 * h.q * h.nv
        c.forall('element right of the hole', [('i', 0, h.p), ('j', 0, h.ny)], lambda i, j: listed(aelem(e, o2 + h.ny * i + j), quad(col(h.Z, i), col(h.Z, i + 1), j)))
    R.contract('rectangle with cells cut out: elements', TU, holee, SH)
    R.contract('rectangle with one column of cells cut out: elements', TU, holee, [dict(nv=1)], sym=False)
    def holeg(c):
        h = hole(c); e = c.call(C2 + '::GenerateEdges', [], h.th); k = 0
        c.ensure_eq('number of edges of the outer boundary', e.n, 2 * (h.nx + h.ny)); it = c.it; k0 = len(it.facts)
        if c.sizes is None: it.assume(ge(h.nv, 2))
        one = c.sizes is not None and c.sizes['nv'] == 1; pos = ZERO
        def run_(label, cnt, f, g):
            nonlocal pos
            p0 = pos; c.forall(label, [('k', 0, cnt)], lambda i: listed(aelem(e, p0 + i), [f(i), g(i)])); pos = pos + cnt
        run_('bottom edge left', h.p, lambda i: h.L(i, 0), lambda i: h.L(i + 1, 0))
        if one: run_('bottom edge below the hole', P(1), lambda i: h.L(h.p, 0), lambda i: h.Z(0, 0))
        else:
            run_('bottom edge to the first hole column', P(1), lambda i: h.L(h.p, 0), lambda i: h.M(0, 0)); run_('bottom edge below the hole', h.nv - 2, lambda i: h.M(i, 0), lambda i: h.M(i + 1, 0))
            run_('bottom edge from the last hole column', P(1), lambda i: h.M(h.nv - 2, 0), lambda i: h.Z(0, 0))
        run_('bottom edge right', h.p, lambda i: h.Z(i, 0), lambda i: h.Z(i + 1, 0))
        run_('right edge', h.ny, lambda j: h.Z(h.p, j), lambda j: h.Z(h.p, j + 1))
        run_('top edge right', h.p, lambda i: h.Z(h.p - i, h.ny), lambda i: h.Z(h.p - i - 1, h.ny))
        if one: run_('top edge above the hole', P(1), lambda i: h.Z(0, h.ny), lambda i: h.L(h.p, h.ny))
        else:
            run_('top edge to the last hole column', P(1), lambda i: h.Z(0, h.ny), lambda i: h.U(h.nv - 2, h.q)); run_('top edge above the hole', h.nv - 2, lambda i: h.U(h.nv - 2 - i, h.q), lambda i: h.U(h.nv - 3 - i, h.q))
            run_('top edge from the first hole column', P(1), lambda i: h.U(0, h.q), lambda i: h.L(h.p, h.ny))
        run_('top edge left', h.p, lambda i: h.L(h.p - i, h.ny), lambda i: h.L(h.p - i - 1, h.ny))
        run_('left edge', h.ny, lambda j: h.L(0, h.ny - j), lambda j: h.L(0, h.ny - j - 1)); del it.facts[k0:]
    R.contract('rectangle with cells cut out: outer boundary', TU, holeg, SH)
    R.contract('rectangle with one column of cells cut out: outer boundary', TU, holeg, [dict(nv=1)], sym=False)
    # the limit compared with every distance, both symbolic: every consistent set of answers is one case
    def ground(c):
        nx, ny, ans = c.sizes['nx'], c.sizes['ny'], c.sizes['near']; x, y, lm = c.real('x'), c.real('y'), c.real('l'); C = 'GrandStructure2D' + D
        for f in (lt(0, x), lt(0, y), lt(0, lm)): c.it.assume(f)
        for (i, j), near in zip(spans(nx, ny), ans):
            d2 = (x * Q(i, nx)) * (x * Q(i, nx)) + (y * Q(j, ny)) * (y * Q(j, ny)); c.it.assume(lt(d2, lm * lm) if near else le(lm * lm, d2))
        near = dict(zip(spans(nx, ny), ans)); th = c.make(C, [x, y, P(nx), P(ny), lm]); e = c.call(C + '::GenerateElements', [], th)
        def num(p):
            v = P(p).const()
            if v is None: raise Unsupported('the comparison of a distance with the limit')
            return int(v)
        got = sorted(tuple(num(aelem(aelem(e, P(k)), P(a))) for a in (0, 1)) for k in range(num(e.n)))
        N = [(i, j) for i in range(nx + 1) for j in range(ny + 1)]
        want = sorted((a, b) for a in range(len(N)) for b in range(a) if near[abs(N[a][0] - N[b][0]), abs(N[a][1] - N[b][1])])
        c.ok('one bar between any two nodes closer than the limit', got == want, 'execution of the real code in the verifier', '%s instead of %s' % (got, want))
    sizes = ((1, 1), (2, 1), (1, 2)) + (() if R.tier == 'quick' else ((2, 2), (1, 3), (3, 1)))
    R.contract('ground structure bars (listed subdivisions)', TU, ground, [dict(nx=a, ny=b, near=v) for a, b in sizes for v in answers(a, b)], sym=False)
    # selection by a predicate on the coordinates: the predicate is an unknown function; it is consulted on exactly the nodes
    MESH = [('SquareMesh', 'GenerateNodes', ['x', 'y', 2, 1], ''), ('SquareMesh', 'GenerateNodes', ['x', 'y', 1, 3], ''), ('SquareMesh', 'GenerateNodes2', ['x', 'y', 2, 2], '2'), ('SquareMesh', 'GenerateNodes2', ['x', 'y', 1, 2], '2'),
            ('SquareMesh2', 'GenerateNodes', ['x', 'y', 2, 3, 'rx', 'ry'], ''), ('SquareMesh2', 'GenerateNodes', ['x', 'y', 3, 2, 'rx', 'ry'], ''), ('SquareMesh2', 'GenerateNodes', ['x', 'y', 4, 4, 'rx', 'ry'], ''), ('AnnulusMesh', 'GenerateNodes', ['r0', 'r1', 2, 3], ''), ('AnnulusMesh', 'GenerateNodes', ['r0', 'r1', 1, 5], ''),
            ('SquareAnnulusMesh', 'GenerateNodes', ['a', 'b', 'c', 'd', 1, 2, 2], ''), ('SquareAnnulusMesh', 'GenerateNodes', ['a', 'b', 'c', 'd', 2, 1, 3], ''), ('SquareAnnulusMesh2', 'GenerateNodes', ['a', 'b', 4, 3, 2, 1], ''), ('SquareAnnulusMesh2', 'GenerateNodes', ['a', 'b', 3, 5, 1, 3], ''),
            ('SquareCircleAnnulusMesh', 'GenerateNodes', ['a', 'b', 'r', 'p', 1, 2, 2], ''), ('SquareCircleAnnulusMesh', 'GenerateNodes', ['a', 'b', 'r', 'p', 2, 1, 1], ''), ('GrandStructure2D', 'GenerateNodes', ['x', 'y', 2, 3, 'l'], '')]
    def setup(c, k):
        cls, nf, ar, suf = MESH[k]; it = c.it; C = cls + D
        th = c.make(C, [c.real(a) if isinstance(a, str) else P(a) for a in ar]); n = c.call(C + '::' + nf, [], th); cnt = int(P(n.n).const())
        ids = {tuple(z.key() for z in xy(n, q)): q for q in range(cnt)}; rnd = random.Random(k); st = Hole(); st.sel = set(); st.stray = None
        def pick(it, f, this, args):
            key = tuple(scal(it.get(a)).key() for a in args)
            if key not in ids: st.stray = 'asked about (%s), which is no node' % ', '.join(show(scal(it.get(a)))[:80] for a in args); return FALSE
            return TRUE if ids[key] in st.sel else FALSE
        it.contracts['pick'] = pick
        subsets = [set(), set(range(cnt))] + [{q for q in range(cnt) if rnd.random() < 0.5} for _ in range(3)]
        return C, th, n, cnt, suf, st, subsets, len(ids) == cnt
    def ints(e): return [int(P(aelem(e, P(k))).const()) for k in range(int(P(e.n).const()))]
    def fixedlist(c):
        C, th, n, cnt, suf, st, subsets, inj = setup(c, c.sizes['k'])
        c.ok('distinct nodes have distinct coordinates', inj, 'normal form', '')
        for s in subsets:
            st.sel = s; ul = [0, 2]
            r = c.call(C + '::GenerateFixedlist' + suf, [ArrC([P(u) for u in ul], 'int'), Obj('Pred', {})], th)
            g = []
            for k in range(int(P(r.n).const())):
                v = aelem(r, P(k)); g.append((int(v.f['first'].f['first'].const()), int(v.f['first'].f['second'].const()), v.f['second'].const()))
            w = [(q, u, 0) for q in sorted(s) for u in ul]
            c.ok('exactly the selected nodes, each listed degree of freedom once, value zero', st.stray is None and sorted(g) == w, 'execution of the real code in the verifier', st.stray or '%s instead of %s' % (sorted(g), w))
    # constraint lists: the predicate is an unknown function of the coordinates; the entry of every selected node and degree of freedom
    # stands at the position given by the number of selected nodes before it
    def picked(c, th, C, suf, n, blocks):
        """blocks: [(rows, [(columns, node(i, j))])] in the order of the list; the coordinates are those the mesher gives the node"""
        it = c.it; it.qmode = True; L = c.int('L', 1); u = c.arr(L, 'int', 'u'); it.axioms['u'] = lambda k: [le(0, read('u', (P(k),), 'int'))]
        def on(m, I, J, node, i, j):
            k = len(it.facts); it.facts += [le(0, i), lt(i, I), le(0, j), lt(j, J)]
            try: return ne(fn('sel', tuple(xy(n, node(i, j))), 'int'), 0)
            finally: del it.facts[k:]
        it.contracts['pick'] = lambda it, f, this, args: ne(fn('sel', tuple(scal(it.get(a)) for a in args), 'int'), 0)
        r = c.call(C + '::GenerateFixedlist' + suf, [u, Obj('Pred', {})], th)
        i, j = fresh('i', 'int'), fresh('j', 'int'); before = ZERO
        part = lambda I, J, node, row, b: subst(Sum(j, ZERO, b, ind(on(m_, I, J, node, i, j)) * L), {i.as_atom(): P(row)}); m_ = None
        for nb, (I, segs) in enumerate(blocks):
            one = lambda row, upto: sum((part(I, J, node, row, J) for J, node in segs[:upto]), ZERO)
            for k, (J, node) in enumerate(segs):
                f0 = len(it.facts); a, b, d = c.int('i%d_%d' % (nb, k), 0), c.int('j%d_%d' % (nb, k), 0), c.int('d%d_%d' % (nb, k), 0)
                it.assume(And(lt(a, I), lt(b, J), lt(d, L))); it.assume(on(m_, I, J, node, a, b))
                v = aelem(r, before + Sum(i, ZERO, a, one(i, len(segs))) + one(a, k) + part(I, J, node, a, b) + d); w = 'block %d.%d: ' % (nb, k)
                c.ensure_eq(w + 'node', v.f['first'].f['first'], node(a, b)); c.ensure_eq(w + 'degree of freedom', v.f['first'].f['second'], aelem(u, d)); c.ensure_eq(w + 'value', v.f['second'], 0)
                del it.facts[f0:]
            before = before + Sum(i, ZERO, I, one(i, len(segs)))
        c.ensure_eq('number of entries', r.n, before)
    def rectf(c, cls, suf=''):
        x, y = c.real('x'), c.real('y'); nx, ny = c.int('nx', 1), c.int('ny', 1); C = cls + D; th = c.make(C, [x, y, nx, ny] + ([c.real('lmax')] if cls[0] == 'G' else []))
        n = c.call(C + '::GenerateNodes' + suf, [], th); o1 = (nx + 1) * (ny + 1); o2 = o1 + (nx + 1) * ny
        bl = [(nx + 1, [(ny + 1, lambda i, j: (ny + 1) * i + j)])]
        if suf: bl += [(nx + 1, [(ny, lambda i, j: ny * i + j + o1)]), (nx, [(ny + 1, lambda i, j: (ny + 1) * i + j + o2)])]
        picked(c, th, C, suf, n, bl)
    R.contract('constraint list: rectangle', TU, lambda c: rectf(c, 'SquareMesh'), [])
    R.contract('constraint list: ground structure', TU, lambda c: rectf(c, 'GrandStructure2D'), [])
    R.contract('constraint list: rectangle, second order', TU, lambda c: rectf(c, 'SquareMesh', '2'), [])
    def annulusf(c):
        nr, nt = c.int('nr', 1), c.int('nt', 1); C = 'AnnulusMesh' + D; th = c.make(C, [c.real('r0'), c.real('r1'), nr, nt])
        picked(c, th, C, '', c.call(C + '::GenerateNodes', [], th), [(nr + 1, [(nt, lambda i, j: nt * i + j)])])
    R.contract('constraint list: annulus', TU, annulusf, [])
    def sqanf(c, cls):
        a, b = c.real('a'), c.real('b'); nx, ny, nt = c.int('nx', 1), c.int('ny', 1), c.int('nt', 1); N = 2 * (nx + ny); C = cls + D
        th = c.make(C, [a, b, c.real('c'), c.real('d'), nx, ny, nt]); off = [ZERO, ny, ny + nx, 2 * ny + nx]
        picked(c, th, C, '', c.call(C + '::GenerateNodes', [], th), [(nt + 1, [(nx if s % 2 else ny, lambda i, j, s=s: N * i + off[s] + j) for s in range(4)])])
    R.contract('constraint list: rectangle with a rectangular hole', TU, lambda c: sqanf(c, 'SquareAnnulusMesh'), [])
    R.contract('constraint list: rectangle with a circular hole', TU, lambda c: sqanf(c, 'SquareCircleAnnulusMesh'), [])
    def holef(c):
        nv, nw, p, q = c.int('nv', 1), c.int('nw', 1), c.int('p', 1), c.int('q', 1); nx, ny = nv + 2 * p, nw + 2 * q; C = 'SquareAnnulusMesh2' + D
        th = c.make(C, [c.real('a'), c.real('b'), nx, ny, nv, nw]); B = (ny + 1) * (p + 1); m = 2 * (q + 1); Rt = B + m * (nv - 1)
        picked(c, th, C, '', c.call(C + '::GenerateNodes', [], th), [(p + 1, [(ny + 1, lambda i, j: (ny + 1) * i + j)]), (nv - 1, [(q + 1, lambda i, j: B + m * i + j), (q + 1, lambda i, j: B + m * i + q + 1 + j)]),
            (p + 1, [(ny + 1, lambda i, j: Rt + (ny + 1) * i + j)])])
    R.contract('constraint list: rectangle with cells cut out', TU, holef, [])
    R.contract('constraint lists (listed sizes)', TU, fixedlist, [dict(k=k) for k in range(len(MESH))], sym=False)
    def selected(c):
        C, th, n, cnt, suf, st, subsets, inj = setup(c, c.sizes['k'])
        e = c.call(C + '::GenerateElements', [], th); g = c.call(C + '::GenerateEdges', [], th)
        for s in subsets:
            st.sel = s
            for what, tab in (('Element', e), ('Edge', g)):
                r = sorted(ints(c.call(C + '::Generate%sIdsSelected' % what, [Obj('Pred', {})], th)))
                w = [k for k in range(int(P(tab.n).const())) if all(q in s for q in ints(aelem(tab, P(k))))]
                c.ok('%ss all of whose nodes are selected' % what.lower(), st.stray is None and r == w, 'execution of the real code in the verifier', st.stray or '%s instead of %s' % (r, w))
    R.contract('selected elements and edges (listed sizes)', TU, selected, [dict(k=k) for k in (0, 1)], sym=False)
    R.bounded.append('constraint lists of the graded rectangle, selections: listed subdivisions with symbolic dimensions, five subsets of the nodes each; bars of the ground structure: listed subdivisions, symbolic dimensions and limit')
    runtime(R)

def spans(nx, ny): return [(i, j) for i in range(nx + 1) for j in range(ny + 1) if i + j]
def answers(nx, ny):
    """the consistent answers to "is this distance below the limit" over all dimensions: linear in their squares"""
    import z3
    X, Y = z3.Reals('X Y'); s = z3.Solver(); s.add(X > 0, Y > 0); out = []
    def go(k, v):
        if s.check() != z3.sat: return
        if k == len(sp): out.append(tuple(v)); return
        d = X * z3.Q(sp[k][0] ** 2, nx * nx) + Y * z3.Q(sp[k][1] ** 2, ny * ny)
        for a in (True, False): s.push(); s.add(d < 1 if a else d >= 1); go(k + 1, v + [a]); s.pop()
    sp = spans(nx, ny); go(0, []); return out

def runtime(R):
    rc, out, err = R.driver('mesh.cpp', [R.seed, 12 if R.tier == 'quick' else 400], flags=['-fsanitize=address,undefined', '-D_GLIBCXX_ASSERTIONS'])
    if rc is None: R.violate('driver', 'build', err); return
    cases, open_ = parse_cases(out)
    for c in cases:
        R.cases += 1; bad = check_case(c)
        if bad: R.violate(c['_name'], 'execution', bad, c); return
    if rc != 0: R.violate('meshes', 'execution', 'driver status %s: %s' % (rc, err[-600:]), open_ or {'seed': R.seed})

def rows(v, cast=int):
    r = []; k = 0
    while k < len(v): m = int(v[k]); r.append([cast(x) for x in v[k + 1:k + 1 + m]]); k += 1 + m
    return r
def grid(nx, ny, f): return [f(i, j) for i in range(nx + 1) for j in range(ny + 1)]
def expected(c):
    """nodes, elements and boundary edges of the mesh the parameters describe"""
    nm = c['_name']; p = c['par']; N = len(p)
    if nm in ('SquareMesh', 'SquareMesh2', 'GrandStructure2D'):
        x, y, nx, ny = p[0], p[1], int(p[2]), int(p[3])
        if nm == 'SquareMesh2':
            def gr(x, r, n, i):
                r0 = 0.5 * x / (r ** (n / 2) - 1); return r0 * (r ** i - 1) if 2 * i < n else x - r0 * (r ** (n - i) - 1) if 2 * i > n else 0.5 * x
            nodes = grid(nx, ny, lambda i, j: [gr(x, p[4], nx, i), gr(y, p[5], ny, j)])
        else: nodes = grid(nx, ny, lambda i, j: [x * i / nx, y * j / ny])
        n = lambda i, j: (ny + 1) * i + j
        if nm[0] == 'G': return nodes, sorted([a, b] for a in range(len(nodes)) for b in range(a) if math.dist(nodes[a], nodes[b]) < p[4]), None
        return (nodes, [[n(i, j), n(i + 1, j), n(i + 1, j + 1), n(i, j + 1)] for i in range(nx) for j in range(ny)],
                [[n(i, 0), n(i + 1, 0)] for i in range(nx)] + [[n(nx, j), n(nx, j + 1)] for j in range(ny)] + [[n(i + 1, ny), n(i, ny)] for i in reversed(range(nx))] + [[n(0, j + 1), n(0, j)] for j in reversed(range(ny))])
    if nm == 'SquareAnnulusMesh2':
        a, b, nx, ny, nv, nw = p[0], p[1], *[int(z) for z in p[2:]]; q, s = (nx - nv) // 2, (ny - nw) // 2
        gp = [(i, j) for i in range(nx + 1) for j in range(ny + 1) if not (q < i < q + nv and s < j < s + nw)]; num = {g: k for k, g in enumerate(gp)}
        quad = lambda i, j: [num[i, j], num[i + 1, j], num[i + 1, j + 1], num[i, j + 1]]
        return ([[a * i / nx, b * j / ny] for i, j in gp], sorted(quad(i, j) for i in range(nx) for j in range(ny) if not (q <= i < q + nv and s <= j < s + nw)),
                [[num[i, 0], num[i + 1, 0]] for i in range(nx)] + [[num[nx, j], num[nx, j + 1]] for j in range(ny)] + [[num[i + 1, ny], num[i, ny]] for i in reversed(range(nx))] + [[num[0, j + 1], num[0, j]] for j in reversed(range(ny))])
    if nm == 'AnnulusMesh':
        r0, r1, nr, nt = p[0], p[1], int(p[2]), int(p[3])
        nodes = [[(r0 + (r1 - r0) * i / nr) * f(2 * math.pi * j / nt) for f in (math.cos, math.sin)] for i in range(nr + 1) for j in range(nt)]
    else:
        nx, ny, nr = [int(z) for z in p[4:]]; nt = 2 * (nx + ny)
        def walk(k, a, b):
            for cnt, f in ((ny, lambda t: (a / 2, b * (t - .5))), (nx, lambda t: (a * (.5 - t), b / 2)), (ny, lambda t: (-a / 2, b * (.5 - t))), (nx, lambda t: (a * (t - .5), -b / 2))):
                if k < cnt: return f(k / cnt)
                k -= cnt
        nodes = []
        for i in range(nr + 1):
            for k in range(nt):
                t = i / nr if nm == 'SquareAnnulusMesh' else (i / nr) ** p[3]; o = walk(k, p[0], p[1]); th = 2 * math.pi * (k - .5 * ny) / nt
                q = walk(k, p[2], p[3]) if nm == 'SquareAnnulusMesh' else (p[2] * math.cos(th), p[2] * math.sin(th))
                nodes.append([t * u + (1 - t) * v for u, v in zip(o, q)])
    return (nodes, [[nt * i + j, nt * (i + 1) + j, nt * (i + 1) + (j + 1) % nt, nt * i + (j + 1) % nt] for i in range(nr) for j in range(nt)],
            [[(k + 1) % nt, k] for k in reversed(range(nt))] + [[nt * nr + k, nt * nr + (k + 1) % nt] for k in range(nt)])
def check_case(c):
    nodes, els, edges = expected(c); h = c['h']; nm = c['_name']; close = lambda a, b: len(a) == len(b) and all(len(p) == len(q) and all(abs(u - v) <= 1e-9 * (1 + abs(v)) for u, v in zip(p, q)) for p, q in zip(a, b))
    got = rows(c['nodes'], float)
    if not close(got, nodes): return 'nodes %s instead of %s' % (got, nodes)
    ge = rows(c['elements']); ge = sorted(ge) if nm in ('GrandStructure2D', 'SquareAnnulusMesh2') else ge
    if ge != els: return 'elements %s instead of %s' % (ge, els)
    if edges is not None and rows(c['edges']) != edges: return 'edges %s instead of %s' % (rows(c['edges']), edges)
    def fixed(key, nd):
        s = [k for k, v in enumerate(nd) if h[0] * v[0] + h[1] * v[1] < h[2]]
        if any(abs(h[0] * v[0] + h[1] * v[1] - h[2]) < 1e-9 for v in nd): return None
        w = sorted([k, u, 0.0] for k in s for u in (0, 1, 3)); g = sorted(list(t) for t in zip(*[iter(c[key])] * 3))
        return None if g == w else '%s %s instead of %s' % (key, g, w)
    bad = fixed('fixed', nodes)
    if bad: return bad
    if nm == 'SquareMesh':
        x, y, nx, ny = c['par'][0], c['par'][1], int(c['par'][2]), int(c['par'][3])
        n2 = rows(c['nodes2'], float); mid = lambda a, b: [(u + v) / 2 for u, v in zip(a, b)]
        w2 = nodes + [[x * i / nx, y * (j + .5) / ny] for i in range(nx + 1) for j in range(ny)] + [[x * (i + .5) / nx, y * j / ny] for i in range(nx) for j in range(ny + 1)]
        if not close(n2, w2): return 'second order nodes %s instead of %s' % (n2, w2)
        for key, e1, m in (('elements2', els, 4), ('edges2', edges, 2)):
            e2 = rows(c[key])
            if [e[:m] for e in e2] != e1: return '%s: corners %s' % (key, e2)
            for e in e2:
                q = [mid(n2[e[k]], n2[e[(k + 1) % m]]) for k in range(m if m == 4 else 1)]
                if not close([n2[k] for k in e[m:]], q): return '%s: midside nodes of %s' % (key, e)
        bad = fixed('fixed2', w2)
        if bad: return bad
        ins = lambda k: h[0] * nodes[k][0] + h[1] * nodes[k][1] < h[2]
        for key, tab in (('esel', els), ('gsel', edges)):
            w = [k for k, e in enumerate(tab) if all(ins(q) for q in e)]
            if sorted(int(k) for k in c[key]) != w: return '%s %s instead of %s' % (key, c[key], w)
