from vc import *
import numpy as np, itertools
from c01 import is_mat, sumk, pick, frame_m, npm
TITLE = 'determinant and inverse'
TU = 'la.cpp'
M = 'Matrix<double>'

def leibniz(A, n):
    r = ZERO
    for p in itertools.permutations(range(n)):
        s = 1
        for i in range(n):
            for j in range(i): s = -s if p[j] > p[i] else s
        t = P(s)
        for i in range(n): t = t * mget(A, i, p[i])
        r = r + t
    return r

def minor(c, A, p, q):
    """the matrix without row p and column q"""
    n, m = A.f['row'], A.f['col']
    def e(i, j):
        return pick(c, lt(i, p), lambda: pick(c, lt(j, q), lambda: mget(A, i, j), lambda: mget(A, i, j + 1)),
                    lambda: pick(c, lt(j, q), lambda: mget(A, i + 1, j), lambda: mget(A, i + 1, j + 1)))
    return e

def DET(it, mat):
    """uninterpreted determinant of a matrix value (extensional: depends on size and entries only)"""
    p, q = var('det_p', 'int'), var('det_q', 'int')
    k = len(it.facts)
    it.assume(And(le(0, p), lt(p, mat.f['row']), le(0, q), lt(q, mat.f['col'])))
    try: e = mget(mat, p, q)
    finally: del it.facts[k:]
    return fn('DET', (mat.f['row'], e))

def mk_minor(it, A, p, q):
    class C: pass
    c = C(); c.it = it
    n = A.f['row'] - 1; m = A.f['col'] - 1
    u, v = fresh('i', 'int'), fresh('j', 'int')
    k = len(it.facts); it.assume(And(le(0, u), lt(u, n), le(0, v), lt(v, m)))
    try: val = minor(c, A, p, q)(u, v)
    finally: del it.facts[k:]
    b = it.bundle_for('double', fresh_name('mn')).write((m * u + v,), val, 'set', ((u.as_atom(), ZERO, n), (v.as_atom(), ZERO, m)))
    return Obj(M, {'row': n, 'col': m, 'values': ArrS(n * m, b, (), 'double')})

def run(R):
    def cof(c):
        m, n = c.int('m', 2), c.int('n', 2)
        A = c.mat('A', m, n)
        if c.symbolic:
            p, q = c.int('p'), c.int('q'); c.requires(And(le(0, p), lt(p, m), le(0, q), lt(q, n)))
        else: p, q = P(c.sizes['p']), P(c.sizes['q'])
        r = c.call(M + '::Cofactor', [p, q], A)
        is_mat(c, r, m - 1, n - 1, minor(c, A, p, q))
        frame_m(c, A, c.this, 'minor')
    R.contract('minor (row and column removed)', TU, cof, [dict(m=3, n=3, p=p, q=q) for p in range(3) for q in range(3)] + [dict(m=4, n=2, p=1, q=1)])
    for n in (1, 2, 3, 4):
        def det(c, n=n):
            A = c.mat('A', n, n)
            c.ensure_eq('Leibniz formula', c.call(M + '::Determinant', [], A), leibniz(A, n))
            frame_m(c, A, c.this, 'determinant')
        R.contract('determinant %dx%d' % (n, n), TU, det, [{}], sym=False, bounded=True)
        def inve(c, n=n):
            A = c.mat('A', n, n); d = leibniz(A, n)
            c.requires(ne(d, 0))
            X = c.call(M + '::Inverse', [], A)
            c.ensure_eq('rows', X.f['row'], n); c.ensure_eq('cols', X.f['col'], n)
            Xd = [[(mget(X, i, j) * d) for j in range(n)] for i in range(n)]
            for i in range(n):
                for j in range(n):
                    l = ZERO; r = ZERO
                    for k in range(n):
                        l = l + mget(A, i, k) * mget(X, k, j); r = r + mget(X, i, k) * mget(A, k, j)
                    c.ensure_eq('A*inv(A)[%d,%d]' % (i, j), l, 1 if i == j else 0)
                    c.ensure_eq('inv(A)*A[%d,%d]' % (i, j), r, 1 if i == j else 0)
            frame_m(c, A, c.this, 'inverse')
        R.contract('inverse %dx%d' % (n, n), TU, inve, [{}], sym=False, bounded=True)
    # every size >= 4: the expansion along the first column over the contracts of minor and (smaller) determinant
    cons = {M + '::Cofactor': lambda it, f, this, a: mk_minor(it, it.get(this), it.get(a[0]), it.get(a[1])),
            M + '::Determinant': lambda it, f, this, a: DET(it, it.get(this))}
    def detn(c):
        n = c.int('n', 4); A = c.mat('A', n, n)
        r = c.call(M + '::Determinant', [], A)
        i = fresh('i', 'int')
        k = len(c.it.facts); c.it.assume(And(le(0, i), lt(i, n)))
        b = alternating(i) * mget(A, i, 0) * DET(c.it, mk_minor(c.it, A, i, ZERO)); del c.it.facts[k:]
        c.ensure_eq('expansion along the first column', r, Sum(i, ZERO, n, b))
    R.contract('determinant, size n>=4 (induction step)', TU, detn, contracts=cons)
    def invn(c):
        n = c.int('n', 2); A = c.mat('A', n, n)
        r = c.call(M + '::Inverse', [], A)
        d = DET(c.it, A)
        is_mat(c, r, n, n, lambda i, j: alternating(i + j) * DET(c.it, mk_minor(c.it, A, j, i)) * inv(d))
    R.contract('inverse, size n>=2 (adjugate over determinant)', TU, invn, contracts=cons)
    R.assumptions.append('mathematical lemma: adj(A) A = det(A) I for sizes above 4 (sizes 1..4 are discharged explicitly)')
    R.assumptions.append('precondition of Inverse: non-zero determinant')
    runtime(R)

def runtime(R):
    n = 60 if R.tier == 'quick' else 1500
    rc, out, err = R.driver('la2.cpp', [R.seed, n])
    if rc is None: R.violate('driver', 'build', err); return
    cases, open_ = parse_cases(out)
    for c in cases:
        R.cases += 1
        A = npm(c['A']); n = len(A); d = np.linalg.det(A); inp = {'A': c['A'], 'pq': c['pq']}
        p, q = map(int, c['pq'])
        if not np.allclose(c['det'][0], d, rtol=1e-9, atol=1e-9 * max(1, np.abs(A).max()) ** n): R.violate('determinant', 'execution', 'observed %r, contract requires %r' % (c['det'][0], d), inp); break
        if n > 1 and not np.array_equal(npm(c['minor']), np.delete(np.delete(A, p, 0), q, 1)): R.violate('minor', 'execution', 'observed %r' % (c['minor'],), inp); break
        if abs(d) > 1e-3 and not np.allclose(A @ npm(c['inv']), np.eye(n), atol=1e-6): R.violate('inverse', 'execution', 'A*inverse = %r' % ((A @ npm(c['inv'])).tolist(),), inp); break
        if not np.array_equal(npm(c['A2']), A): R.violate('operand', 'execution', 'operand changed', inp); break
    if rc != 0: R.violate('execution', 'execution', 'driver ended with status %s: %s' % (rc, err[-600:]), open_ or (cases[-1] if cases else {}))
