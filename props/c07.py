from vc import *
import numpy as np, itertools, random
from c06 import k_get, ilu0, lsolve, sor
TITLE = 'preconditioners'
TU = 'krylov.cpp'

def diagonal(c):
    it = c.it; n = c.int('n', 0); nz = c.int('nz', 0)
    it.contracts['CSR::get'] = k_get
    A = it.new_root(Obj('CSR<double>', {'ROWS': n, 'COLS': n, 'indptr': c.arr(n + 1, 'int', 'ip'), 'indices': c.arr(nz, 'int', 'ix'), 'data': c.arr(nz, 'double', 'da')}), 'A')
    r = c.call('GetDiagonal', [A])
    c.ensure_eq('length', r.n, n)
    c.forall('diagonal entry', [('i', 0, n)], lambda i: [(aelem(r, i), read('A.entry', (i, i)))])
def scaling(c):
    it = c.it; n = c.int('n', 0)
    d, b = it.new_root(c.arr(n, 'double', 'd'), 'd'), it.new_root(c.arr(n, 'double', 'b'), 'b'); d0, b0 = it.get(d), it.get(b)
    r = c.call('Scaling', [d, b])
    c.ensure_eq('length', r.n, n)
    c.forall('quotient', [('i', 0, n)], lambda i: [(aelem(r, i) * aelem(d0, i), aelem(b0, i)), ('operand', aelem(it.get(d), i), aelem(d0, i)), ('operand', aelem(it.get(b), i), aelem(b0, i))])

def patterns(tier):
    """sparsity patterns with full diagonal: all of them up to 3 rows, random ones of 4 to 6 rows"""
    out = []
    for n in (1, 2, 3):
        off = [(i, j) for i in range(n) for j in range(n) if i != j]
        for m in range(1 << len(off)): out.append((n, [p for k, p in enumerate(off) if m >> k & 1]))
    r = random.Random(5)
    for k in range(60 if tier == 'quick' else 600):
        n = r.choice((4, 5, 6)); d = r.random(); out.append((n, [(i, j) for i in range(n) for j in range(n) if i != j and r.random() < d]))
    return out
def sparse(c, n, off):
    pos = sorted(set(off) | {(i, i) for i in range(n)}); g = {p: c.gen(True) for p in pos}
    ip = [sum(1 for i, j in pos if i < r) for r in range(n + 1)]
    return Obj('CSR<double>', {'ROWS': P(n), 'COLS': P(n), 'indptr': ArrC([P(x) for x in ip], 'int'), 'indices': ArrC([P(j) for i, j in pos], 'int'), 'data': ArrC([g[p] for p in pos], 'double')}), g
def entries(o):
    ip = [int(x.const()) for x in o.f['indptr'].v]; ix = [int(x.const()) for x in o.f['indices'].v]
    return {(i, ix[k]): o.f['data'].v[k] for i in range(len(ip) - 1) for k in range(ip[i], ip[i + 1])}, ix, ip
def ilu(c, ps):
    for n, off in ps:
        it = c.it; A, g = sparse(c, n, off); Al = it.new_root(A, 'A')
        r = c.call('ILU0', [Al]); m, ix, ip = entries(r)
        c.ok('pattern kept', set(m) == set(g) and len(ix) == len(m) and all(list(ix[a:b]) == sorted(ix[a:b]) for a, b in zip(ip, ip[1:])), 'ground evaluation', 'pattern %s of %d rows' % (off, n))
        for i, j in g:
            s = sum((m[i, k] * m[k, j] for k in range(min(i, j + 1)) if (i, k) in m and (k, j) in m), ZERO) + (m[i, j] if j >= i and (i, j) in m else ZERO)
            c.ensure_eq('product of the incomplete factors on the pattern %s: [%d,%d]' % (off, i, j), s, g[i, j])
        c.ok('matrix unchanged', it.get(Al) is A or entries(it.get(Al))[0] == g, 'frame')
def apply(c, ps):
    for n, off in ps:
        it = c.it; M, g = sparse(c, n, off); b = [c.gen(True) for _ in range(n)]; bl = it.new_root(ArrC(b, 'double'), 'b')
        r = c.call('PreILU0', [it.new_root(M, 'M'), bl])
        u = [sum((g[i, j] * aelem(r, P(j)) for j in range(i, n) if (i, j) in g), ZERO) for i in range(n)]
        for i in range(n): c.ensure_eq('L U v = b on the pattern %s: row %d' % (off, i), u[i] + sum((g[i, j] * u[j] for j in range(i) if (i, j) in g), ZERO), b[i])
        c.ok('operand unchanged', all(it.get(bl).v[i] == b[i] for i in range(n)), 'frame')
def relax(c, ps):
    c.it.ieee_div = True      # the relative change of a component that starts at zero is infinite: IEEE division is defined, the value only feeds the stopping test
    for n, off in ps:
        for m in (0, 1, 2):
            it = c.it; A, g = sparse(c, n, off); b = [c.gen(True) for _ in range(n)]; w = c.gen(); bl = it.new_root(ArrC(b, 'double'), 'b')
            r = c.call('SOR', [it.new_root(A, 'A'), bl, w, P(m), P(-1)])
            gg = {(i, j): g.get((i, j), ZERO) for i in range(n) for j in range(n)}
            x = sor(n, gg, b, w, m, ZERO, lambda p, q: p * T.inv(q))
            for i in range(n): c.ensure_eq('%d sweeps on the pattern %s: component %d' % (m, off, i), aelem(r, P(i)), x[i])

def run(R):
    R.contract('diagonal of a matrix', TU, diagonal, [])
    R.contract('scaling by the diagonal', TU, scaling, [dict(n=k) for k in (1, 2)])
    ps = patterns(R.tier); ch = [ps[i::8] for i in range(8)]
    for k, p in enumerate(ch):
        R.contract('incomplete factorisation, patterns %d' % k, TU, lambda c, p=p: ilu(c, p), [dict(seed=31 + k)], sym=False, bounded=True, timeout=200)
        R.contract('application of the incomplete factors, patterns %d' % k, TU, lambda c, p=p: apply(c, p), [dict(seed=51 + k)], sym=False, bounded=True, timeout=200)
        R.contract('successive over-relaxation, patterns %d' % k, TU, lambda c, p=p: relax(c, p[::3]), [dict(seed=71 + k)], sym=False, bounded=True, timeout=200)
    R.bounded.append('incomplete factorisation and its application: every sparsity pattern of 1 to 3 rows and %d random ones of 4 to 6 rows, generic values; relaxation: a third of them, 0 to 2 sweeps' % (len(ps) - 69))
    R.assumptions += ['non-vanishing pivots and diagonal entries', 'rows of the matrix are sorted (representation invariant, C04)']
    runtime(R)

def runtime(R):
    n = 60 if R.tier == 'quick' else 1500
    rc, out, err = R.driver('krylov.cpp', [R.seed, n, 1], flags=['-fsanitize=address,undefined'])
    if rc is None: R.violate('driver', 'build', err); return
    cases, open_ = parse_cases(out)
    for c in cases:
        R.cases += 1
        bad = check_case(c)
        if bad: R.violate('matrix of %d rows' % len(c['b']), 'execution', bad, dict(c)); return
    if rc != 0: R.violate('preconditioners', 'execution', 'driver status %s: %s' % (rc, err[-600:]), open_ or {'seed': R.seed})
def check_case(c):
    b = np.array(c['b']); n = len(b); A = np.array(c['A']).reshape(n, n); M = np.array(c['M']).reshape(n, n); w = c['sor'][0]
    sc = np.abs(A).max(); cl = lambda x, y: len(x) == len(y) and np.allclose(x, y, rtol=1e-8, atol=1e-10 * max(1e-300, np.abs(y).max()))
    W = ilu0(A)
    if not np.allclose(M, W, rtol=1e-9, atol=1e-11 * sc): return 'incomplete factors %s instead of %s' % (M.tolist(), W.tolist())
    dv = lambda p, q: p / q
    y = np.array(lsolve(n, {(i, j): M[i, j] for i in range(n) for j in range(n)}, list(b), dv))
    if not cl(np.array(c['pre']), y): return 'applying the incomplete factors gives %s instead of %s' % (c['pre'], y.tolist())
    d = np.diag(A)
    if not np.array_equal(np.array(c['diag']), d): return 'diagonal %s instead of %s' % (c['diag'], d.tolist())
    if not cl(np.array(c['scal']), b / d): return 'scaling gives %s instead of %s' % (c['scal'], (b / d).tolist())
    ga = {(i, j): A[i, j] for i in range(n) for j in range(n)}
    for t in range(4):
        x = np.array(sor(n, ga, list(b), w, t, 0.0, dv))
        if not cl(np.array(c['sor%d' % t]), x): return '%d sweeps with factor %g give %s instead of %s' % (t, w, c['sor%d' % t], x.tolist())
    if not np.array_equal(np.array(c['bafter']), b): return 'the right hand side was changed'
    x = np.array(c['sorc']); 
    if np.all(np.isfinite(x)) and np.linalg.norm(A @ x - b) > 1e-5 * max(np.linalg.norm(b), 1e-300) and conv(A, w): return 'relaxation to convergence leaves the residual %g' % np.linalg.norm(A @ x - b)
    return None
def conv(A, w):
    D = np.diag(np.diag(A)); L = np.tril(A, -1); U = np.triu(A, 1)
    return max(abs(np.linalg.eigvals(np.linalg.solve(D + w * L, (1 - w) * D - w * U)))) < 0.98
