from vc import *
import numpy as np
TITLE = 'assembly'
TU = 'asm.cpp'
L = 'LILCSR<double>'
MX, VX = 'Matrix<double>', 'Vector<double>'

# callee contracts of the sparse matrix: the laws proved by C04 (the matrix is an updatable map from positions to numbers)
def k_get(it, f, this, args):
    o = it.get(this); i, j = scal(it.get(args[0])), scal(it.get(args[1]))
    it.oblige('matrix position in range', And(le(0, i), lt(i, o.f['ROWS']), le(0, j), lt(j, o.f['COLS'])))
    return bview(o.f['data'].b.el, (i, j))
def k_set(it, f, this, args):
    o = it.get(this); i, j = scal(it.get(args[0])), scal(it.get(args[1]))
    it.oblige('matrix position in range', And(le(0, i), lt(i, o.f['ROWS']), le(0, j), lt(j, o.f['COLS'])))
    it.set(this.at(('f', 'data'), ('i', i), ('i', j)), scal(it.get(args[2])))
    return Opaque('flag')
SPARSE = {L + '::get': k_get, L + '::set': k_set}

class Env: pass
def env(c, multi=False):
    """an arbitrary mesh, numbering, element and element matrix satisfying the documented relations"""
    it = c.it; e = Env()
    e.N, e.D = c.int('N', 1), c.int('D', 1)      # degrees of freedom, nodes
    e.n = c.int('n', 1)                           # nodes of the element
    e.g = it.sym_array(e.D, ('vec', 'int'), 'g')
    e.gl = lambda p: read('g.len', (P(p),), 'int'); e.gv = lambda p, d: read('g.el', (P(p), P(d)), 'int')
    it.axioms['g.el'] = lambda p, d: [le(-1, read('g.el', (p, d), 'int')), lt(read('g.el', (p, d), 'int'), e.N)]
    e.el = it.sym_array(e.n, 'int', 'el')
    e.ev = lambda a: read('el', (P(a),), 'int')
    it.axioms['el'] = lambda a: [le(0, read('el', (a,), 'int')), lt(read('el', (a,), 'int'), e.D)]
    e.m = it.sym_array(e.n, ('vec', ('pair', 'int', 'int')), 'm')
    e.ml = lambda a: read('m.len', (P(a),), 'int')
    e.mf = lambda a, s: read('m.el.first', (P(a), P(s)), 'int'); e.ms = lambda a, s: read('m.el.second', (P(a), P(s)), 'int')
    it.axioms['m.len'] = lambda a: [le(0, read('m.len', (a,), 'int'))]
    e.W = c.int('W', 1)                           # size of the element matrix
    def mfax(a, s):
        v = read('m.el.first', (a, s), 'int'); x = e.ev(a)
        return [le(0, v), lt(v, e.gl(x)), eq(read('u.size', (x,), 'int'), e.gl(x))]
    it.axioms['m.el.first'] = mfax
    it.axioms['m.el.second'] = lambda a, s: [le(0, read('m.el.second', (a, s), 'int')), lt(read('m.el.second', (a, s), 'int'), e.W)]
    e.Ke = c.mat('Ke', e.W, e.W); e.Fe = c.vec('Fe', e.W)
    e.kv = lambda p, q: aelem(e.Ke.f['values'], p * e.W + q)
    e.fv = lambda p: aelem(e.Fe.f['values'], p)
    e.F = it.sym_array(e.N, 'double', 'F')
    e.K = Obj(L, {'ROWS': e.N, 'COLS': e.N, 'data': ArrS(e.N, BArr(LeafArr(('const', e.N), (), 'int'), it.bundle_for('double', 'K'), 'double'), (), ('vec', 'double'))})
    e.kb = lambda i, j: read('K', (P(i), P(j)))
    e.u = it.sym_array(e.D, ('cls', VX), 'u')
    it.axioms['u.size'] = lambda p: [eq(read('u.size', (p,), 'int'), read('u.values.len', (p,), 'int'))]
    e.uv = lambda p, d: read('u.values.el', (P(p), P(d)))
    return e

def rng_sum(c, e, pairs, body):
    """sum over (a, s), a node of the element, s slot of its map"""
    it = c.it; n = len(it.facts); vs = []
    try:
        for _ in range(pairs):
            a, s = fresh('a', 'int'), fresh('s', 'int'); vs += [a, s]
            it.facts += [le(0, a), lt(a, e.n), le(0, s), lt(s, e.ml(a))]
        b = body(*vs)
    finally: del it.facts[n:]
    for k in reversed(range(pairs)):
        a, s = vs[2 * k], vs[2 * k + 1]
        b = Sum(a, ZERO, e.n, Sum(s, ZERO, e.ml(a), b))
    return b

def k_spec(c, e, p, q):
    def body(a, s, b, t):
        gi = e.gv(e.ev(a), e.mf(a, s)); gj = e.gv(e.ev(b), e.mf(b, t))
        return ind(eq(gi, p)) * ind(eq(gj, q)) * e.kv(e.ms(a, s), e.ms(b, t))
    return e.kb(p, q) + rng_sum(c, e, 2, body)
def d_spec(c, e, p):
    """contribution of the prescribed values to component p"""
    def body(a, s, b, t):
        gi = e.gv(e.ev(a), e.mf(a, s)); gj = e.gv(e.ev(b), e.mf(b, t))
        return ind(eq(gi, p)) * ind(eq(gj, -1)) * e.kv(e.ms(a, s), e.ms(b, t)) * e.uv(e.ev(b), e.mf(b, t))
    return -rng_sum(c, e, 2, body)
def f_spec(c, e, p):
    return rng_sum(c, e, 1, lambda a, s: ind(eq(e.gv(e.ev(a), e.mf(a, s)), p)) * e.fv(e.ms(a, s)))

def check(c, e, K, F, d, fe, u=None):
    it = c.it
    p, q = c.int('p'), c.int('q'); it.assume(And(le(0, p), lt(p, e.N), le(0, q), lt(q, e.N)))
    if K is not None: c.ensure_eq('matrix entry', bview(it.get(K).f['data'].b.el, (p, q)), k_spec(c, e, p, q))
    if F is not None:
        c.ensure_eq('vector component', aelem(it.get(F), p), aelem(e.F, p) + (d_spec(c, e, p) if d else ZERO) + (f_spec(c, e, p) if fe else ZERO))
        c.ensure_eq('vector length', it.get(F).n, e.N)
    if u is not None:
        a, b = c.int('node'), c.int('dof'); it.assume(And(le(0, a), lt(a, e.D), le(0, b), lt(b, e.gl(a))))
        c.ensure_eq('nodal values unchanged', bview(it.get(u).b.f['values'].el, (a, b)), e.uv(a, b))

def sig(c, n, first): return lambda f: len(c.it.params(f)) == n and c.it.params(f)[0]['type']['qualType'].startswith(first)

def run(R):
    def kfuFe(c):
        e = env(c); it = c.it; K, F, u = it.new_root(e.K, 'K'), it.new_root(e.F, 'F'), it.new_root(e.u, 'u')
        c.call('Assembling', [K, F, u, e.Ke, e.Fe, e.g, e.m, e.el], pick=lambda f: len(c.it.params(f)) == 8)
        check(c, e, K, F, True, True, u)
    R.contract('matrix and vector with element vector', TU, kfuFe, SM, contracts=SPARSE)
    def kfu(c):
        e = env(c); it = c.it; K, F, u = it.new_root(e.K, 'K'), it.new_root(e.F, 'F'), it.new_root(e.u, 'u')
        c.call('Assembling', [K, F, u, e.Ke, e.g, e.m, e.el], pick=lambda f: len(c.it.params(f)) == 7 and f['type']['qualType'].rstrip(')').endswith('std::vector<int> &'))
        check(c, e, K, F, True, False, u)
    R.contract('matrix and vector', TU, kfu, SM, contracts=SPARSE)
    def konly(c):
        e = env(c); it = c.it; K = it.new_root(e.K, 'K')
        c.call('Assembling', [K, e.Ke, e.g, e.m, e.el], pick=lambda f: len(c.it.params(f)) == 5 and 'LILCSR' in c.it.params(f)[0]['type']['qualType'])
        check(c, e, K, None, False, False)
    R.contract('matrix', TU, konly, SM, contracts=SPARSE)
    def fonly(c):
        e = env(c); it = c.it; F = it.new_root(e.F, 'F')
        c.call('Assembling', [F, e.Fe, e.g, e.m, e.el], pick=lambda f: len(c.it.params(f)) == 5 and 'LILCSR' not in c.it.params(f)[0]['type']['qualType'])
        check(c, e, None, F, False, True)
    R.contract('vector', TU, fonly, SM)
    def fu(c):
        e = env(c); it = c.it; F, u = it.new_root(e.F, 'F'), it.new_root(e.u, 'u')
        c.call('Assembling', [F, u, e.Ke, e.g, e.m, e.el], pick=lambda f: len(c.it.params(f)) == 6)
        check(c, e, None, F, True, False, u)
    R.contract('influence of prescribed values', TU, fu, SM)
    def neumann(c):
        e = env(c); it = c.it; F = it.new_root(e.F, 'F'); n = c.int('L', 0)
        f = it.sym_array(n, ('pair', ('pair', 'int', 'int'), 'double'), 'f')
        nd = lambda k: read('f.first.first', (P(k),), 'int'); df = lambda k: read('f.first.second', (P(k),), 'int'); vl = lambda k: read('f.second', (P(k),))
        it.axioms['f.first.first'] = lambda k: [le(0, nd(k)), lt(nd(k), e.D)]
        it.axioms['f.first.second'] = lambda k: [le(0, df(k)), lt(df(k), e.gl(nd(k)))]
        c.call('Assembling', [F, f, e.g], pick=lambda g: len(c.it.params(g)) == 3)
        p = c.int('p'); it.assume(And(le(0, p), lt(p, e.N)))
        k = fresh('k', 'int')
        c.ensure_eq('vector component', aelem(it.get(F), p), aelem(e.F, p) + Sum(k, ZERO, n, ind(eq(e.gv(nd(k), df(k)), p)) * vl(k)))
    R.contract('prescribed forces', TU, neumann, SM)
    def multi(c):
        e = env(c); it = c.it; K, F, u = it.new_root(e.K, 'K'), it.new_root(e.F, 'F'), it.new_root(e.u, 'u')
        nb = c.int('B', 1)
        els = it.sym_array(nb, ('vec', 'int'), 'els'); ms = it.sym_array(nb, ('vec', ('vec', ('pair', 'int', 'int'))), 'ms')
        R_ = lambda b, *i: read(b, tuple(P(x) for x in i), 'int')
        it.axioms['els.len'] = lambda b: [le(0, R_('els.len', b))]
        it.axioms['els.el'] = lambda b, a: [le(0, R_('els.el', b, a)), lt(R_('els.el', b, a), e.D)]
        it.axioms['ms.len'] = lambda b: [eq(R_('ms.len', b), R_('els.len', b))]
        it.axioms['ms.el.len'] = lambda b, a: [le(0, R_('ms.el.len', b, a)), eq(R_('ms.len', b), R_('els.len', b))]
        def fax(b, a, s):
            v = R_('ms.el.el.first', b, a, s); x = R_('els.el', b, a)
            return [le(0, v), lt(v, e.gl(x)), eq(read('u.size', (x,), 'int'), e.gl(x))]
        it.axioms['ms.el.el.first'] = fax
        it.axioms['ms.el.el.second'] = lambda b, a, s: [le(0, R_('ms.el.el.second', b, a, s)), lt(R_('ms.el.el.second', b, a, s), e.W)]
        c.call('Assembling', [K, F, u, e.Ke, e.g, ms, els], pick=lambda f: len(c.it.params(f)) == 7 and f['type']['qualType'].rstrip(')').endswith('std::vector<std::vector<int>> &'))
        p, q = c.int('p'), c.int('q'); it.assume(And(le(0, p), lt(p, e.N), le(0, q), lt(q, e.N)))
        def total(body):
            n = len(it.facts); v = []
            for _ in range(2):
                b, a, s = fresh('b', 'int'), fresh('a', 'int'), fresh('s', 'int'); v.append((b, a, s))
                it.facts += [le(0, b), lt(b, nb), le(0, a), lt(a, R_('els.len', b)), le(0, s), lt(s, R_('ms.el.len', b, a))]
            (b, a, s), (d, h, t) = v
            gi = e.gv(R_('els.el', b, a), R_('ms.el.el.first', b, a, s)); gj = e.gv(R_('els.el', d, h), R_('ms.el.el.first', d, h, t))
            r = body(gi, gj, e.kv(R_('ms.el.el.second', b, a, s), R_('ms.el.el.second', d, h, t)), e.uv(R_('els.el', d, h), R_('ms.el.el.first', d, h, t)))
            del it.facts[n:]
            for b, a, s in reversed(v): r = Sum(b, ZERO, nb, Sum(a, ZERO, R_('els.len', b), Sum(s, ZERO, R_('ms.el.len', b, a), r)))
            return r
        c.ensure_eq('matrix entry', bview(it.get(K).f['data'].b.el, (p, q)), e.kb(p, q) + total(lambda gi, gj, k, u_: ind(eq(gi, p)) * ind(eq(gj, q)) * k))
        c.ensure_eq('vector component', aelem(it.get(F), p), aelem(e.F, p) - total(lambda gi, gj, k, u_: ind(eq(gi, p)) * ind(eq(gj, -1)) * k * u_))
    R.contract('matrix and vector over several interpolations', TU, multi, SM, contracts=SPARSE, timeout=300)
    def disasm(c):
        e = env(c); it = c.it; u = it.new_root(e.u, 'u')
        it.qmode = True
        a0 = fresh('p', 'int'); it.assume(Forall((a0,), Implies(And(le(0, a0), lt(a0, e.D)), eq(read('u.size', (a0,), 'int'), e.gl(a0)))))
        it.axioms['g.len'] = lambda p: [le(0, read('g.len', (p,), 'int'))]
        x = it.sym_array(e.N, 'double', 'x')
        c.call('Disassembling', [u, x, e.g])
        a, b = c.int('node'), c.int('dof'); it.assume(And(le(0, a), lt(a, e.D), le(0, b), lt(b, e.gl(a))))
        n = len(it.facts); it.assume(ne(e.gv(a, b), -1))
        c.ensure_eq('free component receives its solution', bview(it.get(u).b.f['values'].el, (a, b)), aelem(x, e.gv(a, b)))
        del it.facts[n:]; it.assume(eq(e.gv(a, b), -1))
        c.ensure_eq('prescribed component keeps its value', bview(it.get(u).b.f['values'].el, (a, b)), e.uv(a, b))
    R.contract('distribution of the solution to the nodes', TU, disasm, SM)
    R.assumptions.append('assembly is verified against the contract of the sparse matrix (position -> number map), which C04 proves of LILCSR')
    runtime(R)
SM = []
def runtime(R):
    n = 60 if R.tier == 'quick' else 1500
    rc, out, err = R.driver('asm.cpp', [R.seed, n], flags=['-fsanitize=address,undefined'])
    if rc is None: R.violate('driver', 'build', err); return
    cases, open_ = parse_cases(out)
    for c in cases:
        R.cases += 1
        bad = check_case(c)
        if bad: R.violate('assembly ' + c['_name'], 'execution', bad, c); return
    if rc != 0: R.violate('assembly', 'execution', 'driver status %s: %s' % (rc, err[-600:]), open_ or {'seed': R.seed})

def check_case(c):
    ints = lambda k: [int(x) for x in c.get(k, [])]
    N, W = ints('dims'); g = []; t = ints('ntg'); k = 0
    while k < len(t): g.append(t[k + 1:k + 1 + t[k]]); k += 1 + t[k]
    slots = [(p, d, s, b) for p, d, s, b in zip(*[iter(ints('slots'))] * 4)]   # node, dof, element row, block
    Ke = np.array(c['Ke']).reshape(W, W); Fe = np.array(c['Fe']); F = np.array(c['F0']); K = np.array(c['K0']).reshape(N, N) if N else np.zeros((0, 0))
    u = []; k = 0
    for r in g: u.append(c['u'][k:k + len(r)]); k += len(r)
    dK, dD, dF = np.zeros((N, N)), np.zeros(N), np.zeros(N)
    for p, d, s, _ in slots:
        if g[p][d] < 0: continue
        dF[g[p][d]] += Fe[s]
        for p2, d2, s2, _ in slots:
            if g[p2][d2] >= 0: dK[g[p][d], g[p2][d2]] += Ke[s, s2]
            else: dD[g[p][d]] -= Ke[s, s2] * u[p2][d2]
    nm = c['_name']
    want = {'KFuFe': (K + dK, F + dD + dF), 'KFu': (K + dK, F + dD), 'multi': (K + dK, F + dD), 'K': (K + dK, None), 'F': (None, F + dF), 'Fu': (None, F + dD)}
    if nm in want:
        for key, w in zip(('K1', 'F1'), want[nm]):
            if w is None: continue
            r = np.array(c[key]).reshape(w.shape)
            if not np.allclose(r, w, rtol=1e-10, atol=1e-10): return '%s: %s instead of %s' % (key, r.tolist(), w.tolist())
    if nm == 'neumann':
        w = F.copy()
        for p, d, v in zip(*[iter(c['f'])] * 3):
            q = g[int(p)][int(d)]
            if q >= 0: w[q] += v
        if not np.allclose(w, c['F1'], rtol=1e-12, atol=1e-12): return 'vector %s instead of %s' % (c['F1'], w.tolist())
    if nm == 'disassemble':
        w = []
        for r, ur in zip(g, u): w += [c['F0'][q] if q >= 0 else x for q, x in zip(r, ur)]
        if not np.allclose(w, c['u1'], rtol=0, atol=0): return 'nodal values %s instead of %s' % (c['u1'], w)
    elif 'u1' in c and c['u1'] != c['u']: return 'nodal values changed'
    return None
