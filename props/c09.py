from vc import *
import numpy as np
TITLE = 'degree of freedom numbering'
TU = 'asm.cpp'
VX = 'Vector<double>'
G = lambda p, d: read('g.el', (P(p), P(d)), 'int')
GL = lambda p: read('g.len', (P(p),), 'int')

def table(c):
    it = c.it; it.qmode = True
    D = c.int('D', 0)
    it.axioms['g.len'] = lambda p: [le(0, GL(p))]
    return D, it.sym_array(D, ('vec', 'int'), 'g')
def fixed(c, D):
    it = c.it; n = c.int('L', 0)
    f = it.sym_array(n, ('pair', ('pair', 'int', 'int'), 'double'), 'f')
    nd = lambda k: read('f.first.first', (P(k),), 'int'); df = lambda k: read('f.first.second', (P(k),), 'int'); vl = lambda k: read('f.second', (P(k),))
    it.axioms['f.first.first'] = lambda k: [le(0, nd(k)), lt(nd(k), D)]
    it.axioms['f.first.second'] = lambda k: [le(0, df(k)), lt(df(k), GL(nd(k))), eq(read('u.size', (nd(k),), 'int'), GL(nd(k)))]
    return n, f, nd, df, vl

def run(R):
    def renum(c):
        it = c.it; D, g = table(c); G_ = it.new_root(g, 'g')
        r = c.call('Renumbering', [G_])
        i, j, k, l = [fresh(x, 'int') for x in 'ijkl']
        tot = Sum(k, ZERO, D, Sum(l, ZERO, GL(k), ind(ne(G(k, l), -1))))
        c.ensure_eq('returns the number of free degrees of freedom', r, tot)
        p, d = c.int('node'), c.int('dof'); it.assume(And(le(0, p), lt(p, D), le(0, d), lt(d, GL(p))))
        new = aelem(aelem(it.get(G_), p), d)
        before = Sum(k, ZERO, p, Sum(l, ZERO, GL(k), ind(ne(G(k, l), -1)))) + Sum(l, ZERO, d, ind(ne(G(p, l), -1)))
        n = len(it.facts); it.assume(ne(G(p, d), -1))
        c.ensure_eq('a free degree of freedom gets the number of free ones before it', new, before); del it.facts[n:]
        it.assume(eq(G(p, d), -1)); c.ensure_eq('a fixed degree of freedom stays fixed', new, -1); del it.facts[n:]
        c.ensure_eq('nodes', it.get(G_).n, D); c.ensure_eq('degrees of freedom of a node', aelem(it.get(G_), p).n, GL(p))
    R.contract('numbering', TU, renum, [])
    def post(c, G_, u, D, n, nd, df, vl):
        it = c.it
        p, d = c.int('node'), c.int('dof'); it.assume(And(le(0, p), lt(p, D), le(0, d), lt(d, GL(p))))
        new = aelem(aelem(it.get(G_), p), d); k = fresh('k', 'int'); x = c.int('x'); f0 = len(it.facts)
        it.facts += [le(0, x), lt(x, n), eq(nd(x), p), eq(df(x), d)]
        c.ensure_eq('a listed degree of freedom is fixed', new, -1)
        it.facts += [Forall((k,), Implies(And(lt(x, k), lt(k, n)), Or(ne(nd(k), p), ne(df(k), d))))]
        if u is not None: c.ensure_eq('it takes the (last) prescribed value', bview(it.get(u).b.f['values'].el, (p, d)), vl(x))
        del it.facts[f0:]
        it.facts += [Forall((k,), Implies(And(le(0, k), lt(k, n)), Or(ne(nd(k), p), ne(df(k), d))))]
        c.ensure_eq('every other degree of freedom keeps its number', new, G(p, d))
        if u is not None: c.ensure_eq('and its value', bview(it.get(u).b.f['values'].el, (p, d)), read('u.values.el', (p, d)))
        del it.facts[f0:]
    def dir2(c):
        it = c.it; D, g = table(c); n, f, nd, df, vl = fixed(c, D)
        it.axioms['u.size'] = lambda p: [eq(read('u.size', (p,), 'int'), read('u.values.len', (p,), 'int'))]
        G_, u = it.new_root(g, 'g'), it.new_root(it.sym_array(D, ('cls', VX), 'u'), 'u')
        c.call('SetDirichlet', [u, G_, f], pick=lambda h: len(it.params(h)) == 3)
        post(c, G_, u, D, n, nd, df, vl)
    R.contract('prescribed values', TU, dir2, [])
    def dir1(c):
        it = c.it; D, g = table(c); n, f, nd, df, vl = fixed(c, D)
        G_ = it.new_root(g, 'g')
        c.call('SetDirichlet', [G_, f], pick=lambda h: len(it.params(h)) == 2)
        post(c, G_, None, D, n, nd, df, vl)
    R.contract('prescribed degrees of freedom', TU, dir1, [])
    def rem(c):
        it = c.it; D, g = table(c); G_ = it.new_root(g, 'g')
        c.call('RemoveBoundaryConditions', [G_])
        p, d = c.int('node'), c.int('dof'); it.assume(And(le(0, p), lt(p, D), le(0, d), lt(d, GL(p))))
        c.ensure('every degree of freedom becomes free', ne(aelem(aelem(it.get(G_), p), d), -1))
        c.ensure_eq('degrees of freedom of a node', aelem(it.get(G_), p).n, GL(p)); c.ensure_eq('nodes', it.get(G_).n, D)
    R.contract('removal of boundary conditions', TU, rem, [])
    def periodic(c):
        it = c.it; dofs, fixedpat, pairs = PER[c.sizes['k']]
        g0 = [[-1 if (p, d) in fixedpat else 0 for d in range(nd)] for p, nd in enumerate(dofs)]
        G_ = it.new_root(ArrC([ArrC([P(x) for x in r], 'int') for r in g0], ('vec', 'int')), 'g')
        r = c.call('SetPeriodic', [G_, ArrC([Obj('pair', {'first': P(a), 'second': P(b)}) for a, b in pairs], ('pair', 'int', 'int'))])
        slave = {b: a for a, b in pairs}; k = 0; want = [list(x) for x in g0]
        for p, row in enumerate(g0):
            for d, x in enumerate(row):
                if p in slave: continue
                if x != -1: want[p][d] = k; k += 1
        for b, a in slave.items(): want[b] = list(want[a])
        c.ensure_eq('number of unknowns', r, k)
        for p, row in enumerate(want):
            for d, x in enumerate(row): c.ensure_eq('node %d degree of freedom %d' % (p, d), aelem(aelem(it.get(G_), P(p)), P(d)), x)
    def periodic_any(c):
        # any mesh, any list of pairs: no node is the second of two pairs or both first and second; both nodes of a pair carry the same number of dofs
        it = c.it; D, g = table(c); n = c.int('L', 0)
        f = it.sym_array(n, ('pair', 'int', 'int'), 'f')
        a = lambda k: read('f.first', (P(k),), 'int'); b = lambda k: read('f.second', (P(k),), 'int')
        # the first nodes are distinct from the second ones, and the second ones from each other: a mark and an inverse as ghost functions
        mark = lambda p: read('mark', (p,), 'int'); inv = lambda p: read('inv', (p,), 'int')
        it.axioms['f.first'] = lambda k: [le(0, a(k)), lt(a(k), D), eq(mark(a(k)), 0)]
        it.axioms['mark'] = lambda p: [Implies(eq(mark(p), 1), And(le(0, inv(p)), lt(inv(p), n), eq(b(inv(p)), P(p))))]
        it.axioms['f.second'] = lambda k: [le(0, b(k)), lt(b(k), D), eq(mark(b(k)), 1), eq(inv(b(k)), P(k)), eq(GL(a(k)), GL(b(k)))]
        G_ = it.new_root(g, 'g')
        r = c.call('SetPeriodic', [G_, f])
        at = lambda p, d: aelem(aelem(it.get(G_), p), d); k, l = fresh('k', 'int'), fresh('l', 'int'); f0 = len(it.facts)
        free = lambda p, d: ind(And(ne(mark(p), 1), ne(G(p, d), -1)))
        tot = Sum(k, ZERO, D, Sum(l, ZERO, GL(k), free(k, l)))
        c.ensure_eq('number of unknowns', r, tot)
        x, d = c.int('x'), c.int('dof'); it.assume(And(le(0, x), lt(x, n), le(0, d), lt(d, GL(b(x)))))
        c.ensure_eq('both nodes of a pair share the number', at(b(x), d), at(a(x), d)); del it.facts[f0:]
        p = c.int('node'); it.assume(And(le(0, p), lt(p, D), ne(mark(p), 1), le(0, d), lt(d, GL(p)))); f1 = len(it.facts)
        it.assume(ne(G(p, d), -1))
        c.ensure_eq('a free degree of freedom gets the number of free ones before it', at(p, d), Sum(k, ZERO, p, Sum(l, ZERO, GL(k), free(k, l))) + Sum(l, ZERO, d, free(p, l))); del it.facts[f1:]
        it.assume(eq(G(p, d), -1)); c.ensure_eq('a fixed degree of freedom stays fixed', at(p, d), -1)
    R.contract('periodic pairs', TU, periodic_any, [])
    R.contract('periodic pairs (listed meshes)', TU, periodic, [dict(k=k) for k in range(len(PER))], sym=False)
    R.bounded.append('periodic pairs, besides the proof for all sizes: %d listed meshes of 1 to 6 nodes, plus random histories on the compiled code' % len(PER))
    runtime(R)
PER = [([1], set(), []), ([2, 2], set(), [(0, 1)]), ([2, 2], set(), [(1, 0)]), ([2, 2, 2], {(1, 0)}, [(0, 2)]), ([2, 2, 2], {(0, 1)}, [(0, 2), (0, 1)]),
       ([1, 1, 1, 1], set(), [(0, 3), (1, 2)]), ([3, 3, 3, 3], {(3, 0), (1, 1)}, [(2, 0), (1, 3)]), ([2, 1, 2, 1, 2], {(2, 0)}, [(1, 3), (2, 4)]), ([2] * 6, {(5, 1), (0, 0)}, [(0, 5), (1, 4), (0, 3)]),
       ([1, 3, 3], set(), [(1, 2)]), ([1, 2, 2, 2], {(1, 1)}, [(1, 3)]), ([3, 1, 2, 1, 2], {(0, 2)}, [(3, 1), (4, 2)])]

def runtime(R):
    n = 60 if R.tier == 'quick' else 2000
    rc, out, err = R.driver('dof.cpp', [R.seed, n], flags=['-fsanitize=address,undefined'])
    if rc is None: R.violate('driver', 'build', err); return
    cases, open_ = parse_cases(out)
    for c in cases:
        R.cases += 1
        bad = check_case(c)
        if bad: R.violate('numbering ' + c['_name'], 'execution', bad, c); return
    if rc != 0: R.violate('numbering', 'execution', 'driver status %s: %s' % (rc, err[-600:]), open_ or {'seed': R.seed})

def check_case(c):
    def tab(key):
        t = [int(x) for x in c[key]]; r = []; k = 0
        while k < len(t): r.append(t[k + 1:k + 1 + t[k]]); k += 1 + t[k]
        return r
    g, h = tab('g0'), tab('g1'); nm = c['_name']; w = [list(r) for r in g]
    if nm == 'renumber' or nm == 'periodic':
        pairs = [(int(a), int(b)) for a, b in zip(*[iter(c.get('pairs', []))] * 2)]; slave = {b: a for a, b in pairs}; k = 0
        for p, r in enumerate(w):
            if p in slave: continue
            for d in range(len(r)):
                if r[d] != -1: r[d] = k; k += 1
        for b, a in slave.items(): w[b] = list(w[a])
        if int(c['ret'][0]) != k: return 'returned %d unknowns instead of %d' % (c['ret'][0], k)
    elif nm in ('dirichlet', 'dirichlet2'):
        u = []; k = 0
        for r in g: u.append(c['u0'][k:k + len(r)]); k += len(r)
        for p, d, v in zip(*[iter(c['f'])] * 3): w[int(p)][int(d)] = -1; u[int(p)][int(d)] = v
        if nm == 'dirichlet' and sum(u, []) != list(c['u1']): return 'values %s instead of %s' % (c['u1'], sum(u, []))
    elif nm == 'remove':
        return None if all(x != -1 for r in h for x in r) and [len(r) for r in h] == [len(r) for r in g] else 'a degree of freedom is still fixed: %s' % h
    return None if h == w else 'table %s instead of %s' % (h, w)
