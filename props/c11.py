from vc import *
import numpy as np
TITLE = 'shape functions'
TU = 'sf.cpp'
SF = {'ShapeFunction2Line': (1, [(-1,), (1,)]), 'ShapeFunction3Line': (1, [(-1,), (1,), (0,)]),
      'ShapeFunction3Triangle': (2, [(1, 0), (0, 1), (0, 0)]),
      'ShapeFunction6Triangle': (2, [(1, 0), (0, 1), (0, 0), (Q(1, 2), Q(1, 2)), (0, Q(1, 2)), (Q(1, 2), 0)]),
      'ShapeFunction4Square': (2, [(-1, -1), (1, -1), (1, 1), (-1, 1)]),
      'ShapeFunction8Square': (2, [(-1, -1), (1, -1), (1, 1), (-1, 1), (0, -1), (1, 0), (0, 1), (-1, 0)]),
      'ShapeFunction4Tetrahedron': (3, [(1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, 0)]),
      'ShapeFunction8Cubic': (3, [(-1, -1, -1), (1, -1, -1), (1, 1, -1), (-1, 1, -1), (-1, -1, 1), (1, -1, 1), (1, 1, 1), (-1, 1, 1)]),
      'ShapeFunction20Cubic': (3, [(-1, -1, -1), (1, -1, -1), (1, 1, -1), (-1, 1, -1), (-1, -1, 1), (1, -1, 1), (1, 1, 1), (-1, 1, 1),
                                   (0, -1, -1), (1, 0, -1), (0, 1, -1), (-1, 0, -1), (0, -1, 1), (1, 0, 1), (0, 1, 1), (-1, 0, 1),
                                   (-1, -1, 0), (1, -1, 0), (1, 1, 0), (-1, 1, 0)])}
def vec(vals): return Obj('Vector<double>', {'size': P(len(vals)), 'values': ArrC([P(v) for v in vals], 'double')})
def mang(*names): return lambda f: all('%d%s' % (len(n), n) in f.get('mangledName', '') for n in names)

def run(R):
    for S, (d, ref) in SF.items():
        n = len(ref); pk = mang(S)
        def tables(c, S=S, d=d, ref=ref, n=n, pk=pk):
            c.ensure_eq('dimension', c.call('sfDim', [], pick=pk), d)
            c.ensure_eq('number of functions', c.call('sfCount', [], pick=pk), n)
            pts = c.call('sfPoints', [], pick=pk)
            c.ensure_eq('one point per function', pts.n, n)
            for i in range(min(n, int(pts.n.const()))):
                p = aelem(pts, P(i))
                c.ensure_eq('point %d size' % i, p.f['size'], d)
                for k in range(d): c.ensure_eq('node %d coordinate %d' % (i, k), vget(p, k), ref[i][k])
        R.contract(S + ' node table', TU, tables, [{}], sym=False)
        def at_nodes(c, S=S, d=d, ref=ref, n=n, pk=pk):
            for j in range(n):
                N = c.call('sfN', [vec(ref[j])], pick=pk)
                for i in range(n): c.ensure_eq('N_%d at node %d' % (i, j), vget(N, i), 1 if i == j else 0)
        R.contract(S + ' interpolates', TU, at_nodes, [{}], sym=False)
        def fields(c, S=S, d=d, ref=ref, n=n, pk=pk):
            r = [var('r%d' % k) for k in range(d)]
            N = c.call('sfN', [vec(r)], pick=pk)
            D = c.call('sfdN', [vec(r)], pick=pk)
            R.functions.add(S + '::N'); R.functions.add(S + '::dNdr')
            c.ensure_eq('N size', N.f['size'], n); c.ensure_eq('dNdr rows', D.f['row'], d); c.ensure_eq('dNdr columns', D.f['col'], n)
            tot = ZERO
            for i in range(n): tot = tot + vget(N, i)
            c.ensure_eq('partition of unity', tot, 1)
            for k in range(d):
                s = ZERO
                for i in range(n): s = s + vget(N, i) * P(ref[i][k])
                c.ensure_eq('reproduces coordinate %d' % k, s, r[k])
                for i in range(n): c.ensure_eq('dN_%d/dr_%d' % (i, k), mget(D, k, i), diff(vget(N, i), r[k].as_atom()))
        R.contract(S + ' values and derivatives', TU, fields, [{}], sym=False)
    replay(R)

def replay(R):
    rc, out, err = R.driver('sf.cpp', [R.seed, 200 if R.tier == 'quick' else 3000])
    if rc is None: return R.violate('build', 'build', 'the shape function driver no longer compiles: ' + err[:800])
    cases, cur = parse_cases(out)
    if rc != 0: return R.violate('execution', 'crash', 'driver exited with %s in %s' % (rc, cur), inp=cur or {})
    for c in cases:
        S = c['_name']; d, ref = SF[S]; n = len(ref); R.cases += 1
        r = np.array(c['r']); N = np.array(c['N']); D = np.array(c['D']).reshape(d, -1); F = np.array(c['FD']).reshape(d, -1)
        bad = None
        if len(N) != n or D.shape[1] != n: bad = 'sizes'
        elif abs(N.sum() - 1) > 1e-9: bad = 'partition of unity: sum = %g' % N.sum()
        elif np.abs(np.array([[float(x) for x in p] for p in ref]).T @ N - r).max() > 1e-9: bad = 'does not reproduce coordinates'
        elif np.abs(D - F).max() > 1e-5: bad = 'derivative differs from finite difference by %g' % np.abs(D - F).max()
        elif int(c['node'][0]) >= 0 and np.abs(N - np.eye(n)[int(c['node'][0])]).max() > 1e-9: bad = 'not the unit value at node %d' % int(c['node'][0])
        if bad: return R.violate(S, 'execution', bad, inp={'function': S, 'r': list(r)})
