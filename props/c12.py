from vc import *
import itertools
from math import factorial as fa
from c11 import mang
TITLE = 'quadrature'
TU = 'sf.cpp'
BOX = {'Gauss1Line': (1, 1, 1), 'Gauss2Line': (1, 2, 3), 'Gauss1Square': (2, 1, 1), 'Gauss4Square': (2, 4, 3), 'Gauss9Square': (2, 9, 5), 'Gauss8Cubic': (3, 8, 3), 'Gauss27Cubic': (3, 27, 5),
       'NewtonCotes1Line': (1, 1, 1), 'NewtonCotes3Line': (1, 3, 3), 'NewtonCotes5Line': (1, 5, 5), 'NewtonCotes7Line': (1, 7, 7)}
SIM = {'Gauss1Triangle': (2, 1, 1), 'Gauss3Triangle': (2, 3, 2), 'Gauss1Tetrahedron': (3, 1, 1)}

def ensure_close(c, label, p, q):
    """equality of two ground terms: exact, or up to the rounding of literals"""
    d = P(p) - P(q)
    if d.d and not PV.is_zero(c.it, d):
        v, mag = evalf(d, {}, c.rnd)
        if v == v:
            if abs(v) <= 4e-15 * max(mag, 1.0): c.ok(label, True, 'ground evaluation', '')
            else: c.ok(label, False, 'ground evaluation', 'difference %.17g' % v)
            return
    c.ensure_eq(label, p, q)

def monos(d, deg, total):
    for e in itertools.product(range(deg + 1), repeat=d):
        if not total or sum(e) <= deg: yield e
def integral(e, box):
    if box:
        r = Q(1)
        for k in e: r *= Q(2, k + 1) if k % 2 == 0 else 0
        return r
    t = Q(1)
    for k in e: t *= fa(k)
    return t / fa(sum(e) + len(e))

def run(R):
    for name, (d, n, deg) in list(BOX.items()) + list(SIM.items()):
        box = name in BOX; pk = mang(name)
        def body(c, name=name, d=d, n=n, deg=deg, box=box, pk=pk):
            c.ensure_eq('number of points', c.call('qCount', [], pick=pk), n)
            pts = c.call('qPoints', [], pick=pk); ws = c.call('qWeights', [], pick=pk)
            R.functions.add(name)
            c.ensure_eq('size of the point table', pts.n, n); c.ensure_eq('size of the weight table', ws.n, n)
            X = []; W = []
            for g in range(n):
                p = aelem(pts, P(g)); w = aelem(ws, P(g))
                c.ensure_eq('point %d dimension' % g, p.f['size'], d); c.ensure_eq('weight %d dimension' % g, w.n, d)
                X.append([vget(p, k) for k in range(d)]); t = ONE
                for k in range(d): t = t * aelem(w, P(k))
                W.append(t)
            for e in monos(d, deg, not box):
                s = ZERO
                for g in range(n):
                    t = W[g]
                    for k in range(d):
                        for _ in range(e[k]): t = t * X[g][k]
                    s = s + t
                ensure_close(c, 'integrates r^%s exactly' % (e,), s, P(integral(e, box)))
            for g in range(n):
                v = [evalf(x, {}, c.rnd)[0] for x in X[g]]; w = evalf(W[g], {}, c.rnd)[0]
                ins = all(abs(x) <= 1 + 1e-12 for x in v) if box else all(x >= -1e-12 for x in v) and sum(v) <= 1 + 1e-12
                c.ok('point %d lies in the reference element' % g, bool(ins), 'ground evaluation'); c.ok('weight %d positive' % g, w > 0, 'ground evaluation')
        R.contract(name, TU, body, [{}], sym=False)
    rc, out, err = R.driver('quad.cpp')
    if rc is None: return R.violate('build', 'build', 'driver no longer compiles: ' + err[:800])
    cases, cur = parse_cases(out)
    for c in cases:
        R.cases += 1
        d, n, deg = {**BOX, **SIM}[c['_name']]; box = c['_name'] in BOX
        x = c['x']; w = c['w']
        if int(c['N'][0]) != n or len(w) != n * d or len(x) != n * d: R.violate(c['_name'], 'execution', 'table sizes', inp=c); continue
        for e in monos(d, deg, not box):
            s = 0.0
            for g in range(n):
                t = 1.0
                for k in range(d): t *= w[g * d + k] * x[g * d + k] ** e[k]
                s += t
            if abs(s - float(integral(e, box))) > 1e-12: R.violate(c['_name'], 'execution', 'integral of r^%s is %.17g, should be %s' % (e, s, integral(e, box)), inp={'rule': c['_name'], 'exponents': e}); break
    if rc != 0: R.violate('execution', 'crash', 'driver exited with %s' % rc, inp={})
