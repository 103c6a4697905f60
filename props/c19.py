from vc import *
import numpy as np, loops, pit, smt
from c05 import Facts, settle
TITLE = 'Optimality criteria update'
TU = 'oc.cpp'
OC = 'OC<double>'

def canon(it, e, specs):
    """powers whose arguments are identically those of a specified power"""
    m = {}
    for a in smt._allatoms(e):
        if a.kind == 'fn' and a.a[0] == 'pow':
            for s in specs:
                if s != a and all(x == y or pit.identically_zero(x - y) for x, y in zip(a.a[1], s.a[1])): m[a] = atom_poly(s); break
    return subst(e, m) if m else e
class Bisect:
    """every step evaluates the update at the midpoint of the bracket and keeps the half selected by the constraint"""
    def __init__(self, c, n, par, i, bounds): self.c = c; self.n = n; self.p = par; self.i = i; self.bounds = bounds; self.found = None; self.calls = []
    def clip(self, lam, bd):
        p = self.p; i = self.i; x, df, dg = read('x', (i,)), read('df', (i,)), read('dg', (i,))
        raw = fn('pow', (-df * T.inv(dg * lam), p['iota'])) * x; lo, hi = bd(i)
        return raw, lo, hi, ite(lt(raw, lo), lo, ite(lt(hi, raw), hi, raw))
    def scalars(self, L): return [k for k in L['open'] if isinstance(L['H'][k], Poly) and L['H'][k].sort() != 'int']
    def candidates(self, it, L):
        out = []; re_ = self.scalars(L)
        for v in re_:
            out += [lambda g, k, v=v: le(self.p['l0'], g(v)), lambda g, k, v=v: le(g(v), self.p['l1'])]
            out += [lambda g, k, v=v, w=w: le(g(v), g(w)) for w in re_ if w != v]
        return out
    def same(self, it, e, lam, bd):
        """element i of an array is the clipped update at lam"""
        raw, lo, hi, spec = self.clip(lam, bd)
        e = canon(it, e, [a for a in smt._allatoms(raw) if a.kind == 'fn' and a.a[0] == 'pow'])
        if e == spec: return True
        for f, want in ((lt(raw, lo), lo), (And(le(lo, raw), lt(hi, raw)), hi), (And(le(lo, raw), le(raw, hi)), raw)):
            with Facts(it, f):
                d = canon(it, settle(it, e), [a for a in smt._allatoms(raw) if a.kind == 'fn' and a.a[0] == 'pow'])
                if d != want and it.prove(eq(d, want)) != 'proved': return False
        return True
    def __call__(self, it, L):
        re_ = self.scalars(L); arrs = [k for k in L['open'] if isinstance(L['H'][k], LeafArr)]
        if self.found or len(re_) < 2 or not arrs or any(r['post'] is None for r in L['runs']): return
        comp = L['comp']; i = self.i
        for bname, bd in self.bounds:
            for X in arrs:
                for lo in re_:
                    for hi in re_:
                        if lo != hi and all(self.step(it, r, comp, lo, hi, X, bd) for r in L['runs']):
                            self.found = (lo, hi, X); self.bd = bd; self.bname = bname
                            if it.record: it.obls.append(Obl('the vector is the clipped update at the midpoint and the constraint there selects the half of the bracket', True, it.loc(L['node']), bname, 'inductive invariant'))
                            self.g = fresh('g')      # the constraint at the last midpoint
                            def facts(s, k):
                                x = scal(comp(s, X).read((i,))); self.lo, self.hi = a, b = comp(s, lo), comp(s, hi)
                                return [Or(And(eq(x, self.clip(a, bd)[3]), lt(0, self.g)), And(eq(x, self.clip(b, bd)[3]), le(self.g, 0)))]
                            return facts
        if it.record: it.obls.append(Obl('each step of the bisection evaluates the clipped update at the midpoint and keeps the half that the constraint selects', False, it.loc(L['node']), 'not shown', 'unproved'))
    def step(self, it, run, comp, lo, hi, X, bd):
        a, b, a2, b2 = comp(run['head'], lo), comp(run['head'], hi), comp(run['post'], lo), comp(run['post'], hi); i = self.i
        if not all(isinstance(v, Poly) for v in (a, b, a2, b2)): return False
        mid = (a + b) * P(Q(1, 2))
        with Facts(it, *([le(1, run['k'])] if not run['first'] else []), run['cond'], *run['facts']):
            gs = [x for e in (a2, b2) for x in smt._allatoms(e) if x.kind == 'fn' and x.a[0] == 'constraint']
            if not gs: return False
            g = gs[0]; vec = self.calls[int(g.a[1][0].const())]; G_ = atom_poly(g)
            if it.prove(Or(And(lt(0, G_), eq(a2, mid), eq(b2, b)), And(le(G_, 0), eq(a2, a), eq(b2, mid)))) != 'proved': return False
            return all(self.same(it, settle(it, scal(e)), mid, bd) for e in (comp(run['post'], X).read((i,)), aelem(vec, i)))
def setup(c):
    it = c.it; n = c.int('n', 1); par = {k: c.real(k) for k in ('iota', 'l0', 'l1', 'leps', 'mv')}
    o = c.make(OC, [n, par['iota'], par['l0'], par['l1'], par['leps'], par['mv'], c.arr(n, 'double', 'xmin'), c.arr(n, 'double', 'xmax')])
    return n, par, o
def update(c):
    it = c.it; n, p, o = setup(c)
    i = fresh('i', 'int'); x = read('x', (i,))
    it.assume(And(le(0, i), lt(i, n), le(0, p['l0']), lt(p['l0'], p['l1']), lt(0, p['leps']), le(0, p['mv']), le(p['mv'], 1), le(0, x), le(x, 1)))
    it.assume(lt(p['leps'], (p['l1'] - p['l0']) * T.inv(p['l1'] + p['l0'])))      # the first bracket is wide
    mx, mn = (lambda a, b: ite(lt(a, b), b, a)), (lambda a, b: ite(lt(b, a), b, a))
    mx = lambda a, b: fn('max', (a, b)); mn = lambda a, b: fn('min', (a, b))
    rng = lambda l, u: (lambda i: (mx(l(i), (1 - p['mv']) * read('x', (i,))), mn(u(i), (1 + p['mv']) * read('x', (i,)))))
    h = Bisect(c, n, p, i, [('bounds of the variables', rng(lambda i: read('xmin', (i,)), lambda i: read('xmax', (i,)))), ('bounds 0 and 1 (known finding)', rng(lambda i: ZERO, lambda i: ONE))])
    it.inv = h
    def g(it_, f, this, a): h.calls.append(it.get(a[0])); return fn('constraint', (P(len(h.calls) - 1),))
    it.contracts['Constraint::operator()'] = g
    xl = it.new_root(c.arr(n, 'double', 'x'), 'x'); f = c.real('f')
    c.call(OC + '::UpdateVariables', [xl, f, c.arr(n, 'double', 'df'), c.real('g0'), c.arr(n, 'double', 'dg'), Obj('Constraint', {})], this=o)
    r = it.get(xl)
    if not h.found: raise Unsupported('no bisection loop was found')
    c.ensure_eq('length', r.n, n)
    ri = settle(it, scal(aelem(r, i)))
    bd = h.bd
    c.ensure('the new variables are the clipped update at one multiplier, an end of the last bracket, on the side that the constraint tells', Or(And(eq(ri, h.clip(h.lo, bd)[3]), lt(0, h.g)), And(eq(ri, h.clip(h.hi, bd)[3]), le(h.g, 0))))
    c.ensure('the last bracket is narrow', le((h.hi - h.lo) * T.inv(h.hi + h.lo), p['leps']))
    c.ensure('the last bracket lies in the first', And(le(p['l0'], h.lo), le(h.lo, h.hi), le(h.hi, p['l1'])))
    lo, hi = bd(i)
    with Facts(it, le(lo, hi)): c.ensure('inside the move limits and bounds', And(le(lo, ri), le(ri, hi)))
    c.ensure_eq('objective of the step is remembered', it.get(o).f['previousvalue'], f)
    c.ensure_eq('steps are counted', it.get(o).f['k'], P(1))
def convergence(c):
    it = c.it; n, p, o = setup(c); prev, f, e = c.real('prev'), c.real('f'), c.real('e')
    ob = it.get(o); it.set(o, Obj(ob.cls, {**ob.f, 'previousvalue': prev, 'epsvalue': e}))
    it.assume(lt(0, e)); it.assume(Not(eq(f + prev, 0)))
    r = to_formula(c.call(OC + '::IsConvergence', [f], this=o))
    ab = lambda x: ite(lt(x, 0), -x, x)
    s = ab(f + prev)
    c.ensure('convergence is a relative change below the tolerance', And(Implies(r, lt(ab(f - prev), e * s)), Implies(lt(ab(f - prev), e * s), r)))

def run(R):
    R.contract('update', TU, update, [], timeout=100)
    R.contract('convergence', TU, convergence, [])
    R.assumptions += ['the constraint is a caller\'s function object, represented by a contract (any value)', 'first bracket wider than its tolerance, multiplier range non-negative, move limit at most one; termination of the bisection is not proved (the bracket halves in every step)', 'real arithmetic']
    runtime(R)

def runtime(R):
    n = 300 if R.tier == 'quick' else 20000
    rc, out, err = R.driver('oc.cpp', [R.seed, n], flags=['-fsanitize=address,undefined'])
    if rc is None: R.violate('driver', 'build', err); return
    cases, open_ = parse_cases(out); kf = None
    for c in cases:
        R.cases += 1
        for x, r in (('x', 'xk'), ('xk', 'xk2')):
            bad = check_step(c, np.array(c[x]), np.array(c[r]), np.array(c['xmin']), np.array(c['xmax']))
            if bad:
                n_ = len(c['x'])
                if any(k.get('id') == 'oc-bounds' for k in R.kf) and not check_step(c, np.array(c[x]), np.array(c[r]), np.zeros(n_), np.ones(n_)): kf = kf or c; continue
                R.violate('optimality criteria update', 'execution', bad, dict(c)); return
        f, f2 = c['f']
        for nm, p, v in (('conv0', 0.0, f), ('conv', f, f2), ('conv2', f2, f)):
            q = abs(v - p) / abs(v + p) if v + p else None
            if q is not None and abs(q - 1e-5) > 1e-9 and bool(c[nm][0]) != (q < 1e-5): R.violate('convergence test', 'execution', 'objective %.17g after %.17g: convergence reported %d' % (v, p, c[nm][0]), dict(c)); return
    if kf: R.known.append([k for k in R.kf if k.get('id') == 'oc-bounds'][0]['what'])
    if rc != 0: R.violate('optimality criteria update', 'execution', 'driver status %s: %s' % (rc, err[-600:]), open_ or {'seed': R.seed})
def check_step(c, x, y, xmin, xmax):
    iota, l0, l1, leps, mv, V = c['par']; df, dg = np.array(c['df']), np.array(c['dg'])
    if len(y) != len(x): return 'length %d' % len(y)
    lo, hi = np.maximum(xmin, (1 - mv) * x), np.minimum(xmax, (1 + mv) * x)
    def at(l): r = (-df / (dg * l)) ** iota * x; return np.where(r < lo, lo, np.where(r > hi, hi, r))
    a, b = l0, l1
    for _ in range(200):
        m = (a + b) / 2
        if dg @ at(m) > V: a = m
        else: b = m
    up, dn = at(max(b * (1 - 2.5 * leps), 1e-300)), at(b * (1 + 2.5 * leps)); t = 1e-9
    for i in range(len(x)):
        if not dn[i] - t <= y[i] <= up[i] + t: return 'variable %d is %.12g, the update at the multiplier %.8g is %.12g' % (i, y[i], b, at(b)[i])
    inner = [-df[i] / dg[i] * (x[i] / y[i]) ** (1 / iota) for i in range(len(x)) if lo[i] + 1e-6 < y[i] < hi[i] - 1e-6]
    if inner and max(inner) - min(inner) > 1e-6 * max(inner): return 'the variables between their bounds belong to different multipliers %s' % inner
    return None
