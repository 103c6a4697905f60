"""Invariants of the Krylov solvers, over all sizes, matrices, right hand sides and iterations.
Vectors are symbolic arrays; the product with the matrix and the preconditioner are linear operators (contracts of their callees):
the image of the base array v is the base array 'A|v'."""
from vc import *
import loops

class Space:
    def __init__(self, c, sym=True):
        self.c = c; self.it = c.it; self.n = c.int('n', 1); self.i = None
        self.table = {}        # (op, base) -> expression in a placeholder index
        self.ph = var('i?', 'int')
    def vec(self, name): return self.it.sym_array(self.n, 'double', name)
    def matrix(self, name='A'):
        it, n = self.it, self.n; nz = self.c.int(name + '.nnz', 0)
        return it.new_root(Obj('CSR<double>', {'ROWS': n, 'COLS': n, 'indptr': it.sym_array(n + 1, 'int', name + '.ip'), 'indices': it.sym_array(nz, 'int', name + '.ix'), 'data': it.sym_array(nz, 'double', name + '.da')}), name)
    def at(self, v, i):
        """element i of an array value"""
        it = self.it; n = len(it.facts); it.facts += [le(0, i), lt(i, self.n)]
        try: return self.settle(scal(aelem(v, i)), i)
        finally: del it.facts[n:]
    def settle(self, e, i):
        """range indicators decided by the bounds of the index"""
        m = {}
        for a in e.atoms():
            if a.kind == 'ind' and i.as_atom() in a.fv:
                d = self.it.decide(a.a[0])
                if d is not None: m[a] = ONE if d else ZERO
        return subst(e, m) if m else e
    def apply(self, op, e, i):
        """the linear operator applied to the vector with element i given by e"""
        ia = i.as_atom(); out = ZERO
        for m, k in e.d.items():
            r = None; co = []
            for aid, x in m:
                a = T._alist[aid]
                if ia in a.fv:
                    if r is not None or x != 1 or a.kind != 'read' or len(a.a[1]) != 1 or a.a[1][0] != i: raise Unsupported('operator applied to a vector that is not a combination of arrays: %s' % show(Poly({m:k}))[-1500:])
                    r = a
                else: co.append((aid, x))
            if r is None: raise Unsupported('operator applied to a constant vector')
            t = self.table.get((op, r.a[0]))
            im = read('%s|%s' % (op, r.a[0]), (i,)) if t is None else subst(t, {self.ph.as_atom(): i})
            out = out + Poly({tuple(co): k}) * im
        return out
    def op(self, name):
        """callee contract of the product / the preconditioner"""
        def h(it, f, this, args):
            v = [x for x in [it.get(a) for a in args] if isinstance(x, (ArrS, ArrC))][-1]
            it.oblige('operand has as many elements as the matrix has columns', eq(v.n, self.n))
            i = fresh('i', 'int')
            e = self.apply(name, self.at(v, i), i)
            return ArrS(self.n, LeafArr(('lam', (i.as_atom(),), e), (), 'real'), (), 'double')
        return h
    # ---- relations ---------------------------------------------------------------------
    def defs(self, m, tab):
        """substitution of base arrays (and their images) by expressions in the placeholder index"""
        def rm(base, idx, sort):
            t = tab.get(base)
            return None if t is None or len(idx) != 1 else subst(t, {self.ph.as_atom(): idx[0]})
        return rm
    def sub(self, e, tab, scal_=None):
        if not tab and not scal_: return e
        for _ in range(6):
            e2 = subst(e, scal_ or {}, self.defs(None, tab))
            if e2 == e: break
            e = e2
        return e
    def dots(self, p, ops=('A', 'M')):
        """inner products as canonical variables: dot(A|x, y) = dot(x, A|y) for symmetric operators"""
        if not hasattr(self, 'dm'): self.dm = {}
        m = {}
        def name(b):
            return b.split('|') if '|' in b else [b]
        def can(x, y):
            # all ways of moving the outermost symmetric operators across
            best = None; seen = set(); todo = [(tuple(name(x)), tuple(name(y)))]
            while todo:
                a, b = todo.pop()
                if (a, b) in seen: continue
                seen.add((a, b)); todo.append((b, a))
                if len(a) > 1 and a[0] in ops and len(seen) < 40: todo.append((a[1:], (a[0],) + b))
            return min(seen, key=lambda t: ('|'.join(t[0]), '|'.join(t[1])))
        def scan(q):
            for a in list(q.atoms()):
                if a.kind == 'sum' and a not in m:
                    bv, lo, hi, body = a.a
                    if lo != ZERO or hi != self.n or len(body.d) != 1: continue
                    (mm, k), = body.d.items(); xs = []
                    for aid, e in mm:
                        r = T._alist[aid]
                        if r.kind != 'read' or len(r.a[1]) != 1 or r.a[1][0] != atom_poly(bv): xs = None; break
                        xs += [r.a[0]] * e
                    if xs is None or len(xs) != 2 or k != 1: continue
                    key = can(*xs); 
                    if key not in self.dm: self.dm[key] = var('dot(%s,%s)' % ('|'.join(key[0]), '|'.join(key[1])))
                    m[a] = self.dm[key]
                elif a.kind == 'fn':
                    for x in a.a[1]:
                        if isinstance(x, Poly): scan(x)
        scan(p)
        return subst(p, m) if m else p
    def unwrap(self, p, levels=1, under=('sqrt',)):
        """inner products written out: at the top and under square roots, or (levels > 1) everywhere"""
        for _ in range(levels):
            ws = {}
            def scan(q):
                for a in q.atoms():
                    if a.kind == 'fn':
                        if a.a[0] == 'IP': ws[a] = a.a[1][0]
                        elif levels > 1 or a.a[0] in under:
                            for x in a.a[1]:
                                if isinstance(x, Poly): scan(x)
            scan(p)
            if not ws: return p
            p = subst(p, ws)
        return p

def zero(d, runs=2):
    """identity test: every atom but inverses and square roots is an independent unknown (error below 2^-50)"""
    if not d.d: return True
    PR = G.PR
    for _ in range(runs):
        rnd = random.Random(); memo = {}
        def at(a):
            v = memo.get(a)
            if v is None:
                if a.kind == 'fn' and a.a[0] == 'inv':
                    x = go(a.a[1][0]); v = pow(x, PR - 2, PR) if x else 0
                else: v = rnd.randrange(1, PR)
                memo[a] = v
            return v
        def go(q):
            r = 0
            for m, c in q.d.items():
                c = P(c).const(); t = (c % PR if isinstance(c, int) else c.n % PR * pow(c.d % PR, PR - 2, PR) % PR if hasattr(c, 'd') else int(c.numerator) * pow(int(c.denominator), PR - 2, PR)) % PR
                for aid, e in m: t = t * pow(at(T._alist[aid]), e, PR) % PR
                r += t
            return r % PR
        if go(d): return False
    return True

class Inv:
    """candidate invariants for the loop of one solver"""
    def __init__(self, sp, b, family, eps, label):
        self.sp = sp; self.b = b; self.family = family; self.eps = eps; self.label = label; self.done = []; self.found = False
        self.report = []
    def __call__(self, it, L):
        sp = self.sp; n = sp.n
        arrs = [k for k in L['open'] if isinstance(L['H'][k], LeafArr) and L['H'][k].sort == 'real']
        R0, Rg = L['runs']
        i = fresh('i', 'int')
        def el(leaf, j=i):
            k = len(it.facts); it.facts += [le(0, j), lt(j, n)]
            try: return sp.settle(leaf.read((j,)), j)
            finally: del it.facts[k:]
        hb = {k: L['H'][k].base[1] for k in arrs}
        # 1. residual relation b - A x = r, alone or with auxiliary relations
        bi = el(self.b.b)
        def vals(run, which): return {k: el(L['comp'](run[which], k)) for k in arrs}
        h0, p0 = vals(R0, 'head'), vals(R0, 'post')
        pg = vals(Rg, 'post') if Rg['post'] is not None else None
        if pg is None: raise Unsupported('loop body never completes')
        A = lambda e: sp.apply('A', e, i)
        z = zero
        tr = lambda e: subst(e, {i.as_atom(): sp.ph})
        pairs = []
        for x in arrs:
            for r in arrs:
                if r == x: continue
                if not z(h0[r] - bi + A(h0[x])) or not z(p0[r] - bi + A(p0[x])): continue
                tab0 = {'A|' + hb[x]: tr(bi) - read(hb[r], (sp.ph,))}
                aux = self.auxiliary(it, L, arrs, hb, p0, pg, x, r, i, tab0, A, z, tr, R0, Rg)
                for tab in aux:
                    d = sp.sub(pg[r] - bi + A(pg[x]), tab)
                    if z(d): pairs.append((x, r, tab)); break
        L['pairs'] = pairs
        self.pairs = pairs
        ok = bool(pairs)
        self.oblige(it, L, 'invariant: the residual vector is b - A x at every iteration', ok, 'holds initially, after the first iteration and is preserved' if ok else 'no pair of vectors satisfies it')
        # 2. leaving the loop early: the true residual is within the tolerance
        nret = 0
        for run in L['runs']:
            outs = [(o.val, fs, o.store) for o, fs in run['ret']] + [(None, fs, s) for fs, s in run['brk']]
            for v, fs, s in outs:
                nret += 1
                good = False
                for x, r, tab in pairs:
                    if v is not None:
                        xv = it.get(v[1]) if isinstance(v, tuple) else v
                        k = len(it.facts); it.facts += [le(0, i), lt(i, n)]
                        try: xe = sp.settle(scal(aelem(xv, i)), i)
                        finally: del it.facts[k:]
                    else: xe = el(L['comp'](s, x))
                    t = {} if run['first'] else tab
                    res = sp.sub(bi - A(xe), t)
                    s2 = Sum(i, ZERO, n, res * res); bb = Sum(i, ZERO, n, bi * bi)
                    k = len(it.facts)
                    for f in [run['cond'], *fs]: it.assume(self.plain(f, t))
                    g = le(T.sqrt(s2), self.eps * T.sqrt(bb))
                    try: good = it.prove(self.dotf(g)) == 'proved' or it.prove(self.dotf(le(s2, self.eps * self.eps * bb))) == 'proved'
                    finally: del it.facts[k:]
                    if good: break
                self.oblige(it, L, 'leaving the loop before the limit: the residual b - A x of the returned vector is within the tolerance' + (' (first iteration)' if run['first'] else ''), good, 'cannot be shown')
        self.nret = nret
        if self.family == 'cg' and pairs: self.conj(it, L, arrs, hb, h0, p0, pg, pairs[0], i, el, A, z, tr, R0, Rg)
    def plain(self, f, tab):
        return self.dotf(f_map(f, lambda p: self.sp.unwrap(self.sp.sub(p, tab))))
    def dotf(self, f): return f_map(f, lambda p: self.sp.dots(p))
    def oblige(self, it, L, name, ok, detail):
        if it.record: it.obls.append(Obl(name, ok, it.loc(L['node']), detail, 'inductive invariant' if ok else 'unproved'))
    def auxiliary(self, it, L, arrs, hb, p0, pg, x, r, i, tab0, A, z, tr, R0, Rg):
        """the residual relation alone; then together with w = A t + beta A p and A z = t - r for further vectors and a scalar"""
        yield tab0
        sp = self.sp; ph = (sp.ph,)
        others = [k for k in arrs if k not in (x, r)]
        scal_ = [k for k in L['open'] if isinstance(L['H'][k], Poly) and L['H'][k].sort() == 'real']
        try: zt = [(a, t) for a in others for t in others if a != t and z(A(p0[a]) - p0[t] + p0[r])]
        except Unsupported: return
        wt = []
        for w in others:
            for t in others:
                if w == t: continue
                d = p0[w] - A(p0[t])
                for p in others:
                    if p in (w, t): continue
                    for s in scal_:
                        if z(d - L['comp'](R0['post'], s) * A(p0[p])): wt.append((w, t, p, s))
        for a, t in zt:
            for w, t2, p, s in wt:
                if t2 != t or a in (w, p): continue
                tab = dict(tab0)
                tab['A|' + hb[a]] = read(hb[t], ph) - read(hb[r], ph)
                tab[hb[w]] = read('A|' + hb[t], ph) + L['H'][s] * read('A|' + hb[p], ph)
                q = lambda e: z(sp.sub(e, tab))
                if q(A(pg[a]) - pg[t] + pg[r]) and q(pg[w] - A(pg[t]) - L['comp'](Rg['post'], s) * A(pg[p])): yield tab
    def conj(self, it, L, arrs, hb, h0, p0, pg, pair, i, el, A, z, tr, R0, Rg):
        """conjugate gradients with a symmetric preconditioner: rho = z.r, p.r = rho, p.A(p - z) = 0 are preserved; hence the new
        residual is orthogonal to the search direction and the new direction is conjugate to it"""
        sp = self.sp; n = sp.n; x, r, tab0 = pair
        dot = lambda a, b: Sum(i, ZERO, n, a * b)
        scal_ = [k for k in L['open'] if isinstance(L['H'][k], Poly) and L['H'][k].sort() == 'real']
        def hv(k): return read(hb[k], (i,))
        pgu = {k: v for k, v in pg.items()}
        found = None
        for rho in scal_:
            for zz in [r] + [k for k in arrs if k not in (x, r)]:
                for p in arrs:
                    if p in (x, r, zz): continue
                    tab = {} if zz == r else {hb[zz]: read('M|' + hb[r], (sp.ph,))}
                    def ev(e, hyp, sc):
                        e = sp.sub(sp.unwrap(e, 12), tab if hyp else {}, sc)
                        e = sp.dots(sp.unwrap(e, 12))
                        if hyp:
                            zr, pr = sp.dots(sp.sub(dot(hv(zz), hv(r)), tab)), sp.dots(sp.sub(dot(hv(p), hv(r)), tab))
                            pAz, pAp = sp.dots(sp.sub(dot(hv(p), A(sp.sub(hv(zz), tab))), tab)), sp.dots(dot(hv(p), A(hv(p))))
                            m = {pr.as_atom(): zr}
                            if pAz != pAp: m[pAz.as_atom()] = pAp
                            e = subst(e, m)
                        return zero(e)
                    H = L['H'][rho]
                    def inv(v, rv, hyp, sc):
                        return [ev(rv - dot(v[zz], v[r]), hyp, sc), ev(rv - dot(v[p], v[r]), hyp, sc), ev(dot(v[p], A(v[p]) - A(sp.sub(v[zz], tab if hyp else {}))), hyp, sc)]
                    r0 = L['comp'](R0['head'], rho)
                    if not isinstance(r0, Poly) or not all(inv(h0, r0, False, {})): continue
                    r1 = L['comp'](R0['post'], rho)
                    if not all(inv(p0, r1, False, {})): continue
                    sc = {H.as_atom(): dot(sp.sub(hv(zz), tab), hv(r))}
                    pg2 = {k: sp.sub(v, tab) for k, v in pg.items()}
                    rg = L['comp'](Rg['post'], rho)
                    if not all(inv(pg2, rg, True, sc)): continue
                    found = (rho, zz, p)
                    orth = ev(dot(pg2[r], hv(p)), True, sc) and ev(dot(p0[r], h0[p]), False, {})
                    con = ev(dot(pg2[p], A(hv(p))), True, sc) and ev(dot(p0[p], A(h0[p])), False, {})
                    self.oblige(it, L, 'invariant: rho = z.r, p.r = rho and p.A(p - z) = 0 at every iteration', True, 'symmetric matrix and preconditioner')
                    self.oblige(it, L, 'the new residual is orthogonal to the search direction (the energy is minimised along it)', orth, '')
                    self.oblige(it, L, 'the new search direction is conjugate to the old one', con, '')
                    return
        self.oblige(it, L, 'invariant: rho = z.r, p.r = rho and p.A(p - z) = 0 at every iteration', False, 'no assignment of the loop-carried vectors satisfies it')
