"""Functional arrays with symbolic length: structure-of-arrays bundles of leaf arrays; writes are (ranged, guarded) updates."""
import math
from terms import *
import terms as T

class Unsupported(Exception):
    """The verifier cannot handle this construct: never a violation by itself."""
    def __init__(self, msg, node=None):
        super().__init__(msg); self.node = node

class CTX:
    interp = None
def decide(f): return CTX.interp.decide(f)

class Upd:
    __slots__ = ('vars', 'guard', 'idx', 'val', 'kind')
    def __init__(self, vars, guard, idx, val, kind):
        self.vars = tuple(vars); self.guard = guard; self.idx = tuple(idx); self.val = val; self.kind = kind
    def subst(self, m, readmap=None):
        g = lambda p: subst(p, m, readmap)
        return Upd([(a, g(lo), g(hi)) for a, lo, hi in self.vars], f_subst(self.guard, m, readmap), [g(i) for i in self.idx],
                   g(self.val), self.kind)
    def rename(self):
        if not self.vars: return self
        m = {a: fresh('u', 'int') for a, _, _ in self.vars}
        s = lambda p: subst(p, m)
        return Upd([(m[a].as_atom(), s(lo), s(hi)) for a, lo, hi in self.vars], f_subst(self.guard, m), [s(i) for i in self.idx],
                   s(self.val), self.kind)
    def cond_range(self):
        return And(*[And(le(lo, P(a)), lt(P(a), hi)) for a, lo, hi in self.vars])
    def polys(self):
        r = [self.val, *self.idx, *f_polys(self.guard)]
        for a, lo, hi in self.vars: r += [lo, hi]
        return r
    def __repr__(self):
        return '<%s %s if %s [%s] = %s>' % (self.kind, [(str(a), show(l), show(h)) for a, l, h in self.vars], show_f(self.guard),
                                            ','.join(map(show, self.idx)), show(self.val))

def divide(t, c):
    """t = c*q + r with r free of the chosen pivot of c (polynomial division); returns (q, r) or None."""
    cc = c.const()
    if cc is not None:
        if cc == 0: return None
        q = {}; r = {}
        for m, v in t.d.items():
            if v % cc == 0: q[m] = v // cc if isinstance(v, int) and isinstance(cc, int) else v / cc
            else: r[m] = v
        return Poly(q), Poly(r)
    # pivot: an atom occurring linearly with constant coefficient in c, or c a monomial
    if len(c.d) > 1 and all(isinstance(v, int) for v in c.d.values()):
        g = math.gcd(*c.d.values())
        if g > 1 and not any(abs(v) == 1 for v in c.d.values()):
            c0 = Poly({m: v // g for m, v in c.d.items()}); qr = divide(t, c0)
            if qr is None: return None
            q = {}; r = {}
            for m, v in qr[0].d.items(): (q if v % g == 0 else r)[m] = v // g if v % g == 0 else v
            return Poly(q), qr[1] + Poly(r) * c0
    if len(c.d) == 1:
        (m, k), = c.d.items()
        md = dict(m); q = {}; r = {}
        for mm, v in t.d.items():
            d = dict(mm); ok = all(d.get(a, 0) >= e for a, e in md.items())
            if ok and (not isinstance(v, int) or not isinstance(k, int) or v % k == 0):
                for a, e in md.items():
                    d[a] -= e
                    if d[a] == 0: del d[a]
                q[tuple(sorted(d.items()))] = T._n(Q(v) / k)
            else: r[mm] = v
        return Poly(q), Poly(r)
    for m, k in sorted(c.d.items(), key=lambda t: -len(t[0])):
        if len(m) == 1 and m[0][1] == 1 and abs(k) == 1:
            a = T._alist[m[0][0]]
            rest = c - atom_poly(a).scale(k)
            if a in rest.fv(): continue
            C = var('__C', 'int'); ca = C.as_atom()
            t2 = subst(t, {a: (C - rest).scale(k)})
            q = {}; r = {}
            for mm, v in t2.d.items():
                d = dict(mm)
                if ca.id in d:
                    d[ca.id] -= 1
                    if d[ca.id] == 0: del d[ca.id]
                    q[tuple(sorted(d.items()))] = v
                else: r[mm] = v
            return subst(Poly(q), {ca: c}), Poly(r)
    # long division by the leading monomial
    lead, k = max(c.d.items(), key=lambda t: (sum(e for _, e in t[0]), t[0]))
    if sum(e for _, e in lead) < 2 or abs(k) != 1: return None
    q, r = ZERO, t
    for _ in range(6):
        s, _ = divide(r, Poly({lead: k}))
        if not s.d: break
        q, r = q + s, r - c * s
    else: return None
    return (q, r) if q.d else None

def lincoef(p, a):
    """coefficient of atom a in p if p is linear in a (and a not nested), else None"""
    c = {}; 
    for m, v in p.d.items():
        for aid, e in m:
            if aid == a.id:
                if e != 1: return None
                mm = tuple(x for x in m if x[0] != aid)
                c[mm] = v
            elif a in T._alist[aid].fv: return None
    return Poly(c)

def solve_idx(idx, pats, vars):
    """Solve pats(vars)=idx. returns (mapping atom->Poly, residual conds list) or None when it cannot be solved.
    The mapping must be the unique candidate for any solution within the ranges."""
    m = {}; conds = []
    rng = {a: (lo, hi) for a, lo, hi in vars}
    todo = list(zip(idx, pats))
    todo.sort(key=lambda t: sum(1 for a in rng if a in t[1].fv()))
    progress = True
    while todo:
        progress = False
        for n, (t, p) in enumerate(todo):
            p = subst(p, m) if m else p
            vs = [a for a in rng if a not in m and a in p.fv()]
            if not vs:
                conds.append(eq(t, p)); todo.pop(n); progress = True; break
            r = solve1(t, p, vs, {a: (subst(lo, m), subst(hi, m)) for a, (lo, hi) in rng.items()})
            if r is not None:
                mm, cs = r
                m.update(mm); conds += cs; todo.pop(n); progress = True; break
        if not progress: return None
    return m, conds

XS = None
def top(b):
    """an upper bound of a 0/1 term or of a sum of such, or None"""
    a = b.as_atom()
    if a is None: return None
    if a.kind == 'ind': return ONE
    if a.kind == 'sum':
        bv, lo, hi, f = a.a; x = fresh('x', 'int'); t = top(subst(f, {bv: x}))
        return None if t is None else Sum(x, lo, hi, t)
    return None
def sum_terms(ps):
    """the sums of some polynomials as partial sums S(h) = sum_{lo <= x < h} f(x), of 0/1 terms also of their complements:
    {key of (lo, f): (lo, f, {key of h: h}, c)} with f a polynomial in the variable XS; f >= 0 if c >= 0 (c None: unknown)"""
    global XS
    if XS is None: XS = fresh('xs', 'int')
    g = {}
    def add(lo, hi, f, co):
        if not f.d: return
        g.setdefault((lo.key(), f.key()), (lo, f, {}, co))[2].setdefault(hi.key(), hi)
    for p in ps:
        for m, v in p.d.items():
            for aid, e in m:
                if T._alist[aid].kind != 'sum' or e != 1: continue
                bv, lo, hi, body = T._alist[aid].a; b = subst(body, {bv: XS}); t = top(b)
                co = Poly({tuple(x for x in m if x[0] != aid and T._alist[x[0]].kind != 'sum'): 1})
                if len(b.d) == 1 and b.const() is None or b.const() is not None and not any(T._alist[x].kind == 'sum' for x, _ in m if x != aid): add(lo, hi, co * b, co if t is not None or (b.const() or 0) > 0 else None)
                if t is not None: add(lo, hi, co * (t - b), co)
        # conditions with several parts expand to products of 0/1 terms: the sums over one range taken together
        ms = [(m, v, [aid for aid, e in m if T._alist[aid].kind == 'sum' and e == 1]) for m, v in p.d.items()]; rg = lambda aid: tuple(x.key() for x in T._alist[aid].a[1:3])
        parts = lambda b: b.as_atom() is None and b.const() is None
        deep = lambda b: parts(b) or any(a.kind == 'sum' and deep(a.a[3]) for a in b.atoms())
        if not any(ss and deep(T._alist[aid].a[3]) for _, _, ss in ms for aid in ss): continue
        outer = {rg(ss[0]) for _, _, ss in ms if len(ss) == 1 and any(a.kind == 'sum' for a in T._alist[ss[0]].a[3].atoms())}; by = {}
        for m, v, ss in ms:
            if len(ss) > 1: ss = [aid for aid in ss if rg(aid) in outer] or ss
            if not ss: continue
            bv, lo, hi, body = T._alist[ss[0]].a; rest = tuple(x for x in m if x[0] != ss[0])
            co = tuple(x for x in rest if T._alist[x[0]].kind != 'sum'); inn = Poly({tuple(x for x in rest if T._alist[x[0]].kind == 'sum'): v})
            d = by.setdefault((lo.key(), hi.key(), co), [lo, hi, Poly({co: 1}), ZERO]); d[3] = d[3] + inn * subst(body, {bv: XS})
        for lo, hi, co, f in by.values():
            if str((-f).key()) < str(f.key()): f = -f
            add(lo, hi, co * f, None)
    return g
def nonneg(f, facts):
    """f >= 0, using that sums of nonnegative terms are nonnegative"""
    it = CTX.interp; n = len(it.facts)
    try:
        for h in facts: it.assume(h)
        if it.prove(le(0, f)) == 'proved': return True
        more = []
        for lo, b, his, _ in sum_terms([f]).values():
            x = fresh('x', 'int'); bx = subst(b, {XS.as_atom(): x})
            for sg in (1, -1):
                if nonneg(bx.scale(sg), [le(lo, x)]):
                    more += [le(0, Sum(x, lo, h, bx.scale(sg))) for h in his.values()]; break
        for h in more: it.assume(h)
        return bool(more) and it.prove(le(0, f)) == 'proved'
    finally: del it.facts[n:]
def prefix_lemmas(ps):
    """order of the partial sums of a nonnegative sequence: facts S(h) >= S(g) + f(g) for g < h, and S(h) >= 0"""
    it = CTX.interp; out = []; ps = list(ps); seen = set(); sign = {}; all_ = {}
    for _ in range(3):
        new = []
        for key, (lo, f, his, co) in sum_terms(ps).items():
            x = fresh('x', 'int'); at = lambda h: subst(f, {XS.as_atom(): P(h)})
            if key not in sign: sign[key] = 1 if co is not None and decide(le(0, co)) is True else next((sg for sg in (1, -1) if nonneg(at(x).scale(sg), [le(lo, x)])), 0)
            sg = sign[key]
            if not sg: continue
            S = lambda h: Sum(x, lo, h, at(x)).scale(sg)
            known = all_.setdefault(key, {})
            for kh, h in his.items():
                if kh in known: continue
                new.append(le(0, S(h)))
                for g in known.values():
                    for a, b in ((g, h), (h, g)): new.append(Implies(And(le(lo, a), lt(a, b)), le(S(a) + at(a).scale(sg), S(b))))
                known[kh] = h
        if not new: break
        out += new; ps = [p for n in new for p in f_polys(n)]
    return out
def sum_match(idx, u, m):
    """a variable of the update that is the upper limit of a partial sum, and the limit of the same sum in the position"""
    ts = sum_terms(idx); vs = [a for a, _, _ in u.vars]
    for key, (lo, f, his, _) in sum_terms(subst(q, m) for q in u.idx).items():
        o = ts.get(key)
        if o is None or len(o[2]) != 1: continue
        for h in his.values():
            if h.as_atom() in vs and h.as_atom() not in m: return h.as_atom(), next(iter(o[2].values()))
    return None
def apart_sums(idx, u, facts=(), depth=0):
    """no iteration of the update writes the position: before, at and after the iteration it would belong to"""
    it = CTX.interp; n = len(it.facts)
    if not any(a.kind == 'sum' for q in u.idx for a in q.atoms()): return False
    try:
        for f in facts: it.assume(f)
        k = len(it.facts)
        for f in [u.cond_range(), u.guard, *[eq(a, b) for a, b in zip(idx, u.idx)]]: it.assume(f)
        for f in prefix_lemmas(list(idx) + list(u.idx)): it.assume(f)
        if it.prove(FALSE) == 'proved': return True
        del it.facts[k:]
        c = sum_match(idx, u, {})
        if c is None: return False
        a, h = c; lo, hi = next((lo, hi) for x, lo, hi in u.vars if x is a); rest = Upd([v for v in u.vars if v[0] is not a], u.guard, u.idx, u.val, u.kind)
        if depth >= 3: return False
        return all(apart_sums(idx, w, fs, d) for w, fs, d in ((Upd(u.vars, And(u.guard, lt(P(a), h)), u.idx, u.val, u.kind), (), 3), (Upd(u.vars, And(u.guard, lt(h, P(a))), u.idx, u.val, u.kind), (), 3), (rest.subst({a: h}), (le(lo, h), lt(h, hi)), depth + 1)))
    finally: del it.facts[n:]
def solve_sums(idx, u):
    """positions given by partial sums (appending under a condition): the only iteration that writes the position, when the
    position has the shape of the written one"""
    it = CTX.interp; vs = [a for a, _, _ in u.vars]; m = {}
    if not any(a.kind == 'sum' for q in u.idx for a in q.atoms()): return None
    for _ in vs:
        c = sum_match(idx, u, m)
        if c is None: break
        m[c[0]] = c[1]
    if not m: return None
    for _ in range(3):
        left = [v for v in u.vars if v[0] not in m]
        if not left: break
        for t, q in zip(idx, u.idx):
            d = t - subst(q, m); fr = [v for v in left if v[0] in d.fv()]
            if len(fr) == 1:
                c = lincoef(d, fr[0][0])
                if c is not None and c.const() in (1, -1): m[fr[0][0]] = (d - atom_poly(fr[0][0]) * c).scale(-c.const()); break
        else: return None
    if len(m) != len(u.vars): return None
    ok = And(*[And(le(subst(lo, m), m[a]), lt(m[a], subst(hi, m))) for a, lo, hi in u.vars], f_subst(u.guard, m), *[eq(t, subst(q, m)) for t, q in zip(idx, u.idx)])
    if decide(ok) is not True: return None
    w = u; n = len(it.facts)
    try:
        for a, lo, hi in u.vars:
            for o in (lt(P(a), m[a]), lt(m[a], P(a))):
                k = len(it.facts)
                for f in [w.cond_range(), w.guard, o, *[eq(t, q) for t, q in zip(idx, w.idx)]]: it.assume(f)
                for f in prefix_lemmas(list(idx) + list(w.idx)): it.assume(f)
                r = it.prove(FALSE); del it.facts[k:]
                if r != 'proved': return None
            w = Upd([v for v in w.vars if v[0] is not a], w.guard, w.idx, w.val, w.kind).subst({a: m[a]})
    finally: del it.facts[n:]
    return m, []

def solve1(t, p, vs, rng):
    co = {}
    for a in vs:
        c = lincoef(p, a)
        if c is None: return None
        if any(b in c.fv() for b in vs): return None
        co[a] = c
    e = p
    for a in vs: e = e - atom_poly(a) * co[a]
    return solve_lin(t, e, vs, co, rng)

def within(r, c): return decide(And(le(0, r), lt(r, c))) is True

def solve_lin(t, e, vs, co, rng, fallback=True):
    """sum co[a]*a + e = t"""
    if e.d and len(vs) > 1:
        r = solve_lin(t - e, ZERO, vs, co, rng, False)
        if r is not None: return r
    if len(vs) == 1:
        a = vs[0]; c = co[a]; k = c.const()
        d = t - e
        if k is not None:
            if abs(k) == 1: return {a: d.scale(k)}, []
            q, r = divide(d, c)
            if r.const() is not None:
                return {a: q}, ([] if r.const() == 0 else [FALSE])
            return {a: fn('idiv', (d, P(k)), 'int')}, [eq(fn('imod', (d, P(k)), 'int'), 0)]
        for qt, rt in splits(t, c):
            for qe, re_ in splits(e, c):
                if rt == re_ : return {a: qt - qe}, []
                if within(rt, c) and within(re_, c): return {a: qt - qe}, [eq(rt, re_)]
        qr = divide(d, c)
        if qr is not None and decide(And(lt(-c, qr[1]), lt(qr[1], c))) is True: return {a: qr[0]}, [eq(qr[1], 0)]
        lo, hi = rng[a]
        cands = []
        for m, v in c.d.items():
            if m == (): continue
            for qt, rt in splits(d, Poly({m: v})):
                if qt not in cands: cands.append(qt)
        for q in cands:
            bad = And(le(lo, P(a)), lt(P(a), hi), eq(d, c * atom_poly(a)), ne(P(a), q))
            if decide(bad) is False: return {a: q}, [eq(d, c * q)]
        return None
    units = [a for a in vs if co[a].const() is not None and abs(co[a].const()) == 1]
    cands = units or [a for a in vs if co[a].const() is not None] or vs
    for a in cands:
        others = [b for b in vs if b is not a]
        for b in others:
            c = co[b]
            newco = {}; ok = True
            for d in others:
                qr = divide(co[d], c)
                if qr is None or qr[1].d: ok = False; break
                newco[d] = qr[0]
            if not ok: continue
            lo, hi = rng[a]; ca = co[a]; neg = ca.const() is not None and ca.const() < 0
            in_lo = ca * (hi - 1 if neg else lo); in_hi = ca * (lo if neg else hi - 1)
            for qe, re_ in splits(e, c):
                if decide(And(le(0, in_lo + re_), lt(in_hi + re_, c))) is not True: continue
                for qt, rt in splits(t, c):
                    if not within(rt, c): continue
                    r1 = solve_lin(rt, re_, [a], {a: ca}, rng)
                    if r1 is None: continue
                    r2 = solve_lin(qt, qe, others, newco, rng)
                    if r2 is None: continue
                    return {**r1[0], **r2[0]}, r1[1] + r2[1]
    # undecodable flat index: quotient and remainder (two unknowns, unit inner coefficient, zero offset)
    if len(vs) == 2 and not e.d and fallback:
        for a in vs:
            b = [x for x in vs if x is not a][0]
            if co[a].const() == 1 and rng[a][0].const() == 0 and decide(And(le(rng[a][1], co[b]), gt(co[b], 0), le(0, t))) is True:
                q = T.rebuild_fn('idiv', (t, co[b]), 'int')
                return {b: q, a: t - co[b] * q}, []
    return None

def splits(t, c):
    """candidate (quotient, remainder) pairs of t by c"""
    qr = divide(t, c)
    out = [] if qr is None else [qr]
    if not any(q.d == {} for q, _ in out): out.append((ZERO, t))
    if qr is not None and qr[0].d:
        out.append((qr[0] - 1, qr[1] + c)); out.append((qr[0] + 1, qr[1] - c))
    return out

def simp(c):
    if c[0] == 'and': return And(*[x for x in c[1] if decide(x) is not True])
    return c

class LeafArr:
    __slots__ = ('base', 'upds', 'sort', '_cache')
    # base: ('sym', name) | ('const', Poly) | ('lam', atoms, Poly) | ('ite', cond, LeafArr, LeafArr)
    def __init__(self, base, upds=(), sort='real'):
        self.base = base; self.upds = tuple(upds); self.sort = sort; self._cache = {}
    def bases(self):
        r = set()
        if self.base[0] == 'sym': r.add(self.base[1])
        elif self.base[0] == 'lam': r |= self.base[2].bases()
        elif self.base[0] == 'ite': r |= self.base[2].bases() | self.base[3].bases() | f_bases(self.base[1])
        elif self.base[0] == 'const': r |= self.base[1].bases()
        for u in self.upds:
            for p in u.polys(): r |= p.bases()
        return r
    def polys(self):
        r = []
        if self.base[0] == 'lam': r.append(self.base[2])
        elif self.base[0] == 'const': r.append(self.base[1])
        elif self.base[0] == 'ite': r += f_polys(self.base[1]) + self.base[2].polys() + self.base[3].polys()
        for u in self.upds: r += u.polys()
        return r
    def read(self, idx):
        idx = tuple(P(i) for i in idx)
        k = tuple(i.key() for i in idx)
        ck = (k, CTX.interp.factstamp())
        r = self._cache.get(ck)
        if r is None:
            r = self._read(idx, len(self.upds))
            self._cache[ck] = r
        return r
    def _read(self, idx, n):
        while n > 0:
            u = self.upds[n - 1]
            n -= 1
            if not u.vars:
                c = And(*[eq(a, b) for a, b in zip(idx, u.idx)])
                c = And(c, u.guard)
                if c[0] != 'T':
                    d = decide(c)
                    if d is False: continue
                    if d is True: c = TRUE
                    else: c = simp(c)
                if u.kind == 'add':
                    return self._read(idx, n) + ind(c) * u.val
                if c[0] == 'T': return u.val
                return ite(c, u.val, self._read(idx, n))
            u = u.rename()
            vs = list(u.vars)
            used = set()
            for p in u.idx: used |= p.fv()
            need = [v for v in vs if v[0] in used]
            rest = [v for v in vs if v[0] not in used]
            s = (solve_idx(idx, u.idx, need) or solve_sums(idx, u)) if need else ({}, [eq(a, b) for a, b in zip(idx, u.idx)])
            if s is None:
                # cheap disjointness test
                if ranges_apart(idx, u): continue
                hit = And(u.cond_range(), u.guard, *[eq(a, b) for a, b in zip(idx, u.idx)])
                if CTX.interp.refutes(hit) or apart_sums(idx, u): continue
                if u.kind == 'add':
                    body = ind(And(u.guard, *[eq(a, b) for a, b in zip(idx, u.idx)])) * u.val
                    for a, lo, hi in reversed(vs): body = Sum(atom_poly(a), lo, hi, body)
                    return self._read(idx, n) + body
                w = last_writer(idx, u)
                if w is None: raise Unsupported('cannot resolve read at [%s] against update %r' % (','.join(map(show, idx)), u))
                ex, m = w
                return ite(eq(ex, 1), subst(u.val, m), self._read(idx, n))
            m, conds = s
            cr = And(*conds, *[And(le(subst(lo, m), m[a]), lt(m[a], subst(hi, m))) for a, lo, hi in need])
            g = f_subst(u.guard, m) if m else u.guard
            val = subst(u.val, m) if m else u.val
            rest = [(a, subst(lo, m), subst(hi, m)) for a, lo, hi in rest]
            restat = {a for a, _, _ in rest}
            if u.kind == 'add':
                if f_fv(g) & restat:
                    body = ind(g) * val; gg = cr
                else:
                    body = val; gg = And(cr, g)
                for a, lo, hi in reversed(rest): body = Sum(atom_poly(a), lo, hi, body)
                d = decide(gg)
                if d is False: continue
                return self._read(idx, n) + (body if d is True else ind(simp(gg)) * body)
            if rest:
                if (val.fv() | f_fv(g)) & restat:
                    raise Unsupported('ambiguous ranged set')
                cr = And(cr, *[lt(lo, hi) for a, lo, hi in rest])
            c = And(cr, g)
            d = decide(c)
            if d is False: continue
            if d is True: return val
            c = simp(c)
            return ite(c, val, self._read(idx, n))
        b = self.base
        if b[0] == 'sym': return read(b[1], idx, self.sort)
        if b[0] == 'const': return b[1]
        if b[0] == 'lam': return subst(b[2], dict(zip(b[1], idx)))
        if b[0] == 'ite':
            d = decide(b[1])
            if d is True: return b[2].read(idx)
            if d is False: return b[3].read(idx)
            return ite(b[1], b[2].read(idx), b[3].read(idx))
        raise ValueError(b)
    def write(self, idx, val, kind='set', vars=(), guard=TRUE):
        idx = tuple(P(i) for i in idx)
        if not vars and guard == TRUE and kind == 'set' and self.upds:
            u = self.upds[-1]
            if not u.vars and u.guard == TRUE and all(a == b for a, b in zip(u.idx, idx)):
                return LeafArr(self.base, self.upds[:-1] + (Upd((), TRUE, idx, val, 'set'),), self.sort)
        if not vars and guard == TRUE and kind == 'add' and self.upds:
            u = self.upds[-1]
            if not u.vars and u.guard == TRUE and all(a == b for a, b in zip(u.idx, idx)):
                return LeafArr(self.base, self.upds[:-1] + (Upd((), TRUE, idx, u.val + val, u.kind),), self.sort)
        return LeafArr(self.base, self.upds + (Upd(vars, guard, idx, val, kind),), self.sort)
    def subst(self, m, readmap=None):
        b = self.base
        if b[0] == 'sym' and readmap is not None and getattr(readmap, 'leaf', None) is not None:
            r = readmap.leaf(b[1])
            if r is not None:
                return LeafArr(r.base, r.upds + tuple(u.subst(m, readmap) for u in self.upds), self.sort)
        if b[0] == 'const': b = ('const', subst(b[1], m, readmap))
        elif b[0] == 'lam': b = ('lam', b[1], subst(b[2], m, readmap))
        elif b[0] == 'ite': b = ('ite', f_subst(b[1], m, readmap), b[2].subst(m, readmap), b[3].subst(m, readmap))
        return LeafArr(b, tuple(u.subst(m, readmap) for u in self.upds), self.sort)
    def __repr__(self): return 'Leaf(%s%s)' % (self.base, ''.join('\n    %r' % u for u in self.upds))

def extreme(p, up, rng):
    """an upper (lower) bound of p: bounded integer variables are replaced, newest first, by their bounds"""
    for _ in range(12):
        best = None
        for a in p.fv():
            if a.kind in ('var', 'bv') and a.sort == 'int' and (best is None or a.id > best.id) and bound_of(a, rng, True) and bound_of(a, rng, False): best = a
        if best is None: return p
        c = lincoef(p, best)
        if c is None: return p
        pos = True if (c.const() or 0) > 0 else decide(le(0, c))
        if pos is not True and decide(le(c, 0)) is not True: return p
        b = bound_of(best, rng, up if pos is True else not up)
        p = subst(p, {best: b[0]})
    return p
def bound_of(a, rng, up):
    if a in rng: return [rng[a][1] - 1 if up else rng[a][0]]
    out = []
    def look(f):
        if f[0] == 'and':
            for g in f[1]: look(g)
        elif f[0] in ('le', 'lt'):
            c = lincoef(f[1], a)
            if c is None or c.const() is None or abs(c.const()) != 1: return
            k = c.const()
            if (k > 0) != up: return
            b = (atom_poly(a) - f[1].scale(k)) if True else None
            if f[0] == 'lt' and f[1].sort() == 'int': b = b - k
            if f[1].sort() != 'int' or a in b.fv() or any(x.id > a.id for x in b.fv()): return
            out.append(b)
    for f in CTX.interp.facts: look(f)
    out.sort(key=lambda b: (b.const() is None, -len(b.d)))
    if out and out[0].const() is not None and any(b.const() is None for b in out): out = [b for b in out if b.const() is None] if up else out
    return out[:1]
def ranges_apart(idx, u):
    rng = {a: (lo, hi) for a, lo, hi in u.vars}
    for t, q in zip(idx, u.idx):
        if t.sort() != 'int' or q.sort() != 'int': continue
        if decide(lt(extreme(t, True, {}), extreme(q, False, rng))) is True: return True
        if decide(lt(extreme(q, True, rng), extreme(t, False, {}))) is True: return True
    return False

def last_writer(idx, u):
    """(ex, witness) for a read of an array written by the ranged update u at positions that may coincide: ex is 1 when some
    iteration writes the position, the witness is the last such iteration"""
    it = CTX.interp
    if it.symdepth or any(x.kind == 'bv' for p in list(idx) + u.polys() for x in p.fv()): return writer_fn(idx, u)
    hit = And(u.cond_range(), u.guard, *[eq(a, b) for a, b in zip(idx, u.idx)])
    ex = fresh('ex', 'int'); m = {a: fresh('wr', 'int') for a, _, _ in u.vars}
    fs = [Or(eq(ex, 0), eq(ex, 1)), Or(eq(ex, 0), f_subst(hit, m))]
    q = [P(a) for a, _, _ in u.vars]
    fs.append(Or(eq(ex, 1), Forall(q, Not(hit))))
    fs.append(Or(eq(ex, 0), Forall(q, Or(not_after(q, [m[a] for a, _, _ in u.vars]), Not(hit)))))
    it.fnfacts[ex.as_atom()] = fs
    for w in m.values(): it.fnfacts[w.as_atom()] = fs
    return ex, m

def not_after(q, w):
    """iteration q of nested loops does not come after iteration w"""
    f = le(q[-1], w[-1])
    for a, b in reversed(list(zip(q[:-1], w[:-1]))): f = Or(lt(a, b), And(eq(a, b), f))
    return f

def writer_fn(idx, u):
    """the same as functions of the position and of the free variables of the update, so that they survive substitution: for
    reads inside a loop body or under a bound variable.  The update may only read arrays that stand for inputs."""
    import smt
    it = CTX.interp
    for p in u.polys():
        for a in smt._allatoms(p):
            if a.kind == 'read' and '#' in a.a[0] and not a.a[0].startswith(('hit#', 'wit#')): return None
    bound = [a for a, _, _ in u.vars]
    free = set()
    for p in u.polys(): free |= {x for x in p.fv() if x.kind in ('var', 'bv')}
    free = sorted(free - set(bound), key=lambda a: a.id); m = {}
    canon = it.__dict__.setdefault('hitvars', [])
    while len(canon) < len(bound) + len(free): canon.append((fresh('h', 'int'), fresh('h', 'real')))
    for i, a in enumerate(bound + free): m[a] = canon[i][0 if a.sort == 'int' else 1]
    s = lambda p: subst(p, m)
    cu = Upd([(m[a].as_atom(), s(lo), s(hi)) for a, lo, hi in u.vars], f_subst(u.guard, m), [s(i) for i in u.idx], s(u.val), u.kind)
    key = (tuple((a, lo.key(), hi.key()) for a, lo, hi in cu.vars), f_key(cu.guard), tuple(i.key() for i in cu.idx))
    tab = it.__dict__.setdefault('hits', {}); n = tab.setdefault(key, len(tab))
    hname = 'hit#%d' % n; wname = ['wit#%d#%d' % (n, i) for i in range(len(bound))]; nidx = len(idx)
    if hname not in it.axioms:
        pars = [m[a] for a in free]
        def ax(*args):
            at, pv = [P(x) for x in args[:nidx]], dict(zip([p.as_atom() for p in pars], args[nidx:]))
            v = cu.subst(pv); hit = And(v.cond_range(), v.guard, *[eq(a, b) for a, b in zip(at, v.idx)])
            ex = read(hname, args, 'int'); w = {a: read(x, args, 'int') for (a, _, _), x in zip(v.vars, wname)}
            q = {a: fresh('q', 'int') for a, _, _ in v.vars}; no = Not(f_subst(hit, q)); qs = list(q.values())
            r = [Or(eq(ex, 0), eq(ex, 1)), Or(eq(ex, 0), f_subst(hit, w)), Or(eq(ex, 1), Forall(qs, no))]
            if not it.__dict__.get('hitbusy') and not any(p.kind == 'bv' for x in at for p in x.fv()):
                it.hitbusy = True
                try: sol = solve_idx(at, v.idx, v.vars)
                finally: it.hitbusy = False
                if sol is not None:
                    mm, conds = sol
                    cr = And(*conds, f_subst(v.guard, mm), *[And(le(subst(lo, mm), mm[a]), lt(mm[a], subst(hi, mm))) for a, lo, hi in v.vars if a in mm])
                    if len(mm) == len(v.vars): r.append(eq(ex, ind(cr)))
            r.append(Or(eq(ex, 0), Forall(qs, Or(not_after(qs, list(w.values())), no))))
            return r
        it.axioms[hname] = ax
        for x in wname: it.axioms[x] = ax
    args = tuple(P(i) for i in idx) + tuple(atom_poly(a) for a in free)
    return read(hname, args, 'int'), {a: read(x, args, 'int') for a, x in zip(bound, wname)}

def merge_leaf(c, a, b):
    if a is b: return a
    if a.base == b.base or (a.base[0] == b.base[0] and a.base is b.base):
        n = 0
        while n < len(a.upds) and n < len(b.upds) and a.upds[n] is b.upds[n]: n += 1
        g = lambda u, c: Upd(u.vars, And(u.guard, c), u.idx, u.val, u.kind)
        return LeafArr(a.base, a.upds[:n] + tuple(g(u, c) for u in a.upds[n:]) + tuple(g(u, Not(c)) for u in b.upds[n:]), a.sort)
    return LeafArr(('ite', c, a, b), (), a.sort)

# ---- values ------------------------------------------------------------------------
class Obj:
    __slots__ = ('cls', 'f')
    def __init__(self, cls, f): self.cls = cls; self.f = f
    def with_(self, k, v):
        d = dict(self.f); d[k] = v
        return Obj(self.cls, d)
    def __repr__(self): return '%s{%s}' % (self.cls, ', '.join('%s=%r' % kv for kv in self.f.items()))

class ArrC:
    __slots__ = ('v', 'et')
    def __init__(self, v, et=None): self.v = tuple(v); self.et = et
    @property
    def n(self): return P(len(self.v))
    def __repr__(self): return 'ArrC%r' % (list(self.v),)

class ArrS:
    __slots__ = ('n', 'b', 'pre', 'et')
    def __init__(self, n, b, pre, et): self.n = n; self.b = b; self.pre = pre; self.et = et
    def __repr__(self): return 'ArrS(n=%s, pre=%s, %s)' % (show(self.n), [show(p) for p in self.pre], self.b)

class BArr:      # bundle for array-valued elements
    __slots__ = ('ln', 'el', 'et')
    def __init__(self, ln, el, et): self.ln = ln; self.el = el; self.et = et
class BObj:
    __slots__ = ('cls', 'f')
    def __init__(self, cls, f): self.cls = cls; self.f = f

class Uninit:
    def __repr__(self): return 'Uninit'
UNINIT = Uninit()

class Null:
    def __repr__(self): return 'null'
NULL = Null()

def to_formula(x):
    if isinstance(x, tuple): return x
    if isinstance(x, Poly):
        c = x.const()
        if c is not None: return TRUE if c != 0 else FALSE
        a = x.as_atom()
        if a is not None and a.kind == 'ind': return a.a[0]
        if x.sort() == 'int':
            y = (ONE - x).as_atom()
            if y is not None and y.kind == 'ind': return Not(y.a[0])
        return ne(x, 0)
    raise Unsupported('to_formula %r' % (x,))

def scal(x):
    if isinstance(x, Poly): return x
    if isinstance(x, tuple): return ind(x)
    if isinstance(x, Uninit): return fresh('uninit')
    raise Unsupported('scalar expected, got %s' % type(x).__name__)

def bview(b, idx, et=None):
    if isinstance(b, LeafArr):
        v = b.read(idx)
        return to_formula(v) if b.sort == 'bool' else v
    if isinstance(b, BObj): return Obj(b.cls, {k: bview(x, idx) for k, x in b.f.items()})
    if isinstance(b, BArr): return ArrS(b.ln.read(idx), b.el, tuple(idx), b.et)
    raise Unsupported('bview')

def bwrite(b, idx, path, val, kind='set', vars=(), guard=TRUE):
    """new bundle with element at idx (then path) replaced by val."""
    if path:
        k, x = path[0]
        if k == 'f':
            if not isinstance(b, BObj): raise Unsupported('field of non-object in array')
            d = dict(b.f); d[x] = bwrite(d[x], idx, path[1:], val, kind, vars, guard)
            return BObj(b.cls, d)
        if k == 'i':
            if not isinstance(b, BArr): raise Unsupported('index of non-array in array')
            return BArr(b.ln, bwrite(b.el, tuple(idx) + (x,), path[1:], val, kind, vars, guard), b.et)
        if k == 'n':
            return BArr(bwrite(b.ln, idx, (), val, kind, vars, guard), b.el, b.et)
    if isinstance(b, LeafArr): 
        v = scal(val)
        if kind == 'set' and b.base[0] == 'sym' and not vars and b.base[1] in v.bases():
            cur = b.read(idx)
            d = v - cur
            if b.base[1] not in d.bases(): return b.write(idx, d, 'add', vars, guard)
        return b.write(idx, v, kind, vars, guard)
    if isinstance(b, BObj):
        if not isinstance(val, Obj): raise Unsupported('write of %r to object slot' % (val,))
        return BObj(b.cls, {k: bwrite(x, idx, (), val.f[k], kind, vars, guard) for k, x in b.f.items()})
    if isinstance(b, BArr):
        if isinstance(val, (Uninit, Null)):
            return BArr(b.ln.write(idx, ZERO, 'set', vars, guard), b.el, b.et)
        ln = b.ln.write(idx, val.n, 'set', vars, guard)
        el = b.el
        if isinstance(val, ArrC):
            for n, x in enumerate(val.v): el = bwrite(el, tuple(idx) + (P(n),), (), x, kind, vars, guard)
        else:
            u = fresh('c', 'int')
            el = bwrite(el, tuple(idx) + (u,), (), with_range(val, u), kind, tuple(vars) + ((u.as_atom(), ZERO, val.n),), guard)
        return BArr(ln, el, b.et)
    raise Unsupported('bwrite')

def with_range(arr, u):
    it = CTX.interp
    it.facts.append(And(le(0, u), lt(u, arr.n)))
    try: return bview(arr.b, arr.pre + (u,))
    finally: it.facts.pop()

def aelem(a, i):
    if isinstance(a, ArrC):
        c = i.const()
        if c is not None:
            if 0 <= c < len(a.v): return a.v[int(c)]
            raise Unsupported('index %s out of range of concrete array of %d' % (c, len(a.v)))
        if len(a.v) == 0: raise Unsupported('symbolic index into empty array')
        if len(a.v) > 400: raise Unsupported('symbolic index into large concrete array')
        it = CTX.interp
        cand = [n for n in range(len(a.v)) if decide(eq(i, n)) is not False]
        if not cand: cand = [0]
        r = a.v[cand[-1]]
        for n in reversed(cand[:-1]): r = merge_val(eq(i, n), a.v[n], r)
        return r
    if isinstance(a, ArrS): return bview(a.b, a.pre + (i,))
    raise Unsupported('index of %s' % type(a).__name__)

def merge_val(c, a, b):
    if a is b: return a
    if c[0] == 'T': return a
    if c[0] == 'F': return b
    if isinstance(a, Uninit): return b if not isinstance(b, Poly) else ite(c, fresh('uninit', b.sort()), b)
    if isinstance(b, Uninit): return a if not isinstance(a, Poly) else ite(c, a, fresh('uninit', a.sort()))
    if isinstance(a, Poly) and isinstance(b, Poly): return ite(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return Or(And(c, a), And(Not(c), b)) if a != b else a
    if isinstance(a, Obj) and isinstance(b, Obj):
        return Obj(a.cls, {k: merge_val(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, ArrC) and isinstance(b, ArrC) and len(a.v) == len(b.v):
        return ArrC([merge_val(c, x, y) for x, y in zip(a.v, b.v)], a.et)
    if isinstance(a, (ArrC, ArrS)) and isinstance(b, (ArrC, ArrS)):
        a, b = lift(a), lift(b)
        a, b = rebase(a), rebase(b)
        return ArrS(ite(c, a.n, b.n), merge_bundle(c, a.b, b.b), (), a.et)
    if type(a) is type(b) and hasattr(a, 'merge'): return a.merge(c, b)
    if isinstance(a, Null) and isinstance(b, Null): return a
    raise Unsupported('cannot merge %s and %s' % (type(a).__name__, type(b).__name__))

def merge_bundle(c, a, b):
    if a is b: return a
    if isinstance(a, LeafArr): return merge_leaf(c, a, b)
    if isinstance(a, BObj): return BObj(a.cls, {k: merge_bundle(c, a.f[k], b.f[k]) for k in a.f})
    return BArr(merge_leaf(c, a.ln, b.ln), merge_bundle(c, a.el, b.el), a.et)

def rebase(a):
    """view with prefix -> standalone array"""
    if not a.pre: return a
    b = CTX.interp.bundle_for(a.et, fresh_name('rb'))
    u = fresh('c', 'int')
    b = bwrite(b, (u,), (), with_range(a, u), 'set', ((u.as_atom(), ZERO, a.n),))
    return ArrS(a.n, b, (), a.et)

def lift(a):
    if isinstance(a, ArrS): return a
    if a.et is None: raise Unsupported('lift of untyped array')
    b = CTX.interp.bundle_for(a.et, fresh_name('lf'))
    if a.v and all(isinstance(x, Poly) and x == a.v[0] for x in a.v) and isinstance(b, LeafArr):
        b = LeafArr(('const', a.v[0]), (), b.sort)
    else:
        for n, x in enumerate(a.v): b = bwrite(b, (P(n),), (), x)
    return ArrS(a.n, b, (), a.et)

_nm = [0]
def fresh_name(p):
    _nm[0] += 1
    return '%s!%d' % (p, _nm[0])

def mk_array(n, f, et='double', rng=()):
    """array of length n with element i equal to f(i)"""
    n = P(n)
    c = n.const()
    if c is not None: return ArrC([f(P(i)) for i in range(int(c))], et)
    u = fresh('i', 'int')
    it = CTX.interp
    it.facts.append(And(le(0, u), lt(u, n)))
    try: v = f(u)
    finally: it.facts.pop()
    b = it.bundle_for(et, fresh_name('mk'))
    b = bwrite(b, (u,), (), v, 'set', ((u.as_atom(), ZERO, n),))
    return ArrS(n, b, (), et)
