"""Discharging side conditions and goals with z3 (linear abstraction + product lemmas, then native nonlinear)."""
import time, itertools
import z3
from terms import *
import terms as T

STAT = {'queries': 0, 'time': 0.0, 'cache': 0}
_cache = {}

class Enc:
    def __init__(self, native):
        self.native = native
        self.c = {}
        self.mono = {}
        self.defs = []
        self.done = set()
        self.depth = {}

    def atom(self, a):
        x = self.c.get(a)
        if x is None:
            nm = 'a%d' % a.id
            x = z3.Int(nm) if a.sort == 'int' else z3.Real(nm)
            self.c[a] = x
            self.define(a, x)
        return x

    def define(self, a, x):
        k = a.kind
        if k == 'ind':
            f = a.a[0]
            self.defs.append(z3.Or(x == 0, x == 1))
            self.defs.append((x == 1) == self.f(f))
        elif k == 'fn':
            nm = a.a[0]
            if nm == 'sqrt':
                self.defs.append(x >= 0)
                if self.native:
                    e = self.p(a.a[1][0]); self.defs.append(z3.Implies(e >= 0, x * x == e))
                else:
                    e = self.p(a.a[1][0]); self.defs.append(z3.Implies(e > 0, x > 0))
            elif nm == 'abs':
                e = self.p(a.a[1][0])
                self.defs.append(x == z3.If(e >= 0, e, -e))
            elif nm == 'inv':
                e = self.p(a.a[1][0])
                if self.native: self.defs.append(z3.Implies(e != 0, x * e == 1))
                self.defs.append(z3.Implies(e > 0, x > 0)); self.defs.append(z3.Implies(e < 0, x < 0))
            elif nm in ('max', 'min'):
                e1, e2 = self.p(a.a[1][0]), self.p(a.a[1][1])
                self.defs.append(x == (z3.If(e1 >= e2, e1, e2) if nm == 'max' else z3.If(e1 <= e2, e1, e2)))
            elif nm == 'exp':
                self.defs.append(x > 0)
            elif nm == 'idiv' or nm == 'imod':
                b = a.a[1][1].const()
                if b is not None and b > 0:
                    e = self.p(a.a[1][0])
                    # C++ truncation; for non-negative dividend it is floor
                    q = self.atom(T.fn('idiv', a.a[1], 'int').as_atom()) if nm == 'imod' else x
                    r = x if nm == 'imod' else self.atom(T.fn('imod', a.a[1], 'int').as_atom())
                    if (a.a[1][0].key(), b) not in self.done:
                        self.done.add((a.a[1][0].key(), b))
                        self.defs.append(e == int(b) * q + r)
                        self.defs.append(z3.Implies(e >= 0, z3.And(r >= 0, r < int(b))))
                        self.defs.append(z3.Implies(e < 0, z3.And(r <= 0, r > -int(b))))
                elif nm == 'idiv' and b is None:
                    e = self.p(a.a[1][0]); d = self.p(a.a[1][1])
                    bq = self.p(a.a[1][1] * T.atom_poly(a))
                    self.defs.append(z3.Implies(z3.And(e >= 0, d > 0), z3.And(x >= 0, bq <= e, e < bq + d)))
        elif k == 'sum':
            bv, lo, hi, body = a.a
            if body == ONE:
                l, h = self.p(lo), self.p(hi)
                self.defs.append(x == z3.If(h >= l, h - l, 0))
            elif all(y.kind == 'ind' for y in body.atoms()) and len(body.d) == 1:
                l, h = self.p(lo), self.p(hi)
                self.defs.append(x >= 0); self.defs.append(z3.Implies(h >= l, x <= h - l)); self.defs.append(z3.Implies(h <= l, x == 0))

    def m(self, m):
        if len(m) == 1 and m[0][1] == 1: return self.atom(T._alist[m[0][0]])
        if self.native:
            r = None
            for aid, e in m:
                for _ in range(e):
                    r = self.atom(T._alist[aid]) if r is None else r * self.atom(T._alist[aid])
            return r
        x = self.mono.get(m)
        if x is None:
            srt = all(T._alist[a].sort == 'int' for a, _ in m)
            nm = 'm' + '_'.join('%d^%d' % t for t in m)
            x = z3.Int(nm) if srt else z3.Real(nm)
            self.mono[m] = x
            for aid, e in m: self.atom(T._alist[aid])
            # products of 0/1 indicators
            if all(T._alist[a].kind == 'ind' for a, _ in m):
                xs = [self.atom(T._alist[a]) for a, _ in m]
                self.defs.append(x == z3.If(z3.And(*[y == 1 for y in xs]), 1, 0))
            else:
                inds = [self.atom(T._alist[a]) for a, _ in m if T._alist[a].kind == 'ind']
                rest = tuple((a, e) for a, e in m if T._alist[a].kind != 'ind')
                if inds and rest:
                    rx = self.m(rest)
                    self.defs.append(x == z3.If(z3.And(*[y == 1 for y in inds]), rx, 0))
                elif len(m) == 1 and m[0][1] % 2 == 0:
                    self.defs.append(x >= 0)
        return x

    def p(self, p):
        r = None
        for m, c in p.d.items():
            cc = z3.RealVal(str(c)) if isinstance(c, Q) else (z3.IntVal(c) if isinstance(c, int) else z3.RealVal(str(c)))
            t = cc if m == () else (self.m(m) if c == 1 else cc * self.m(m))
            r = t if r is None else r + t
        return r if r is not None else z3.IntVal(0)

    def f(self, f):
        t = f[0]
        if t == 'T': return z3.BoolVal(True)
        if t == 'F': return z3.BoolVal(False)
        if t == 'le': return self.p(f[1]) <= 0
        if t == 'lt': return self.p(f[1]) < 0
        if t == 'eq': return self.p(f[1]) == 0
        if t == 'and': return z3.And(*[self.f(x) for x in f[1]])
        if t == 'or': return z3.Or(*[self.f(x) for x in f[1]])
        if t == 'not': return z3.Not(self.f(f[1]))
        if t == 'b': return z3.Bool(f[1])
        if t == 'forall': return z3.BoolVal(True)   # quantified facts are instantiated by the caller
        raise ValueError(f)

def relevant_facts(facts, goal, rounds=3):
    """Facts sharing variables (transitively) with the goal; sound to drop facts."""
    want = set(); 
    for p in f_polys(goal): want |= set(_allatoms(p))
    rest = list(facts); sel = []
    fa = {id(f): set(a for p in f_polys(f) for a in _allatoms(p)) for f in rest}
    for _ in range(rounds):
        more = [f for f in rest if fa[id(f)] & want]
        if not more: break
        ids = {id(f) for f in more}
        rest = [f for f in rest if id(f) not in ids]
        sel += more
        for f in more: want |= fa[id(f)]
    return sel + [f for f in rest if f[0] in ('b', 'F') or not fa[id(f)]]

def _allatoms(p, acc=None):
    if acc is None: acc = set()
    for a in p.atoms():
        if a in acc: continue
        acc.add(a)
        if a.kind == 'ind':
            for q in f_polys(a.a[0]): _allatoms(q, acc)
        elif a.kind in ('fn',):
            for q in a.a[1]:
                if isinstance(q, Poly): _allatoms(q, acc)
        elif a.kind == 'read':
            for q in a.a[1]: _allatoms(q, acc)
    return acc

def _nonneg_of(f):
    """polys known >=0 from a literal fact"""
    if f[0] == 'le': return [-f[1]]
    if f[0] == 'lt': return [-f[1]]
    if f[0] == 'eq': return []
    if f[0] == 'and':
        r = []
        for x in f[1]: r += _nonneg_of(x)
        return r
    return []

def check(facts, timeout=3000, native=None):
    """returns 'unsat' | 'sat' | 'unknown' for the conjunction of facts."""
    for f in facts:
        if f[0] == 'F': return 'unsat'
    facts = [f for f in facts if f[0] != 'T']
    key = (frozenset(f_key(f) for f in facts), timeout, native)
    r = _cache.get(key)
    if r is not None:
        STAT['cache'] += 1
        return r
    t0 = time.time()
    STAT['queries'] += 1
    r = _check(facts, timeout, native)
    STAT['time'] += time.time() - t0
    _cache[key] = r
    return r

def _nonlinear(facts):
    for f in facts:
        for p in f_polys(f):
            for a in _allatoms(p):
                if a.kind == 'fn' and a.a[0] in ('sqrt', 'inv'): return True
            for m in p.d:
                if sum(e for a, e in m if T._alist[a].kind != 'ind') > 1: return True
    return False

def _check(facts, timeout, native):
    nl = _nonlinear(facts)
    en = Enc(False)
    s = z3.Solver(); s.set('timeout', timeout)
    cons = [en.f(f) for f in facts]
    if nl and native != 'lin':
        nn = []
        for f in facts:
            for p in _nonneg_of(f):
                if len(p.d) <= 6: nn.append(p)
        nn = nn[:24]
        # single-atom facts too
        prods = []
        seen = set()
        for a, b in itertools.combinations_with_replacement(nn, 2):
            q = a * b
            if len(q.d) > 12 or q.key() in seen: continue
            seen.add(q.key())
            prods.append(q)
        for q in prods[:300]: cons.append(en.p(q) >= 0)
    # congruence of reads
    reads = {}
    for a in list(en.c):
        if a.kind == 'read': reads.setdefault((a.a[0], len(a.a[1])), []).append(a)
    for grp in reads.values():
        if len(grp) > 8: continue
        for a, b in itertools.combinations(grp, 2):
            cons.append(z3.Implies(z3.And(*[en.p(x) == en.p(y) for x, y in zip(a.a[1], b.a[1])]), en.atom(a) == en.atom(b)))
    i = 0
    s.add(*cons)
    while i < len(en.defs):
        s.add(en.defs[i]); i += 1
    r = str(s.check())
    if r == 'unsat' or not nl: return r
    if native is False or native == 'lin': return r if r == 'unsat' else 'unknown'
    en = Enc(True)
    s = z3.Solver(); s.set('timeout', timeout)
    for f in facts: s.add(en.f(f))
    i = 0
    while i < len(en.defs):
        s.add(en.defs[i]); i += 1
    return str(s.check())

def prove(facts, goal, timeout=3000, native=None):
    """'proved' | 'refuted' (a model of the abstraction exists) | 'unknown'"""
    if goal[0] == 'T': return 'proved'
    fs = relevant_facts(facts, goal)
    if goal[0] == 'and':
        res = 'proved'
        for g in goal[1]:
            r = prove(facts, g, timeout, native)
            if r != 'proved': return r
        return res
    r = check(list(fs) + [Not(goal)], timeout, native)
    if r == 'unsat': return 'proved'
    return 'refuted' if r == 'sat' else 'unknown'

# ---- quantified reasoning: reads are uninterpreted functions, quantified facts are handed to z3 ------------------
class Drop(Exception): pass
class QEnc:
    def __init__(self): self.c = {}; self.fn = {}; self.bound = set(); self.defs = []
    def uf(self, nm, ar, srt):
        k = (nm, ar, srt)
        f = self.fn.get(k)
        if f is None:
            f = self.fn[k] = z3.Function('F_%s_%d' % (nm, len(self.fn)), *ar, z3.IntSort() if srt == 'int' else z3.RealSort())
        return f
    def atom(self, a):
        x = self.c.get(a)
        if x is not None: return x
        dep = bool(self.bound & a.fv)
        k = a.kind
        if k == 'read':
            args = [self.p(i) for i in a.a[1]]
            x = self.uf(a.a[0], (z3.IntSort(),) * len(args), a.sort)(*args) if args else z3.Const(a.a[0], z3.IntSort() if a.sort == 'int' else z3.RealSort())
        elif k == 'ind':
            x = z3.If(self.f(a.a[0]), z3.IntVal(1), z3.IntVal(0))
        elif k == 'fn':
            nm = a.a[0]; xs = [self.p(q) for q in a.a[1] if isinstance(q, Poly)]
            if nm == 'abs': x = z3.If(xs[0] >= 0, xs[0], -xs[0])
            elif nm == 'max': x = z3.If(xs[0] >= xs[1], xs[0], xs[1])
            elif nm == 'min': x = z3.If(xs[0] <= xs[1], xs[0], xs[1])
            else: x = self.uf(nm, tuple(e.sort() for e in xs), a.sort)(*xs)
        elif k == 'sum':
            if dep: raise Drop()
            x = z3.Int('s%d' % a.id) if a.sort == 'int' else z3.Real('s%d' % a.id)
        else: x = z3.Int('a%d' % a.id) if a.sort == 'int' else z3.Real('a%d' % a.id)
        if not dep: self.c[a] = x
        return x
    def p(self, p):
        r = None
        for m, c in p.d.items():
            t = None
            for aid, e in m:
                for _ in range(e):
                    y = self.atom(T._alist[aid]); t = y if t is None else t * y
            if c != 1 or t is None:
                cc = z3.IntVal(c) if isinstance(c, int) else z3.RealVal(str(c))
                t = cc if t is None else cc * t
            r = t if r is None else r + t
        return r if r is not None else z3.IntVal(0)
    def f(self, f):
        t = f[0]
        if t == 'T': return z3.BoolVal(True)
        if t == 'F': return z3.BoolVal(False)
        if t == 'le': return self.p(f[1]) <= 0
        if t == 'lt': return self.p(f[1]) < 0
        if t == 'eq': return self.p(f[1]) == 0
        if t == 'and': return z3.And(*[self.f(x) for x in f[1]])
        if t == 'or': return z3.Or(*[self.f(x) for x in f[1]])
        if t == 'not': return z3.Not(self.f(f[1]))
        if t == 'b': return z3.Bool(f[1])
        if t == 'forall':
            vs = []; ats = []
            for v in f[1]:
                a = v.as_atom(); ats.append(a)
                x = z3.Int('q%d' % a.id); vs.append(x)
            old = set(self.bound); oc = dict(self.c)
            self.bound |= set(ats)
            for a, x in zip(ats, vs): self.c[a] = x
            # cached terms mentioning the bound variable elsewhere must not be reused
            for a in list(self.c):
                if a not in ats and a.fv & set(ats): del self.c[a]
            try: b = self.f(f[2])
            finally:
                self.bound = old
                self.c = oc
            return z3.ForAll(vs, b)
        raise ValueError(f)

def check_q(facts, timeout=3000):
    for f in facts:
        if f[0] == 'F': return 'unsat'
    key = ('q', frozenset(f_key(f) for f in facts), timeout)
    r = _cache.get(key)
    if r is not None: return r
    t0 = time.time(); STAT['queries'] += 1
    en = QEnc(); s = z3.Solver(); s.set('timeout', timeout); s.set('smt.mbqi', False)
    for f in facts:
        try: s.add(en.f(f))
        except Drop: pass
    r = str(s.check())
    STAT['time'] += time.time() - t0
    _cache[key] = r
    return r
