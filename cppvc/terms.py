"""Exact term algebra: multivariate polynomials over opaque atoms, with canonical sums, indicators and inverses.

Every scalar of the verified program is a Poly over Q.  Equality of normal forms implies equality of the
denoted mathematical values (the converse does not hold; a difference is decided by smt.py or refuted by evaluation).
"""
from fractions import Fraction as Q
import itertools, math

class Atom:
    __slots__ = ('key', 'id', 'sort', 'kind', 'a', 'h', 'fv', 'bases')
    def __repr__(self): return show_atom(self)

class G:
    """image in GF(2^61+24039) of a generic real input (identity testing mode), with a floating-point shadow that decides order"""
    __slots__ = ('v', 'f')
    PR = (1 << 61) + 24039
    def __init__(self, v, f=None): self.v = v; self.f = float(v) if f is None else f
    @staticmethod
    def of(x):
        if isinstance(x, G): return x.v
        if isinstance(x, int): return x % G.PR
        return x.numerator * pow(x.denominator, G.PR - 2, G.PR) % G.PR
    @staticmethod
    def lift(x): return x if isinstance(x, G) else G(G.of(x), float(x))
    def __add__(self, o):
        if not isinstance(o, G): o = G.lift(o)
        return G((self.v + o.v) % G.PR, self.f + o.f)
    __radd__ = __add__
    def __sub__(self, o):
        if not isinstance(o, G): o = G.lift(o)
        return G((self.v - o.v) % G.PR, self.f - o.f)
    def __rsub__(self, o): return (-self) + o
    def __mul__(self, o):
        if not isinstance(o, G): o = G.lift(o)
        return G(self.v * o.v % G.PR, self.f * o.f)
    __rmul__ = __mul__
    def __neg__(self): return G(-self.v % G.PR, -self.f)
    def inv(self):
        if self.v == 0: raise ZeroDivisionError('GF inverse of zero')
        return G(pow(self.v, G.PR - 2, G.PR), 1.0 / self.f if self.f else float('inf'))
    def __truediv__(self, o): return self * G.lift(o).inv()
    def __rtruediv__(self, o): return self.inv() * o
    def sqrt(self):
        if self.v and pow(self.v, (G.PR - 1) // 2, G.PR) != 1: raise NonSquare()
        return G(pow(self.v, (G.PR + 1) // 4, G.PR), math.sqrt(self.f) if self.f >= 0 else float('nan'))
    def __eq__(self, o): return self.v == G.of(o) if isinstance(o, (G, int, Q)) else False
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.v)
    def _cmp(self, o):
        """sign of self - o: exact zero in GF(p), else the shadow's sign when it is clear of rounding error"""
        o = G.lift(o)
        if self.v == o.v: return 0
        if math.isinf(self.f) != math.isinf(o.f): return 1 if self.f > o.f else -1
        d = self.f - o.f
        if not abs(d) > 1e-9 * (abs(self.f) + abs(o.f)): raise GFOrder('order of generic inputs too close to decide')
        return 1 if d > 0 else -1
    def __lt__(self, o): return self._cmp(o) < 0
    def __le__(self, o): return self._cmp(o) <= 0
    def __gt__(self, o): return self._cmp(o) > 0
    def __ge__(self, o): return self._cmp(o) >= 0
    def __abs__(self): return -self if self.v and self < 0 else self
    def __float__(self): return self.f
    def __repr__(self): return 'g%d' % self.v
class NonSquare(Exception): pass
class GFOrder(Exception): pass
GFMODE = [False]     # square roots of constants are taken in GF(p)
_oracle = {}
def oracle(name, args):
    """value of an uninterpreted function at generic arguments: a fixed pseudo-random function"""
    import hashlib
    k = (name,) + tuple(G.of(a) for a in args)
    if k not in _oracle: _oracle[k] = (lambda h: G(h, h / 2.0 ** 56))(int.from_bytes(hashlib.sha256(repr(k).encode()).digest()[:7], 'big'))
    return _oracle[k]

_atoms = {}
_alist = []

def _mk(kind, a, sort, key):
    k = (kind,) + key
    at = _atoms.get(k)
    if at is None:
        at = Atom()
        at.key = k; at.id = len(_alist); at.sort = sort; at.kind = kind; at.a = a
        at.h = 0
        fv = set(); bases = set()
        def addp(p):
            for x in p.atoms():
                if x.h > at.h: at.h = x.h
                fv.update(x.fv); bases.update(x.bases)
        if kind == 'var':
            fv.add(at)
        elif kind == 'bv':
            fv.add(at)
        elif kind == 'read':
            bases.add(a[0])
            for p in a[1]: addp(p)
        elif kind == 'fn':
            for p in a[1]:
                if isinstance(p, Poly): addp(p)
        elif kind == 'ind':
            for p in f_polys(a[0]): addp(p)
        elif kind == 'sum':
            bv, lo, hi, body = a
            addp(lo); addp(hi); addp(body)
            fv.discard(bv)
            # free occurrences of bv in lo/hi cannot happen by construction
            at.h = max(at.h, bv.a[0])
        at.fv = frozenset(fv); at.bases = frozenset(bases)
        _atoms[k] = at
        _alist.append(at)
    return at

class Poly:
    __slots__ = ('d', '_k', '_at', '_h')
    def __init__(self, d):
        self.d = d; self._k = None; self._at = None; self._h = None
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.d.items(), key=lambda kv: (kv[0],)))
        return self._k
    def __hash__(self):
        if self._h is None: self._h = hash(self.key())
        return self._h
    def __eq__(self, o):
        o = P(o); return self.d == o.d
    def __ne__(self, o): return not self == o
    def atoms(self):
        if self._at is None:
            s = set()
            for m in self.d:
                for aid, e in m: s.add(aid)
            self._at = [_alist[i] for i in sorted(s)]
        return self._at
    def fv(self):
        r = set()
        for a in self.atoms(): r |= a.fv
        return r
    def bases(self):
        r = set()
        for a in self.atoms(): r |= a.bases
        return r
    def h(self): return max([a.h for a in self.atoms()], default=0)
    def is_const(self): return not self.d or (len(self.d) == 1 and () in self.d)
    def const(self):
        if not self.d: return 0
        if len(self.d) == 1 and () in self.d: return self.d[()]
        return None
    def as_atom(self):
        if len(self.d) == 1:
            (m, c), = self.d.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1: return _alist[m[0][0]]
        return None
    def sort(self):
        for m, c in self.d.items():
            if isinstance(c, G) or isinstance(c, Q) and c.denominator != 1: return 'real'
            for aid, e in m:
                if _alist[aid].sort != 'int': return 'real'
        return 'int'
    def __add__(self, o):
        o = P(o)
        if not o.d: return self
        if not self.d: return o
        a, b = (self.d, o.d) if len(self.d) >= len(o.d) else (o.d, self.d)
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None: r[m] = c
            else:
                v = v + c
                if v == 0: del r[m]
                else: r[m] = v
        return Poly(r)
    __radd__ = __add__
    def __neg__(self): return Poly({m: -c for m, c in self.d.items()})
    def __sub__(self, o): return self + (-P(o))
    def __rsub__(self, o): return P(o) - self
    def scale(self, c):
        if c == 0: return ZERO
        if c == 1: return self
        return Poly({m: _n(v * c) for m, v in self.d.items()})
    def __mul__(self, o):
        o = P(o)
        c = o.const()
        if c is not None: return self.scale(c)
        c = self.const()
        if c is not None: return o.scale(c)
        r = {}
        special = False
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m, sp = _mmul(m1, m2)
                special = special or sp
                v = r.get(m)
                x = c1 * c2
                if v is None: r[m] = x
                else:
                    v = v + x
                    if v == 0: del r[m]
                    else: r[m] = v
        p = Poly({m: _n(c) for m, c in r.items()})
        return reduce_special(p) if special else p
    __rmul__ = __mul__
    def __pow__(self, n):
        r = ONE
        for _ in range(n): r = r * self
        return r
    def __truediv__(self, o): return self * inv(P(o))
    def __rtruediv__(self, o): return P(o) * inv(self)
    def __repr__(self): return show(self)
    def __bool__(self): raise TypeError('Poly used as bool')

def _n(c):
    if isinstance(c, Q) and c.denominator == 1: return c.numerator
    return c

def _mmul(m1, m2):
    if not m1: return m2, False
    if not m2: return m1, False
    d = dict(m1); sp = False
    for a, e in m2:
        if a in d:
            d[a] += e
            if _alist[a].kind in ('ind', 'fn'): sp = True
        else:
            d[a] = e
            if _alist[a].kind == 'fn': sp = True
    for a in d:
        if not sp and _alist[a].kind == 'fn': sp = True
    return tuple(sorted(d.items())), sp

ZERO = Poly({}); ONE = Poly({(): 1})

def P(x):
    if isinstance(x, Poly): return x
    if isinstance(x, bool): return ONE if x else ZERO
    if isinstance(x, (int, Q)): return Poly({(): _n(x)}) if x != 0 else ZERO
    if isinstance(x, G): return Poly({(): x}) if x.v else ZERO
    if isinstance(x, Atom): return Poly({((x.id, 1),): 1})
    if isinstance(x, float): return P(Q(x))
    raise TypeError('P(%r)' % (x,))

def atom_poly(a): return Poly({((a.id, 1),): 1})

_fresh = itertools.count()
def var(name, sort='real'): return atom_poly(_mk('var', (name,), sort, (name, sort)))
def fresh(name, sort='real'): return var('%s#%d' % (name, next(_fresh)), sort)
def read(base, idx, sort='real'):
    idx = tuple(P(i) for i in idx)
    return atom_poly(_mk('read', (base, idx), sort, (base, tuple(i.key() for i in idx), sort)))
def fn(name, args, sort='real'):
    args = tuple(P(a) if not isinstance(a, str) else a for a in args)
    if name == 'abs' and args[0].const() is not None and not isinstance(args[0].const(), G): return P(abs(args[0].const()))
    if any(isinstance(a, Poly) and isinstance(a.const(), G) for a in args):
        if name in ('max', 'min', 'abs') and all(a.const() is not None for a in args):
            cs = [a.const() for a in args]; return P(abs(cs[0]) if name == 'abs' else (max if name == 'max' else min)(cs))
        if all(isinstance(a, str) or a.const() is not None for a in args): return P(oracle(name, [a.const() for a in args if not isinstance(a, str)]))
    return atom_poly(_mk('fn', (name, args), sort, (name, tuple(a if isinstance(a, str) else a.key() for a in args), sort)))

# ---- inverses / roots --------------------------------------------------------------
def inv(p):
    c = p.const()
    if c is not None:
        if c == 0: return P(G(G.of(oracle('inv', [0])), math.inf)) if GFMODE[0] else fn('inv', (ZERO,))
        if isinstance(c, G): return P(c.inv())
        return P(Q(1) / Q(c))
    if len(p.d) == 1:       # monomial: invert factor by factor
        (m, c), = p.d.items()
        r = P(Q(1) / Q(c))
        for aid, e in m:
            a = _alist[aid]
            if a.kind == 'fn' and a.a[0] == 'inv':
                r = r * (a.a[1][0] ** e)
            elif a.kind == 'fn' and a.a[0] == 'sqrt' and a.a[1][0].const() is not None:
                r = r * ((atom_poly(a).scale(Q(1) / Q(a.a[1][0].const()))) ** e)
            elif a.kind == 'fn' and a.a[0] == 'cbrt' and a.a[1][0].const() is not None:
                r = r * ((atom_poly(a) ** 2).scale(Q(1) / Q(a.a[1][0].const())) ** e)
            else:
                r = r * (fn('inv', (atom_poly(a),)) ** e)
        return r
    # make content 1 / leading coefficient positive-normalised
    lead = p.key()[0][1]
    q = p.scale(Q(1) / Q(lead))
    # linear in a single constant root: rationalise a + b*sqrt(c)
    ats = q.atoms()
    if len(ats) == 1 and ats[0].kind == 'fn' and ats[0].a[0] == 'sqrt' and ats[0].a[1][0].const() is not None:
        s = ats[0]; a0 = q.d.get((), 0); b0 = q.d.get(((s.id, 1),), 0); c0 = s.a[1][0].const()
        den = Q(a0) ** 2 - Q(b0) ** 2 * Q(c0)
        if den != 0:
            return (P(a0) - atom_poly(s).scale(b0)).scale(Q(1) / den).scale(Q(1) / Q(lead))
    return fn('inv', (q,)).scale(Q(1) / Q(lead))

def _isq(n):
    r = math.isqrt(n); return r if r * r == n else None

def sqrt(p):
    c = p.const()
    if isinstance(c, G): return P(c.sqrt())
    if c is not None and GFMODE[0] and c >= 0: return P(G.lift(c).sqrt())
    if c is not None and c >= 0:
        c = Q(c)
        a, b = _isq(c.numerator), _isq(c.denominator)
        if a is not None and b is not None: return P(Q(a, b))
        # sqrt(n/d) = sqrt(n*d)/d with square-free part extracted
        n = c.numerator * c.denominator; k = 1; f = 2
        while f * f <= n and f < 10000:
            while n % (f * f) == 0: n //= f * f; k *= f
            f += 1
        return fn('sqrt', (P(n),)).scale(Q(k, c.denominator))
    return fn('sqrt', (p,))

def reduce_special(p):
    """ind^2=ind, sqrt(x)^2=x, inv(a)*a=1, inv(q)*q=1 for single atoms; products of inverse atoms are kept."""
    changed = True
    rounds = 0
    while changed and rounds < 12:
        changed = False; rounds += 1
        out = {}; extra = []
        for m, c in p.d.items():
            newm = None; fac = None
            md = dict(m)
            for aid, e in m:
                a = _alist[aid]
                if a.kind == 'ind':
                    if e > 1:
                        md[aid] = 1; newm = md
                elif a.kind == 'fn':
                    nm = a.a[0]
                    if nm == 'sqrt' and e >= 2:
                        md[aid] = e % 2
                        if md[aid] == 0: del md[aid]
                        fac = a.a[1][0] ** (e // 2); newm = md
                        break
                    if nm == 'cbrt' and e >= 3:
                        md[aid] = e % 3
                        if md[aid] == 0: del md[aid]
                        fac = a.a[1][0] ** (e // 3); newm = md
                        break
                    if nm == 'inv':
                        q = a.a[1][0]
                        qa = q.as_atom()
                        if qa is not None and qa.id in md:
                            k = min(e, md[qa.id])
                            for z in (aid, qa.id):
                                md[z] -= k
                                if md[z] == 0: del md[z]
                            newm = md
                            break
                    if nm == 'abs' and e >= 2:
                        md[aid] = e % 2
                        if md[aid] == 0: del md[aid]
                        fac = a.a[1][0] ** (2 * (e // 2)); newm = md
                        break
            if newm is None:
                v = out.get(m)
                if v is None: out[m] = c
                else:
                    v += c
                    if v == 0: del out[m]
                    else: out[m] = v
            else:
                changed = True
                t = Poly({tuple(sorted(newm.items())): c})
                if fac is not None:
                    t = _rawmul(t, fac)
                extra.append(t)
        p = Poly({m: _n(c) for m, c in out.items()})
        for t in extra: p = p + t
    return p

def _rawmul(a, b):
    r = {}
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m, _ = _mmul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return Poly({m: _n(c) for m, c in r.items() if c != 0})

# ---- formulas ----------------------------------------------------------------------
# representation: ('T',) ('F',) ('le',p) ('lt',p) ('eq',p) ('and',fs) ('or',fs) ('not',f) ('b',name) ('forall',vars,f)
TRUE = ('T',); FALSE = ('F',)

class F:
    pass

def f_polys(f):
    t = f[0]
    if t in ('le', 'lt', 'eq'): return [f[1]]
    if t in ('and', 'or'):
        r = []
        for x in f[1]: r += f_polys(x)
        return r
    if t == 'not': return f_polys(f[1])
    if t == 'forall': return f_polys(f[2])
    return []

def f_key(f):
    t = f[0]
    if t in ('le', 'lt', 'eq'): return (t, f[1].key())
    if t in ('and', 'or'): return (t, tuple(f_key(x) for x in f[1]))
    if t == 'not': return (t, f_key(f[1]))
    if t == 'forall': return (t, tuple(v.key() for v in f[1]), f_key(f[2]))
    return f

def _norm_scale(p, signed):
    """scale so that content is normalised; if not signed also fix the sign."""
    if not p.d: return p
    den = 1
    for c in p.d.values():
        if isinstance(c, Q): den = den * c.denominator // math.gcd(den, c.denominator)
    ints = [int(c * den) for c in p.d.values()]
    g = 0
    for i in ints: g = math.gcd(g, abs(i))
    s = Q(den, g)
    if not signed and p.key()[-1][1] < 0: s = -s
    return p.scale(s)

def le0(p):
    c = p.const()
    if c is not None: return TRUE if c <= 0 else FALSE
    if p.sort() == 'int':
        # tighten constant: g*q + c <= 0
        nc = {m: v for m, v in p.d.items() if m != ()}
        g = 0
        for v in nc.values(): g = math.gcd(g, abs(v))
        c0 = p.d.get((), 0)
        q = Poly({m: v // g for m, v in nc.items()}) + P(-((-c0) // g) if True else 0)
        return ('le', q)
    return ('le', _norm_scale(p, True))
def lt0(p):
    c = p.const()
    if c is not None: return TRUE if c < 0 else FALSE
    if p.sort() == 'int': return le0(p + 1)
    return ('lt', _norm_scale(p, True))
def eq0(p):
    c = p.const()
    if c is not None: return TRUE if c == 0 else FALSE
    if p.sort() == 'int':
        nc = [v for m, v in p.d.items() if m != ()]
        g = 0
        for v in nc: g = math.gcd(g, abs(v))
        if p.d.get((), 0) % g: return FALSE
    return ('eq', _norm_scale(p, False))
def le(a, b): return le0(P(a) - P(b))
def lt(a, b): return lt0(P(a) - P(b))
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)
def eq(a, b): return eq0(P(a) - P(b))
def ne(a, b): return Not(eq(a, b))
def Not(f):
    t = f[0]
    if t == 'T': return FALSE
    if t == 'F': return TRUE
    if t == 'not': return f[1]
    if t == 'le': return lt0(-f[1])
    if t == 'lt': return le0(-f[1])
    return ('not', f)
def And(*fs):
    out = []; seen = set()
    for f in fs:
        if f[0] == 'F': return FALSE
        if f[0] == 'T': continue
        for g in (f[1] if f[0] == 'and' else (f,)):
            k = f_key(g)
            if k in seen: continue
            seen.add(k); out.append(g)
    for g in out:
        if f_key(Not(g)) in seen: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    out.sort(key=lambda g: repr(f_key(g)))
    return ('and', tuple(out))
def Or(*fs):
    out = []; seen = set()
    for f in fs:
        if f[0] == 'T': return TRUE
        if f[0] == 'F': continue
        for g in (f[1] if f[0] == 'or' else (f,)):
            k = f_key(g)
            if k in seen: continue
            seen.add(k); out.append(g)
    for g in out:
        if f_key(Not(g)) in seen: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    out.sort(key=lambda g: repr(f_key(g)))
    return ('or', tuple(out))
def Implies(a, b): return Or(Not(a), b)
def boolvar(n): return ('b', n)
def Forall(vs, f): return ('forall', tuple(vs), f) if f[0] not in 'TF' else f

def ind(f):
    t = f[0]
    if t == 'T': return ONE
    if t == 'F': return ZERO
    if t == 'not': return ONE - ind(f[1])
    if t == 'and':
        r = ONE
        for x in f[1]: r = r * ind(x)
        return r
    if t == 'or':
        r = ONE
        for x in f[1]: r = r * (ONE - ind(x))
        return ONE - r
    # canonical polarity for orderings: keep 'le'; lt p  ==  not (le -p)
    if t == 'lt': return ONE - ind(('le', _norm_scale(-f[1], True)))
    if t == 'le' and f[1].sort() == 'int':
        nc = [kv for kv in f[1].key() if kv[0] != ()]
        if nc and nc[-1][1] < 0:
            g = le0(1 - f[1])
            return ONE - atom_poly(_mk('ind', (g,), 'int', (f_key(g),)))
    return atom_poly(_mk('ind', (f,), 'int', (f_key(f),)))

def ite(c, a, b):
    a, b = P(a), P(b)
    if c[0] == 'T': return a
    if c[0] == 'F': return b
    if a == b: return a
    i = ind(c)
    return i * a + (ONE - i) * b

# ---- sums --------------------------------------------------------------------------
def Sum(x, lo, hi, body):
    """sum_{x=lo}^{hi-1} body ; x a variable Poly (int).  Empty when hi<=lo."""
    lo, hi, body = P(lo), P(hi), P(body)
    xa = x.as_atom()
    n = (hi - lo).const()
    if n is not None and n <= 0: return ZERO
    if n is not None and n <= 64:
        r = ZERO
        for k in range(int(n)):
            r = r + subst(body, {xa: lo + k})
        return r
    out = ZERO
    groups = {}
    for m, c in body.d.items():
        inm = []; outm = []
        for aid, e in m:
            (inm if xa in _alist[aid].fv else outm).append((aid, e))
        groups.setdefault(tuple(inm), []).append((tuple(outm), c))
    for inm, outs in groups.items():
        coef = Poly({})
        for om, c in outs: coef = coef + Poly({om: c})
        out = out + coef * _sum1(xa, lo, hi, inm)
    return out

def _sum1(xa, lo, hi, inm):
    # Kronecker collapse
    for aid, e in inm:
        a = _alist[aid]
        if a.kind == 'ind' and a.a[0][0] == 'eq':
            p = a.a[0][1]
            c = p.d.get(((xa.id, 1),))
            if c is not None and abs(c) == 1:
                rest = p - atom_poly(xa).scale(c)
                if xa not in rest.fv():
                    t = rest.scale(-1) if c == 1 else rest
                    other = tuple((b, k) for b, k in inm if b != aid)
                    return ind(le(lo, t)) * ind(lt(t, hi)) * subst(Poly({other: 1}), {xa: t})
    # range indicators [le0(p)] with p linear +-x: tighten the range when syntactically obvious
    if xa.sort != 'int': raise ValueError
    body = Poly({inm: 1})
    h = 1 + max([_alist[a].h for a, e in inm], default=0)
    bv = _mk('bv', (h,), 'int', (h,))
    b2 = subst(body, {xa: atom_poly(bv)})
    if b2.is_const() and not inm:
        b2 = ONE
    sort = 'int' if b2.sort() == 'int' else 'real'
    return atom_poly(_mk('sum', (bv, lo, hi, b2), sort, (h, lo.key(), hi.key(), b2.key())))

# ---- substitution ------------------------------------------------------------------
def subst(p, m, readmap=None, memo=None):
    """m: Atom->Poly.  readmap: optional function(base, idx polys, sort)->Poly or None for reads."""
    if not isinstance(p, Poly): p = P(p)
    if memo is None: memo = {}
    keys = set(m)
    deepkeys = [k for k in keys if k.kind not in ('var', 'bv')]
    cm = {}
    def hit(a):
        if a.fv & keys or a in keys or (readmap is not None and a.bases): return True
        if not deepkeys: return False
        r = cm.get(a)
        if r is None:
            r = contains_any(a, keys); cm[a] = r
        return r
    def sa(a):
        r = memo.get(a)
        if r is not None: return r
        if a in m: r = m[a]
        elif not hit(a): r = atom_poly(a)
        elif a.kind == 'read':
            idx = tuple(go(i) for i in a.a[1])
            r = None
            if readmap is not None: r = readmap(a.a[0], idx, a.sort)
            if r is None: r = read(a.a[0], idx, a.sort)
        elif a.kind == 'fn':
            r = rebuild_fn(a.a[0], tuple(go(x) if isinstance(x, Poly) else x for x in a.a[1]), a.sort)
        elif a.kind == 'ind':
            r = ind(gof(a.a[0]))
        elif a.kind == 'sum':
            bv, lo, hi, body = a.a
            v = fresh('s', 'int')
            b = subst(body, {bv: v}) 
            r = Sum(v, go(lo), go(hi), subst(b, m, readmap))
        else: r = atom_poly(a)
        memo[a] = r
        return r
    def go(q):
        if not any(hit(a) for a in q.atoms()): return q
        out = ZERO
        acc = {}
        for mm, c in q.d.items():
            changed = False; t = None; keep = []
            for aid, e in mm:
                a = _alist[aid]
                if hit(a):
                    s = sa(a)
                    pe = s ** e if e > 1 else s
                    t = pe if t is None else t * pe
                else: keep.append((aid, e))
            if t is None:
                acc[mm] = acc.get(mm, 0) + c
            else:
                out = out + (t * Poly({tuple(keep): c}))
        if acc: out = out + Poly({k: v for k, v in acc.items() if v != 0})
        return out
    def gof(f): return f_map(f, go)
    return go(p)

def contains_any(a, keys, memo=None):
    if memo is None: memo = {}
    r = memo.get(a)
    if r is not None: return r
    if a in keys: memo[a] = True; return True
    ps = []
    if a.kind == 'read': ps = a.a[1]
    elif a.kind == 'fn': ps = [x for x in a.a[1] if isinstance(x, Poly)]
    elif a.kind == 'ind': ps = f_polys(a.a[0])
    elif a.kind == 'sum': ps = a.a[1:]
    r = any(contains_any(x, keys, memo) for p in ps for x in p.atoms())
    memo[a] = r
    return r

def f_map(f, go):
    t = f[0]
    if t == 'le': return le0(go(f[1]))
    if t == 'lt': return lt0(go(f[1]))
    if t == 'eq': return eq0(go(f[1]))
    if t == 'and': return And(*[f_map(x, go) for x in f[1]])
    if t == 'or': return Or(*[f_map(x, go) for x in f[1]])
    if t == 'not': return Not(f_map(f[1], go))
    if t == 'forall': return Forall(f[1], f_map(f[2], go))
    return f

def f_subst(f, m, readmap=None):
    return f_map(f, lambda p: subst(p, m, readmap))

def f_fv(f):
    r = set()
    for p in f_polys(f): r |= p.fv()
    return r
def f_bases(f):
    r = set()
    for p in f_polys(f): r |= p.bases()
    return r

idiv_hook = None
def rebuild_fn(name, args, sort):
    if name == 'inv': return inv(args[0])
    if name == 'sqrt': return sqrt(args[0])
    if name in ('idiv', 'imod') and all(a.const() is not None for a in args):
        a, b = int(args[0].const()), int(args[1].const())
        if b:
            q = abs(a) // abs(b) * (1 if (a >= 0) == (b > 0) else -1)
            return P(q) if name == 'idiv' else P(a - b * q)
    if name == 'idiv' and idiv_hook is not None: return idiv_hook(*args)
    if name == 'imod' and idiv_hook is not None: return args[0] - args[1] * idiv_hook(*args)
    return fn(name, args, sort)

# ---- printing ----------------------------------------------------------------------
def show_atom(a):
    k = a.kind
    if k == 'var': return a.a[0]
    if k == 'bv': return '$%d' % a.a[0]
    if k == 'read': return '%s[%s]' % (a.a[0], ','.join(map(show, a.a[1])))
    if k == 'fn': return '%s(%s)' % (a.a[0], ','.join(x if isinstance(x, str) else show(x) for x in a.a[1]))
    if k == 'ind': return '[%s]' % show_f(a.a[0])
    if k == 'sum': return 'SUM{%s=%s..%s}(%s)' % (show_atom(a.a[0]), show(a.a[1]), show(a.a[2]), show(a.a[3]))

def show(p):
    if not p.d: return '0'
    out = []
    for m, c in p.key():
        s = '*'.join(show_atom(_alist[a]) + ('^%d' % e if e > 1 else '') for a, e in m)
        if not s: s = str(c)
        elif c == -1: s = '-' + s
        elif c != 1: s = '%s*%s' % (c, s)
        out.append(s)
        if len(out) > 40: out.append('...(%d terms)' % len(p.d)); break
    return ' + '.join(out).replace('+ -', '- ')

def show_f(f):
    t = f[0]
    if t == 'T': return 'true'
    if t == 'F': return 'false'
    if t == 'le': return show(f[1]) + ' <= 0'
    if t == 'lt': return show(f[1]) + ' < 0'
    if t == 'eq': return show(f[1]) + ' == 0'
    if t == 'and': return '(' + ' && '.join(map(show_f, f[1])) + ')'
    if t == 'or': return '(' + ' || '.join(map(show_f, f[1])) + ')'
    if t == 'not': return '!(' + show_f(f[1]) + ')'
    if t == 'forall': return 'forall %s. %s' % (','.join(map(show, f[1])), show_f(f[2]))
    return str(f[1])

# ---- clearing denominators ---------------------------------------------------------
def clear_inv(p, limit=40):
    """multiply p by the arguments of its inverse atoms until none is left; returns (polynomial, [denominators])."""
    dens = []
    for _ in range(limit):
        invs = [a for a in p.atoms() if a.kind == 'fn' and a.a[0] == 'inv']
        if not invs: break
        a = max(invs, key=lambda x: x.id)     # outermost first (nested inverses were created earlier)
        q = a.a[1][0]
        deg = 0
        for m in p.d:
            for aid, e in m:
                if aid == a.id: deg = max(deg, e)
        parts = {}
        for m, c in p.d.items():
            e = dict(m).get(a.id, 0)
            mm = tuple(x for x in m if x[0] != a.id)
            parts.setdefault(e, {})[mm] = c
        r = ZERO
        for e, d in parts.items(): r = r + Poly(d) * (q ** (deg - e))
        dens.append(q)
        p = r
    return p, dens

def diff(p, x, memo=None):
    """derivative of a term with respect to the variable atom x"""
    if memo is None: memo = {}
    def da(a):
        if a is x: return ONE
        if a in memo: return memo[a]
        r = ZERO
        if a.kind == 'fn':
            nm = a.a[0]; xs = a.a[1]
            ds = [go(q) if isinstance(q, Poly) else ZERO for q in xs]
            if any(d.d for d in ds):
                me = atom_poly(a)
                if nm == 'inv': r = -(me * me * ds[0])
                elif nm == 'sqrt': r = ds[0] * inv(me) * P(Q(1, 2))
                elif nm == 'log': r = ds[0] * inv(xs[0])
                elif nm == 'exp': r = ds[0] * me
                elif nm == 'tanh': r = ds[0] * (ONE - me * me)
                else: raise ValueError('derivative of ' + nm)
        elif a.kind == 'sum': raise ValueError('derivative of a sum')
        memo[a] = r
        return r
    def go(q):
        r = ZERO
        for m, c in q.d.items():
            for k, (aid, e) in enumerate(m):
                d = da(_alist[aid])
                if d.d:
                    rest = m[:k] + (((aid, e - 1),) if e > 1 else ()) + m[k + 1:]
                    r = r + Poly({rest: c * e}) * d
        return r
    return go(P(p))
