"""Loops with symbolic trip count: closed-form invariants are inferred for every modified component, then used as summary."""
from terms import *
import terms as T
from arrays import *
import arrays as A
from interp import *
from streams import TextV, seg_map, seg_terms

# component paths: ('f',name) ('c',idx) within ArrC, ('n',) ('leaf', suffix) handled by flatten of bundles
def flat_val(v, path, out):
    if isinstance(v, Poly) or isinstance(v, LeafArr): out[path] = v
    elif isinstance(v, Obj):
        for k, x in v.f.items(): flat_val(x, path + (('f', k),), out)
    elif isinstance(v, ArrC):
        out[path + (('len',),)] = len(v.v)
        for i, x in enumerate(v.v): flat_val(x, path + (('c', i),), out)
    elif isinstance(v, ArrS):
        if v.pre: 
            raise Unsupported('array view in store')
        out[path + (('n',),)] = v.n
        flat_b(v.b, path + (('b',),), out)
    else: out[path] = v
def flat_b(b, path, out):
    if isinstance(b, LeafArr): out[path] = b
    elif isinstance(b, BObj):
        for k, x in b.f.items(): flat_b(x, path + (('f', k),), out)
    elif isinstance(b, BArr):
        out[path + (('ln',),)] = b.ln
        flat_b(b.el, path + (('el',),), out)
def set_comp(v, path, x):
    if not path: return x
    p = path[0]
    if isinstance(v, Obj): return v.with_(p[1], set_comp(v.f[p[1]], path[1:], x))
    if isinstance(v, ArrC):
        l = list(v.v); l[p[1]] = set_comp(l[p[1]], path[1:], x)
        return ArrC(l, v.et)
    if isinstance(v, ArrS):
        if p[0] == 'n': return ArrS(x, v.b, v.pre, v.et)
        return ArrS(v.n, set_b(v.b, path[1:], x), v.pre, v.et)
    raise Unsupported('set_comp')
def set_b(b, path, x):
    if not path: return x
    p = path[0]
    if isinstance(b, BObj):
        d = dict(b.f); d[p[1]] = set_b(d[p[1]], path[1:], x); return BObj(b.cls, d)
    if p[0] == 'ln': return BArr(x, b.el, b.et)
    return BArr(b.ln, set_b(b.el, path[1:], x), b.et)

def normalise(it, store):
    for r, v in list(store.items()):
        if isinstance(v, ArrS) and v.pre: store[r] = rebase(v)
        elif isinstance(v, Obj):
            store[r] = norm_obj(v)
def norm_obj(v):
    ch = None
    for k, x in v.f.items():
        y = rebase(x) if isinstance(x, ArrS) and x.pre else (norm_obj(x) if isinstance(x, Obj) else x)
        if y is not x:
            if ch is None: ch = dict(v.f)
            ch[k] = y
    return v if ch is None else Obj(v.cls, ch)

def diff(it, s0, s1):
    """paths changed in roots of s0; raises ShapeChange(root) when the shape differs"""
    ch = {}
    for r, a in s0.items():
        b = s1.get(r)
        if a is b or b is None: continue
        if isinstance(b, ArrS) and b.pre: b = rebase(b); s1[r] = b
        if isinstance(b, Obj): b = norm_obj(b); s1[r] = b
        fa, fb = {}, {}
        flat_val(a, (), fa); flat_val(b, (), fb)
        if fa.keys() != fb.keys() : raise ShapeChange(r)
        for p in fa:
            x, y = fa[p], fb[p]
            if x is y: continue
            if isinstance(x, int) and isinstance(y, int):
                if x != y: raise ShapeChange(r)
                continue
            if isinstance(x, Poly) and isinstance(y, Poly) and x == y: continue
            if isinstance(x, TextV) and x == y: continue
            if isinstance(x, tuple) and isinstance(y, tuple) and x == y: continue
            ch[(r, p)] = y
    return ch
class ShapeChange(Exception):
    def __init__(self, r): self.root = r

def lift_shape(v, w):
    """make v's shape symbolic where it differs from w"""
    if isinstance(v, (ArrC, ArrS)) or isinstance(w, (ArrC, ArrS)):
        if isinstance(v, ArrC):
            if isinstance(w, ArrC) and len(w.v) == len(v.v):
                try: return ArrC([lift_shape(x, y) for x, y in zip(v.v, w.v)], v.et)
                except Unsupported: pass
            if v.et is None and getattr(w, 'et', None) is not None: v = ArrC(v.v, w.et)
            return lift(v)
        return v
    if isinstance(v, Obj) and isinstance(w, Obj): return Obj(v.cls, {k: lift_shape(v.f[k], w.f[k]) for k in v.f})
    if type(v) is type(w) or isinstance(v, Uninit): return v if not isinstance(v, Uninit) else w
    if isinstance(v, tuple) and isinstance(w, Poly): return ind(v)
    return v

def body_once(it, cond, inc, body, node, fb, base, post):
    """one iteration from current store; returns (conts merged into it.store or None, breaks, returns, condition formula)"""
    c = TRUE
    if not post:
        c = it.cond_f(cond); it.assume(c)
    b1 = len(it.facts); basef = list(it.facts)
    ob = it.run_part(body)
    conts = []; brk = []; ret = []
    for o in ob:
        if o.kind == 'break': brk.append((o.facts[b1 - fb:], o.store))
        elif o.kind == 'continue': conts.append((o.facts[b1 - fb:], o.store))
        else: ret.append((o, o.facts[b1 - fb:]))
    if it.store is not None: conts.append((it.facts[b1:], it.store))
    if not conts:
        it.store = None
        return None, brk, ret, c, []
    it.join(conts, basef)
    added = it.facts[b1:]
    it.run_part(inc)
    if post:
        c = it.cond_f(cond)
    return it.store, brk, ret, c, added

def symbolic(it, cond, inc, body, node, post, omp, done):
    it.symdepth += 1
    try: return _symbolic(it, cond, inc, body, node, post, omp, done)
    finally: it.symdepth -= 1
def _symbolic(it, cond, inc, body, node, post, omp, done):
    """returns (outs, exits)"""
    fr = it.frames[-1]; fb = fr['base']
    base = len(it.facts); basef = list(it.facts)
    S0 = dict(it.store)
    normalise(it, S0)
    rec0 = it.record; snap = tuple(set(x) for x in it.invsyms)
    if post: raise NeedInvariant('do-while loop with symbolic condition', node)
    envs = [dict(f['env']) for f in it.frames]
    def restore_env():
        for f, e in zip(it.frames, envs): f['env'] = dict(e)
    W = seed_writes(it, node, S0)      # (root,path) -> havoc symbol
    rounds = 0
    it.record = False
    nb0 = len(it.obls)
    try:
        while True:
            rounds += 1
            if rounds > 12: raise Unsupported('loop write set does not stabilise', node)
            S = dict(S0)
            syms = {}
            for (r, p), kind in W.items():
                S[r] = set_comp(S[r], p, None) if False else S[r]
            H = {}
            for (r, p), (sort, et) in W.items():
                if sort == 'leaf':
                    old = {}; flat_val(S[r], (), old)
                    h = LeafArr(('sym', fresh_name('H')), (), old[p].sort)
                    H[(r, p)] = h
                elif sort == 'bool':
                    h = boolvar(fresh_name('Hb')); H[(r, p)] = h
                elif sort == 'text':
                    h = TextV((('hole', fresh_name('H')),)); H[(r, p)] = h
                elif sort[0] == 'ptr':
                    o = fresh('Hp', 'int'); H[(r, p)] = o
                    h = sort[1](sort[2], o)
                else:
                    h = fresh('h', sort); H[(r, p)] = h
                S[r] = set_comp(S[r], p, h)
            k = fresh('k', 'int')
            it.store = dict(S); it.facts = list(basef); restore_env()
            it.assume(le(0, k))
            # provisional facts on havocked induction variables are added below once classified
            pre = dict(S)
            st, brk, ret, c, added = body_once(it, cond, inc, body, node, fb, base, post)
            new = {}
            shape = False
            for s1 in ([st] if st is not None else []):
                while True:
                    try: ch = diff(it, S, s1); break
                    except ShapeChange as e:
                        S0[e.root] = lift_shape(S0[e.root], s1[e.root])
                        W = {kk: x for kk, x in W.items() if kk[0] != e.root}
                        shape = True; ch = {}
                        break
                new.update(ch)
            if shape: continue
            grow = False
            for kk, y in new.items():
                if kk in W: continue
                grow = True
                old = {}; flat_val(S[kk[0]], (), old)
                x = old[kk[1]]
                if isinstance(y, LeafArr): W[kk] = ('leaf', None)
                elif isinstance(y, Poly): 
                    srt = 'int' if y.sort() == 'int' and (not isinstance(x, Poly) or x.sort() == 'int') and comp_int(it, S[kk[0]], kk[1], x) else 'real'
                    W[kk] = (srt, None)
                elif isinstance(y, tuple): W[kk] = ('bool', None)
                elif isinstance(y, TextV): W[kk] = ('text', None)
                elif isinstance(y, PtrV): W[kk] = (('ptr', type(y), y.lv), None)
                else: raise Unsupported('loop modifies %s' % type(y).__name__, node)
            if not grow: break
        if st is None:
            # body never completes normally: executed at most once
            it.record = rec0
            it.store = dict(S0); it.facts = list(basef); restore_env()
            return once(it, cond, inc, body, node, fb, base, basef)
    finally:
        it.record = rec0
        del it.obls[nb0:]
    if isinstance(node, dict) and node.get('id'):
        it.wcache[node['id']] = {(r.split('@')[0], p): x for (r, p), x in W.items() if x[0] in ('leaf', 'int', 'real', 'bool')}
    cl = Closer(it, S0, H, W, st, k, base); cl.cond = c; cl.snap = snap
    # second pass with closed forms: exact body conditions (guards, obligations) at iteration k
    try: cl.solve(node)
    except NeedInvariant:
        if it.inv is None: raise
        return by_invariant(it, cl, S0, W, cond, inc, body, node, fb, base, basef, k, restore_env, rec0)
    hook = None
    # condition at iteration k in closed state
    def state_at(kk):
        s = dict(S0)
        for key in W:
            r, p = key
            s[r] = set_comp(s[r], p, cl.closed_at(key, kk))
        return s
    it.store = state_at(k); it.facts = list(basef); restore_env()
    it.assume(le(0, k))
    it.record = False
    c = it.cond_f(cond)
    it.record = rec0
    K = trip_count(it, c, k, basef, node)
    Kraw, Kfinal = K
    it.store = state_at(k); it.facts = list(basef); restore_env()
    it.assume(le(0, k)); it.assume(lt(k, Kraw))
    for f in cl.pos_facts: it.assume(f)
    st2, brk, ret, c2, added = body_once(it, cond, inc, body, node, fb, base, post)
    if omp: check_omp(it, cl, node)
    it.loops.append({'where': it.loc(node), 'trip': show(Kraw)[:120], 'components': len(W)})
    outs = []; exits = []
    # early exits
    early = [(fs, s, None) for fs, s in brk] + [(fs, o.store, o) for o, fs in ret]
    if early and it.symdepth > 1: raise Unsupported('early exit from a loop inside a summarised loop', node)
    if early:
        G = Or(*[it.pc(fs) for fs, s, o in early])
        kstar = fresh('kx', 'int'); ka = k.as_atom()
        bname = boolvar(fresh_name('early'))
        j = fresh('j', 'int')
        noearlier = forall_axiom(it, j, ZERO, kstar, f_subst(Not(G), {ka: j}))
        for fs, s, o in early:
            m = {ka: kstar}
            fs2 = [f_subst(f, m) for f in fs]
            s2 = {r: subst_val(v, m) for r, v in s.items()}
            facts = [bname, le(0, kstar), lt(kstar, Kraw), *fs2, *noearlier]
            if o is None: exits.append((facts, s2))
            else:
                v = o.val
                if isinstance(v, tuple) and v and v[0] == 'LV': pass
                elif v is not None: v = subst_val(v, m)
                outs.append(Out('return', basef[fb:] + facts, s2, v, o.node))
        fin = [Not(bname), *forall_axiom(it, j, ZERO, Kraw, f_subst(Not(G), {ka: j}))]
    else: fin = []
    s = state_at(Kfinal)
    for key, F in cl.recs.items():
        if early: raise Unsupported('early exit from a recursively defining loop', node)
        full = cl.closed[key](Kfinal)
        s[key[0]] = set_comp(s[key[0]], key[1], F)
        it.recdefs[F.base[1]] = full
        if it.symdepth > 0: it.invsyms[1].add(F.base[1])
    exits.append((fin, s))
    it.store = s; it.facts = list(basef)
    restore_env()
    return outs, exits

def by_invariant(it, cl, S0, W, cond, inc, body, node, fb, base, basef, k, restore_env, rec0):
    """loop without closed form: the body is executed from the initial state and from an arbitrary state of the components without
    closed form; it.inv (the contract's candidate invariants) decides which relations hold initially, after the first iteration and
    are preserved, and what follows where the loop is left"""
    open_ = [key for key in W if key not in cl.closed]
    def head(kk):
        s = dict(S0)
        for key in W: s[key[0]] = set_comp(s[key[0]], key[1], cl.closed_at(key, kk) if key in cl.closed else cl.wrap(key, cl.H[key]))
        return s
    def comp(s, key):
        o = {}; flat_val(s[key[0]], (), o); return o[key[1]]
    # candidate invariants: kept when they hold initially and are preserved together (Houdini)
    it.record = False
    prop = getattr(it.inv, 'candidates', None)
    inv = list(prop(it, {'open': open_, 'comp': comp, 'S0': S0, 'H': cl.H, 'node': node, 'W': W}) or ()) if prop else []
    def quant(x): return x if isinstance(x, tuple) and x and x[0] == 'all' else ('all', (), x)
    def goal(c, s, kk):
        _, vs, f = quant(c(lambda key: comp(s, key), kk)); return f
    def fact(c, s, kk):
        _, vs, f = quant(c(lambda key: comp(s, key), kk)); return ('forall', tuple(vs), f) if vs else f
    def keeps(c, s, kk):      # an uninitialised component has no relation
        try: return it.prove(goal(c, s, kk)) == 'proved'
        except (Unsupported, TypeError): return False
    if inv:
        it.store = dict(S0); it.facts = list(basef)
        inv = [c for c in inv if keeps(c, S0, ZERO)]
        while inv:
            it.store = head(k); it.facts = list(basef); restore_env(); it.assume(le(0, k))
            h = dict(it.store)
            for c in inv: it.assume(fact(c, h, k))
            st, brk, ret, c_, added = body_once(it, cond, inc, body, node, fb, base, False)
            if st is None: break
            st = dict(st); normalise(it, st)
            keep = [c for c in inv if keeps(c, st, k + 1)]
            if len(keep) == len(inv): break
            inv = keep
        it.store = dict(S0)
    runs = []
    for first in (True, False):
        it.record = rec0
        it.store = dict(S0) if first else head(k); it.facts = list(basef); restore_env()
        if not first: it.assume(le(1, k))
        h = dict(it.store); n0 = len(it.facts)
        if not first:
            for c in inv: it.assume(fact(c, h, k))
        st, brk, ret, c, added = body_once(it, cond, inc, body, node, fb, base, False)
        fs = it.facts[n0:] if st is not None else []
        runs.append({'first': first, 'head': h, 'post': dict(st) if st is not None else None, 'brk': brk, 'ret': ret, 'cond': c, 'facts': fs, 'k': ZERO if first else k})
    for r in runs:
        if r['post'] is not None: normalise(it, r['post'])
    it.store = dict(S0); it.facts = list(basef); restore_env()
    if it.record and inv: it.obls.append(Obl('%d loop invariant%s hold initially and are preserved' % (len(inv), 's' if len(inv) > 1 else ''), True, it.loc(node), '', 'inductive invariant'))
    more = it.inv(it, {'open': open_, 'comp': comp, 'inv': inv, 'k': k, 'head': head, 'runs': runs, 'basef': basef, 'node': node, 'H': cl.H, 'S0': S0, 'W': W})
    it.loops.append({'where': it.loc(node), 'trip': 'invariant', 'components': len(W)})
    outs = []; exits = []
    for r in runs:
        pre = [] if r['first'] else [le(1, k), *[fact(c, r['head'], k) for c in inv]]
        def tag():
            b = boolvar(fresh_name('exit')); it.invsyms[2].add(b[1]); return b
        for fs, s in r['brk']: exits.append(([tag(), *pre, r['cond'], *fs], s))
        for o, fs in r['ret']: outs.append(Out('return', basef[fb:] + [tag(), *pre, r['cond'], *fs], o.store, o.val, o.node))
    # left by its condition: at once, or after at least one iteration
    it.store = dict(S0); it.facts = list(basef); restore_env(); it.record = False
    try:
        c0 = it.cond_f(cond); s0 = it.store
        exits.append(([Not(c0)], s0))
        kz = fresh('k', 'int')
        it.store = head(kz); it.facts = list(basef); restore_env(); it.assume(le(1, kz))
        c1 = it.cond_f(cond); sz = it.store
        prev = []
        try:
            it.store = head(kz - 1); it.facts = list(basef); it.assume(le(1, kz))
            vs, bs, bl = cl.unclosed_syms(); pv = it.cond_f(cond)
            prev = [x for x in (pv[1] if pv[0] == 'and' else (pv,)) if cl.free_of(x, vs, bs, bl)]
        except Unsupported: pass
        xb = boolvar(fresh_name('exit')); it.invsyms[2].add(xb[1]); it.invsyms[0].add(kz.as_atom())
        it.store = sz; it.facts = list(basef)
        exits.append(([xb, c0, le(1, kz), Not(c1), *prev, *[fact(c, sz, kz) for c in inv], *(more(sz, kz) if callable(more) else ())], sz))
    finally: it.record = rec0
    it.invsyms[0].add(k.as_atom())
    for key in open_:
        h = cl.H[key]
        if isinstance(h, LeafArr): it.invsyms[1].add(h.base[1])
        elif isinstance(h, Poly): it.invsyms[0].add(h.as_atom())
        elif isinstance(h, TextV): pass
        else: it.invsyms[2].add(h[1])
    it.store = dict(S0); it.facts = list(basef); restore_env()
    return outs, exits

def seed_writes(it, node, S0):
    """write set of an earlier execution of the same loop: a first guess, completed as usual"""
    w = it.wcache.get(node.get('id')) if isinstance(node, dict) else None
    if not w: return {}
    last = {}
    for r in S0:
        nm, _, k = r.partition('@')
        if nm not in last or int(k or 0) >= int(last[nm].partition('@')[2] or 0): last[nm] = r
    W = {}; flats = {}
    for (nm, p), x in w.items():
        r = last.get(nm)
        if r is None: continue
        if r not in flats:
            o = {}
            try: flat_val(S0[r], (), o)
            except Unsupported: o = {}
            flats[r] = o
        v = flats[r].get(p)
        if (x[0] == 'leaf' and isinstance(v, LeafArr)) or (x[0] in ('int', 'real') and isinstance(v, Poly)) or (x[0] == 'bool' and isinstance(v, tuple)): W[(r, p)] = x
    return W

def once(it, cond, inc, body, node, fb, base, basef):
    S0 = it.store
    c = it.cond_f(cond)
    exits = []; outs = []
    it.store = dict(S0); it.assume(c)
    ob = it.run_part(body)
    for o in ob:
        if o.kind == 'break': exits.append((o.facts[base - fb:], o.store))
        else: outs.append(o)
    it.facts = list(basef); it.store = dict(S0); it.assume(Not(c))
    exits.append((it.facts[base:], it.store))
    return outs, exits

def comp_int(it, v, path, x):
    return True

def forall_axiom(it, j, lo, hi, f):
    """facts 'forall j in [lo,hi): f' (kept as quantified fact; instantiated on demand)"""
    return [('forall', (j,), Implies(And(le(lo, j), lt(j, hi)), f))]

def subst_val(v, m, rm=None):
    if isinstance(v, Poly): return subst(v, m, rm)
    if isinstance(v, LeafArr): return v.subst(m, rm)
    if isinstance(v, Obj): return Obj(v.cls, {k: subst_val(x, m, rm) for k, x in v.f.items()})
    if isinstance(v, ArrC): return ArrC([subst_val(x, m, rm) for x in v.v], v.et)
    if isinstance(v, ArrS): return ArrS(subst(v.n, m, rm), subst_b(v.b, m, rm), tuple(subst(p, m, rm) for p in v.pre), v.et)
    if isinstance(v, TextV): return v.subst(m, rm)
    if isinstance(v, PtrV): return type(v)(LV(v.lv.root, tuple((a, subst(b, m, rm) if isinstance(b, Poly) else b) for a, b in v.lv.path)), None if v.off is None else subst(v.off, m, rm))
    if isinstance(v, tuple) and v and v[0] in ('T', 'F', 'le', 'lt', 'eq', 'and', 'or', 'not', 'b', 'forall'): return f_subst(v, m, rm)
    return v
def subst_b(b, m, rm=None):
    if isinstance(b, LeafArr): return b.subst(m, rm)
    if isinstance(b, BObj): return BObj(b.cls, {k: subst_b(x, m, rm) for k, x in b.f.items()})
    return BArr(b.ln.subst(m, rm), subst_b(b.el, m, rm), b.et)

class NeedInvariant(Unsupported):
    pass

class RM:
    """read map: base name -> LeafArr (closed form)"""
    def __init__(self, d): self.d = d
    def __call__(self, base, idx, sort):
        l = self.d.get(base)
        if l is None: return None
        return l.read(idx)
    def leaf(self, base): return self.d.get(base)

class Closer:
    def __init__(self, it, S0, H, W, post, k, base):
        self.it = it; self.H = H; self.W = W; self.k = k; self.base = base
        self.init = {}; self.post = {}
        for key in W:
            r, p = key
            o = {}; flat_val(S0[r], (), o); x = o[p]
            self.init[key] = x.off if isinstance(x, PtrV) else x
            o = {}; flat_val(post[r], (), o); x = o[p]
            self.post[key] = x.off if isinstance(x, PtrV) else x
        self.closed = {}     # key -> function(kk) -> value
        self.pos_facts = []
        self.kindof = {}; self.recs = {}
    def wrap(self, key, v):
        s = self.W[key][0]
        if isinstance(s, tuple) and s[0] == 'ptr': return s[1](s[2], v)
        return v
    def closed_at(self, key, kk): return self.wrap(key, self.closed[key](P(kk)))
    def unclosed_syms(self):
        vs, bs, bl = (x - y for x, y in zip(self.it.invsyms, self.snap))     # results of loops inside the body that are only known by an invariant
        for key, h in self.H.items():
            if key in self.closed: continue
            if isinstance(h, LeafArr): bs.add(h.base[1])
            elif isinstance(h, Poly): vs.add(h.as_atom())
            elif isinstance(h, TextV): pass
            else: bl.add(h[1])
        return vs, bs, bl
    def sub_closed(self, x, kk=None):
        """substitute closed forms at iteration kk for havoc symbols"""
        kk = self.k if kk is None else kk
        m = {}; d = {}
        for key, h in self.H.items():
            if key in self.closed:
                v = self.closed[key](kk)
                if isinstance(h, LeafArr): d[h.base[1]] = v
                elif isinstance(h, Poly): m[h.as_atom()] = v
        rm = RM(d) if d else None
        return subst_val(x, m, rm)
    cond = None; snap = (set(), set(), set())
    def iter_cond(self, vs, bs, bl, k2=None):
        """the loop condition at the iterations k (and k2): both are executed"""
        if self.cond is None: return []
        ck = ('ic', len(self.closed)); memo = self.__dict__.setdefault('_ic', {})
        if ck not in memo:
            try: c = self.sub_closed(self.cond)
            except Unsupported: c = TRUE
            memo[ck] = [x for x in (c[1] if c[0] == 'and' else (c,)) if self.free_of(x, vs, bs, bl)]
        cs = memo[ck]
        if k2 is None: return cs
        return cs + [f_subst(x, {self.k.as_atom(): k2}) for x in cs]
    def solve(self, node):
        it = self.it
        kfacts = len(it.facts)
        progress = True
        pending = set(self.W)
        ka = self.k.as_atom()
        while pending:
            progress = False
            # facts available while resolving reads: 0<=k
            for key in sorted(pending, key=lambda q: (isinstance(self.H[q], LeafArr), str(q))):
                f = self.try_close(key, ka, node)
                if f is not None:
                    self.closed[key] = f; pending.discard(key); progress = True
            if not progress:
                names = ', '.join('%s%s' % (r.split('@')[0], ''.join(str(x[-1]) for x in p)) for r, p in sorted(pending, key=str))
                raise NeedInvariant('no closed form for loop-carried %s' % names, node)
    def free_of(self, p, vs, bs, bl=()):
        if isinstance(p, Poly): 
            if p.fv() & vs or p.bases() & bs: return False
            return not bl or not (bools_of_poly(p) & bl)
        return not (f_fv(p) & vs or f_bases(p) & bs or (bl and bools(p) & bl))
    def try_close(self, key, ka, node):
        it = self.it; k = self.k
        h = self.H[key]; x0 = self.init[key]
        if isinstance(h, LeafArr): return self.close_leaf(key, ka, node)
        vs, bs, bl = self.unclosed_syms()
        y = self.post[key]
        if isinstance(h, TextV):      # every iteration appends the same kind of text
            if not isinstance(y, TextV) or not y.segs or y.segs[0] != h.segs[0]: return None
            app = seg_map(y.segs[1:], self.sub_closed, self.sub_closed)
            if not all(self.free_of(q, vs, bs, bl) for q in seg_terms(app, [])): return None
            self.kindof[key] = 'text'
            def cl(kk):
                j = fresh('j', 'int'); ja = j.as_atom()
                return x0 + (('rep', ja, kk, seg_map(app, lambda q: subst(q, {ka: j}), lambda g: f_subst(g, {ka: j}))),)
            return cl
        if isinstance(h, tuple):   # boolean
            if not isinstance(y, tuple): return None
            if not isinstance(x0, tuple): x0 = FALSE
            y = self.sub_closed(y)
            if self.free_of(y, vs, bs, bl):
                return lambda kk: Or(And(eq(kk, 0), x0), And(gt(kk, 0), f_subst(y, {ka: kk - 1})))
            return None
        if not isinstance(y, Poly): return None
        ha = h.as_atom()
        y = self.untouched(y, ka)
        d = self.sub_closed(y - h)
        if self.free_of(d, vs, bs, bl):
            if isinstance(x0, Uninit): x0 = fresh('uninit', h.sort())
            if ka not in d.fv():
                if not d.d: return lambda kk: x0
                self.kindof[key] = 'induction'
                return lambda kk: x0 + d * kk
            self.kindof[key] = 'sum'
            def cl(kk):
                j = fresh('j', 'int')
                r = Sum(j, ZERO, kk, subst(d, {ka: j}))
                return x0 + (fn('IP', (r,)) if it.wrap_ip and h.sort() == 'real' and r.const() is None else r)
            return cl
        if isinstance(x0, Poly) and (y + h).const() == 0:   # alternating sign
            self.kindof[key] = 'sign'
            return lambda kk: x0 * alternating(kk)
        y = self.sub_closed(y)
        if self.free_of(y, vs, bs, bl):
            self.kindof[key] = 'last'
            if isinstance(x0, Uninit): x0 = fresh('uninit', h.sort())
            if not isinstance(x0, Poly): return None
            return lambda kk: ite(le(kk, 0), x0, subst(y, {ka: kk - 1}))
        return None
    def untouched(self, y, ka):
        """reads of arrays that are still open, at positions no earlier iteration writes, are reads of the initial array"""
        it = self.it
        d = {}
        for key, h in self.H.items():
            if key in self.closed or not isinstance(h, LeafArr): continue
            hb = h.base[1]
            if hb not in (y.bases() if isinstance(y, Poly) else f_bases(y)): continue
            post = self.post[key]
            if not isinstance(post, LeafArr) or post.base != h.base: continue
            if self.reads_fresh(hb, [y] if isinstance(y, Poly) else f_polys(y), post.upds, ka): d[hb] = self.init[key]
        return subst_val(y, {}, RM(d)) if d else y
    def reads_fresh(self, hb, polys, upds, ka, extra=()):
        it = self.it
        own = set()
        for p in polys:
            for a in p.atoms(): collect_reads(a, hb, own)
        k2 = fresh('kp', 'int')
        vs, bs, bl = self.unclosed_syms()
        ck = (hb, tuple(sorted(a.id for a in own)), tuple(id(u) for u in upds), len(self.closed))
        memo = self.__dict__.setdefault('_rf', {})
        if ck in memo: return memo[ck][0]
        ok = True
        m = {}; dd = {}
        for key, h in self.H.items():
            if key in self.closed:
                v = self.closed[key](self.k)
                if isinstance(h, LeafArr): dd[h.base[1]] = v
                elif isinstance(h, Poly): m[h.as_atom()] = v
        rm = RM(dd) if dd else None
        for w in upds:
            w = w.rename()
            try:
                vars_ = [(a, subst(lo, m, rm), subst(hi, m, rm)) for a, lo, hi in w.vars]
                idx = [subst(i, m, rm) for i in w.idx]
            except Unsupported: ok = False; break
            w2 = Upd(vars_, TRUE, idx, ZERO, 'set')
            if any(not self.free_of(p, vs, bs, bl) for p in w2.polys()): ok = False; break
            w2 = w2.subst({ka: k2})
            for a in own:
                n = len(it.facts)
                for f in (le(0, k2), lt(k2, self.k), w2.cond_range(), *extra, *self.iter_cond(vs, bs, bl, k2)): it.assume(f)
                try:
                    ridx = [subst(i, m, rm) for i in a.a[1]]
                    r = 'no' if any(not self.free_of(p, vs, bs, bl) for p in ridx) else it.prove(Not(And(*[eq(x, y) for x, y in zip(ridx, w2.idx)])))
                finally: del it.facts[n:]
                if r != 'proved': ok = False; break
            if not ok: break
        memo[ck] = (ok, upds)      # keeps the identities
        return ok
    def close_leaf(self, key, ka, node):
        it = self.it; k = self.k
        h = self.H[key]; hb = h.base[1]
        base0 = self.init[key]
        post = self.post[key]
        if not isinstance(post, LeafArr) or post.base != h.base:
            return None
        vs, bs, bl = self.unclosed_syms()
        bs = bs - {hb}
        upds = []
        fk = len(it.facts)
        it.facts.append(le(0, k))
        try:
            for u in post.upds:
                u = self.sub_upd(u)
                for p in u.polys():
                    if not self.free_of(p, vs, bs): return None
                if bl and (bools(u.guard) & bl): return None
                upds.append(u)
            # own reads
            k2 = fresh('kp', 'int'); k2a = k2.as_atom()
            res = []
            for u in upds:
                own = [p for p in u.polys() if hb in p.bases()]
                if own:
                    u2 = self.rewrite_own(u, upds, hb, base0, k, ka, k2)
                    if u2 is None:
                        res = self.recursive(key, upds, hb, base0, ka)
                        if res is None: return None
                        break
                    u = u2
                res.append(u)
            # ordering across iterations: the last write wins
            ordered = len(res) == 1 and not res[0].vars and res[0].kind == 'set' or all(u.kind == 'set' and u.val == res[0].val and not ({ka} | {a for a, _, _ in u.vars}) & u.val.fv() for u in res)
            if ordered and any(hb in p.bases() for u in res for p in u.polys()): ordered = False
            for a in range(len(res)):
                for b in range(a, len(res)):
                    ua, ub = res[a], res[b]
                    if ua.kind == 'add' and ub.kind == 'add': continue
                    if a == b and self.indep(ua, ka): continue
                    if ordered or self.disjoint(ua, ub, k, ka, k2, ordered=False): continue
                    return None
        finally:
            del it.facts[fk:]
        def cl(kk):
            out = []
            for u in res:
                u = u.rename()
                if self.indep(u, ka) and u.kind == 'set':
                    out.append(Upd(u.vars, And(u.guard, gt(kk, 0)), u.idx, u.val, 'set')); continue
                j = fresh('j', 'int'); ja = j.as_atom()
                u = u.subst({ka: j})
                out.append(Upd(((ja, ZERO, kk),) + u.vars, u.guard, u.idx, u.val, u.kind))
            return LeafArr(base0.base, base0.upds + tuple(out), base0.sort)
        self.kindof[key] = 'array'
        return cl
    def indep(self, u, ka):
        return all(ka not in p.fv() for p in u.polys())
    def sub_upd(self, u):
        m = {}; d = {}
        for key, h in self.H.items():
            if key in self.closed:
                v = self.closed[key](self.k)
                if isinstance(h, LeafArr): d[h.base[1]] = v
                elif isinstance(h, Poly): m[h.as_atom()] = v
        n = len(self.it.facts)
        for a, lo, hi in u.vars:
            self.it.facts.append(And(le(subst(lo, m), P(a)), lt(P(a), subst(hi, m))))
        try: return u.subst(m, RM(d) if d else None)
        finally: del self.it.facts[n:]
    def rewrite_own(self, u, upds, hb, base0, k, ka, k2):
        """own reads of pre-iteration state: additive at the written index, or at positions not written by earlier iterations"""
        it = self.it
        own = set()
        for p in u.polys():
            for a in p.atoms():
                collect_reads(a, hb, own)
        if any(any(x.kind == 'bv' for x in a.fv) for a in own): 
            own_bv = True
        if u.kind == 'set' and u is upds[0]:
            d = u.val - read(hb, u.idx, 'real' if base0.sort == 'real' else 'int')
            if hb not in d.bases() and all(hb not in p.bases() for p in u.idx) and hb not in f_bases(u.guard):
                return Upd(u.vars, u.guard, u.idx, d, 'add')
        m = {}
        if any(any(x.kind == 'bv' for x in a.fv) for a in own):
            if self.reads_fresh(hb, u.polys(), upds, ka): return u.subst({}, RM({hb: base0}))
            return None
        for a in own:
            ridx = a.a[1]
            for w in upds:
                w = w.rename()
                w2 = w.subst({ka: k2})
                # the write happens at k2<k
                facts = [le(0, k2), lt(k2, k), w2.cond_range(), w2.guard, u.cond_range(), u.guard]
                vs, bs, bl = self.unclosed_syms(); facts += self.iter_cond(vs, bs, bl, k2)
                if hb in set().union(*[f_bases(f) for f in facts]) : facts = facts[:2] + [w2.cond_range(), u.cond_range()]
                n = len(it.facts)
                for f in facts: it.assume(f)
                try: r = it.prove(Not(And(*[eq(x, y) for x, y in zip(ridx, w2.idx)])))
                finally: del it.facts[n:]
                if r != 'proved': return None
            m[a] = base0.read(ridx)
        return u.subst(m)
    def recursive(self, key, upds, hb, base0, ka):
        """every iteration writes positions of its own and reads, besides the old value of the position it writes, only positions no
        later (or same) iteration writes: those already have their final value F (the array after the loop), and F is defined by
        recursion over the iterations"""
        it = self.it; k = self.k
        if it.symdepth > 1 and not getattr(it, 'inv', None): return None
        k2 = fresh('kl', 'int')
        vs, bs, bl = self.unclosed_syms(); bs = bs - {hb}
        for u in upds:
            if hb in f_bases(u.guard) or any(hb in p.bases() for p in u.idx) or any(hb in lo.bases() | hi.bases() for _, lo, hi in u.vars): return None
            own = []
            collect_ctx(u.val, hb, [], own)
            for idx, ctx in own:
                if tuple(idx) == tuple(u.idx):
                    if u.kind != 'set': return None
                    continue
                for w in upds:
                    w2 = w.rename().subst({ka: k2}); n = len(it.facts)
                    for f in (le(0, k), le(k, k2), w2.cond_range(), w2.guard, u.cond_range(), u.guard, *ctx, *self.iter_cond(vs, bs, bl, k2)): it.assume(f)
                    try: r = it.prove(Not(And(*[eq(x, y) for x, y in zip(idx, w2.idx)])))
                    finally: del it.facts[n:]
                    if r != 'proved': return None
        F = LeafArr(('sym', fresh_name('F')), (), base0.sort)
        res = []
        for u in upds:
            class own:
                def __call__(s_, base, idx, sort): return None if base != hb else base0.read(idx) if tuple(idx) == tuple(u.idx) else F.read(idx)
                def leaf(s_, base): return None
            res.append(Upd(u.vars, u.guard, u.idx, subst(u.val, {}, own()), u.kind))
        self.recs[key] = F
        return res
    def disjoint(self, ua, ub, k, ka, k2, ordered):
        it = self.it
        ua = ua.rename(); ub = ub.rename().subst({ka: k2})
        for o in ((lt(k2, k)), (lt(k, k2))):
            n = len(it.facts)
            vs, bs, bl = self.unclosed_syms()
            for f in (le(0, k2), o, ua.cond_range(), ub.cond_range(), ua.guard, ub.guard, *self.iter_cond(vs, bs, bl, k2)): it.assume(f)
            try:
                goal = Not(And(*[eq(x, y) for x, y in zip(ua.idx, ub.idx)]))
                for f in prefix_lemmas([*ua.idx, *ub.idx]): it.assume(f)
                r = it.prove(goal)
            finally: del it.facts[n:]
            if r != 'proved': return False
        return True

def collect_reads(a, hb, acc):
    if hb not in a.bases: return
    if a.kind == 'read':
        if a.a[0] == hb: acc.add(a)
        for p in a.a[1]:
            for x in p.atoms(): collect_reads(x, hb, acc)
    elif a.kind == 'fn':
        for p in a.a[1]:
            if isinstance(p, Poly):
                for x in p.atoms(): collect_reads(x, hb, acc)
    elif a.kind == 'ind':
        for p in f_polys(a.a[0]):
            for x in p.atoms(): collect_reads(x, hb, acc)
    elif a.kind == 'sum':
        for p in a.a[1:]:
            for x in p.atoms(): collect_reads(x, hb, acc)

def collect_ctx(p, hb, ctx, acc):
    """reads of the array with the ranges of the bound variables around them"""
    for a in p.atoms():
        if hb not in a.bases: continue
        if a.kind == 'read':
            if a.a[0] == hb: acc.append((a.a[1], list(ctx)))
            for q in a.a[1]: collect_ctx(q, hb, ctx, acc)
        elif a.kind == 'fn':
            for q in a.a[1]:
                if isinstance(q, Poly): collect_ctx(q, hb, ctx, acc)
        elif a.kind == 'ind':
            for q in f_polys(a.a[0]): collect_ctx(q, hb, ctx, acc)
        elif a.kind == 'sum':
            bv, lo, hi, body = a.a
            collect_ctx(lo, hb, ctx, acc); collect_ctx(hi, hb, ctx, acc)
            collect_ctx(body, hb, ctx + [le(lo, atom_poly(bv)), lt(atom_poly(bv), hi)], acc)
        else: acc.append(((None,), []))

def bools(f):
    t = f[0]
    if t == 'b': return {f[1]}
    if t in ('and', 'or'): return set().union(*[bools(x) for x in f[1]])
    if t == 'not': return bools(f[1])
    r = set()
    for p in f_polys(f): r |= bools_of_poly(p)
    return r
def bools_of_poly(p):
    r = set()
    for a in p.atoms():
        if a.kind == 'ind': r |= bools(a.a[0])
        elif a.kind == 'sum': r |= bools_of_poly(a.a[3])
        elif a.kind == 'fn':
            for q in a.a[1]:
                if isinstance(q, Poly): r |= bools_of_poly(q)
    return r

def trip_count(it, c, k, basef, node):
    """c: loop condition at iteration k (closed). returns (raw count, non-negative final iteration number)"""
    ka = k.as_atom()
    parts = c[1] if c[0] == 'and' else (c,)
    if len(parts) != 1: raise NeedInvariant('compound loop condition', node)
    f = parts[0]
    if f[0] in ('le', 'lt'):
        p = f[1]
        b = lincoef(p, ka)
        if b is None or b.const() is None or b.const() <= 0: raise NeedInvariant('loop condition is not a counted loop: %s' % show_f(f)[:120], node)
        a = p - k * b; b = b.const()
        if f[0] == 'lt': a = a + 1 if p.sort() == 'int' else a
        if b == 1: K = -a + 1
        else:
            K = fn('idiv', (-a + b, P(b)), 'int') # floor((-a)/b)+1
            q = divide(-a, P(b))
            if q is not None and not q[1].d: K = q[0] + 1
    elif f[0] == 'not' and f[1][0] == 'eq':
        p = f[1][1]
        b = lincoef(p, ka)
        if b is None or b.const() is None or abs(b.const()) != 1: raise NeedInvariant('loop condition', node)
        a = p - k * b
        K = a.scale(-b.const())
        it.facts = list(basef)
        if it.prove(le(0, K)) != 'proved': raise NeedInvariant('cannot show the loop counter reaches its bound', node)
    else: raise NeedInvariant('loop condition ' + show_f(f)[:120], node)
    if ka in K.fv(): raise NeedInvariant('loop bound changes', node)
    it.facts = list(basef)
    if it.decide(le(0, K)) is True: return K, K
    if it.decide(le(K, 0)) is True: return ZERO, ZERO
    return K, ite(le(0, K), K, ZERO)

def check_omp(it, cl, node):
    """parallel for: shared components must be written at pairwise disjoint locations (no loop-carried scalar, no accumulation)"""
    ok = True; why = ''
    for key in cl.W:
        kd = cl.kindof.get(key)
        if kd == 'induction' and key[0].startswith(('i@', 'k@', 'j@')) and not key[1]: continue
        if kd == 'array':
            v = cl.closed[key](cl.k)
            init = cl.init[key]
            for u in v.upds[len(init.upds):]:
                if u.kind == 'add' and not apart(it, u): ok = False; why = 'accumulation into shared array'
            continue
        if kd == 'induction': continue
        ok = False; why = 'loop-carried shared component %s (%s)' % (key, kd)
    if it.record: it.obls.append(Obl('parallel loop iterations write disjoint locations', ok, it.loc(node), why, 'proved' if ok else 'refuted'))

def apart(it, u):
    """updates of different iterations (first variable of u) hit different elements"""
    if not u.vars: return False
    a, b = u.rename(), u.rename()
    n = len(it.facts)
    for f in (a.cond_range(), b.cond_range(), a.guard, b.guard, lt(P(a.vars[0][0]), P(b.vars[0][0]))): it.assume(f)
    try: return it.prove(Not(And(*[eq(x, y) for x, y in zip(a.idx, b.idx)]))) == 'proved'
    finally: del it.facts[n:]
