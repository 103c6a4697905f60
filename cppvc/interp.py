"""Symbolic execution of clang-AST function bodies over exact terms: generates and discharges proof obligations.

Loops with a constant trip count are executed completely; loops with a symbolic trip count are summarised by an inferred
invariant (closed form of every modified component in the iteration number), see loops.py.  Calls to functions with a
registered contract use the contract, all other calls into /repo are inlined (exact); the standard library is modelled in stdlib.
"""
import re, sys, time
from terms import *
import terms as T
from arrays import *
import arrays as A
import smt
import frontend

sys.setrecursionlimit(20000)

# ---- types -------------------------------------------------------------------------
_tcache = {}
def ptype(s):
    r = _tcache.get(s)
    if r is None:
        r = _ptype(s); _tcache[s] = r
    return r

def split_args(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in '<([': d += 1
        elif ch in '>)]': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

_pre = re.compile(r'^(const |volatile |class |struct |typename |PANSFEM2::|std::__cxx11::|std::|__gnu_cxx::)+')
def _ptype(s):
    s = s.strip()
    while True:
        s0 = s
        s = _pre.sub('', s)
        if s.endswith('const'): s = s[:-5].strip()
        if s.endswith('&'): s = s[:-1].strip()
        if s == s0: break
    if s.endswith('*'): return ('ptr', ptype(s[:-1]))
    m = re.match(r'^(.*?)\s*\[(\d*)\]$', s)
    if m: return ('arr', ptype(m.group(1)), int(m.group(2) or 0))
    if s in ('double', 'float', 'long double'): return 'double'
    if s in ('int', 'unsigned int', 'unsigned long', 'long', 'size_t', 'unsigned', 'long long', 'unsigned long long', 'size_type', 'difference_type', 'short', 'char'): return 'int'
    if s == 'bool': return 'bool'
    if s == 'void': return 'void'
    if s == 'string' or s.startswith('basic_string<'): return 'string'
    m = re.match(r'^([A-Za-z_0-9:]+)<(.*)>$', s)
    if m:
        n, args = m.group(1), split_args(m.group(2))
        n = n.split('::')[-1]
        if n == 'vector': return ('vec', ptype(args[0]))
        if n == 'initializer_list': return ('vec', ptype(args[0]))
        if n == 'array': return ('sarr', ptype(args[0]), int(args[1]) if args[1].isdigit() else args[1])
        if n == 'pair': return ('pair', ptype(args[0]), ptype(args[1]))
        if n == '__normal_iterator': return ('iter',)
        return ('cls', n + '<' + ','.join(tname(ptype(a)) if not a.isdigit() else a for a in args) + '>')
    m = re.match(r'^(.+)::(iterator|const_iterator)$', s)
    if m: return ('iter',)
    if '::' in s and '<' not in s: s = s.split('::')[-1]
    if '(' in s and ')' in s and 'lambda' not in s: return ('fun', s)
    return ('cls', s)

def tname(t):
    if isinstance(t, str): return t
    if t[0] == 'cls': return t[1]
    if t[0] == 'vec': return 'vector<' + tname(t[1]) + '>'
    if t[0] == 'pair': return 'pair<%s,%s>' % (tname(t[1]), tname(t[2]))
    if t[0] == 'sarr': return 'array<%s,%s>' % (tname(t[1]), t[2])
    if t[0] == 'ptr': return tname(t[1]) + '*'
    return '-'.join(map(str, t))

def ntype(n):
    t = n.get('type') or {}
    return ptype(t.get('desugaredQualType') or t.get('qualType', 'void'))
def ntype_s(n):
    t = n.get('type') or {}
    return t.get('desugaredQualType') or t.get('qualType', 'void')
def is_ref(n):
    q = (n.get('type') or {}).get('qualType', '')
    d = (n.get('type') or {}).get('desugaredQualType', q)
    return q.rstrip().endswith('&') or d.rstrip().endswith('&')

class LV:
    __slots__ = ('root', 'path')
    def __init__(self, root, path=()): self.root = root; self.path = path
    def at(self, *p): return LV(self.root, self.path + p)
    def same(self, o):
        return self.root == o.root and len(self.path) == len(o.path) and all(a[0] == b[0] and a[1] == b[1] for a, b in zip(self.path, o.path))
    def __repr__(self): return '&%s%s' % (self.root, ''.join('.%s' % p[1] if p[0] == 'f' else '[%s]' % (p[1],) for p in self.path))

class PtrV:
    __slots__ = ('lv', 'off')
    def __init__(self, lv, off): self.lv = lv; self.off = off
    def merge(self, c, o):
        if self.lv.same(o.lv): return PtrV(self.lv, ite(c, self.off, o.off))
        raise Unsupported('merge of pointers to different objects')
class IterV(PtrV):
    pass
class FnV:
    __slots__ = ('node', 'env', 'this', 'py')
    def __init__(self, node, env=None, this=None, py=None): self.node = node; self.env = env; self.this = this; self.py = py
class StrV:
    def __init__(self, s): self.s = s
    def merge(self, c, o): return self
class Opaque:
    def __init__(self, d): self.d = d
    def merge(self, c, o): return self

class Out:
    __slots__ = ('kind', 'facts', 'store', 'val', 'node')
    def __init__(self, kind, facts, store, val=None, node=None): self.kind = kind; self.facts = facts; self.store = store; self.val = val; self.node = node

class Obl:
    __slots__ = ('name', 'ok', 'where', 'detail', 'how', 'time')
    def __init__(self, name, ok, where, detail='', how='', time=0.0):
        self.name = name; self.ok = ok; self.where = where; self.detail = detail; self.how = how; self.time = time

def unwrap(n):
    while n.get('kind') in ('ParenExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr', 'CXXDefaultArgExpr', 'FullExpr') and n.get('inner'):
        n = n['inner'][-1] if n['kind'] == 'SubstNonTypeTemplateParmExpr' else n['inner'][0]
    return n

class Interp:
    inv = None
    wrap_ip = False
    lib = None
    def __init__(self, unit, heap=False):
        self.u = unit
        self.store = {}
        self.facts = []
        self.frames = []
        self.nroot = 0
        self.contracts = {}      # qualified function name or (name) -> python callable(interp, fnode, this_lv, args) or None to fall through
        self.obls = []
        self.heap = heap
        self.record = True
        self.invsyms = (set(), set(), set())   # symbols standing for the results of loops known by an invariant only
        self.recdefs = {}        # array defined by recursion -> one unfolding
        self.axioms = {}         # array base -> callable(idx)->formula
        self.funcs_run = set()
        self.loops = []          # summaries, for evidence
        self.inv_hook = None
        self.deadline = None
        self.events = []
        self.fnfacts = {}; self.wcache = {}
        self._mangled = None
        self._recs = {}
        self._layout = {}
        self.statics = {}
        self.bounds = True
        self.depth = 0
        self._fs = None
        self._stamps = {}; self._dcache = {}
        self.derived = {}
        CTX.interp = self
        self.index()

    # ---- index ----------------------------------------------------------------
    def index(self):
        self._mangled = {}
        for l in self.u.byname.values():
            for f in l:
                if '_body' in f and f.get('mangledName') and not self.in_pattern(f): self._mangled.setdefault(f['mangledName'], f)
        for i, r in self.u.records.items():
            if self.in_pattern(r): continue
            self._recs.setdefault(self.rec_key(r), r) if r.get('completeDefinition') or r.get('inner') else None
    def in_pattern(self, n):
        """inside an uninstantiated template pattern"""
        i = n.get('id'); p = self.u.parent.get(i)
        prev = n
        if n.get('kind') == 'ClassTemplateSpecializationDecl': return False
        dc = n.get('parentDeclContextId')
        if dc and dc in self.u.byid and self.u.byid[dc].get('kind') == 'CXXRecordDecl' and self.in_pattern(self.u.byid[dc]): return True
        while p is not None:
            k = p.get('kind')
            if k == 'ClassTemplateSpecializationDecl': return False
            if k == 'ClassTemplateDecl' and prev.get('kind') == 'CXXRecordDecl': return True
            if k == 'FunctionTemplateDecl':
                fs = [c for c in p.get('inner', ()) if c.get('kind') in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl')]
                if fs and fs[0] is prev: return True
            if k == 'ClassTemplatePartialSpecializationDecl': return True
            prev = p; p = self.u.parent.get(p.get('id'))
        return False
    def rec_key(self, r):
        if r['kind'] == 'ClassTemplateSpecializationDecl':
            args = []
            for c in r.get('inner', ()):
                if c.get('kind') == 'TemplateArgument':
                    if 'type' in c: args.append(tname(ptype(c['type'].get('desugaredQualType') or c['type']['qualType'])))
                    elif 'value' in c: args.append(str(c['value']))
                    elif 'decl' in c: args.append(c['decl'].get('name', '?'))
                    else:
                        args.append('?')
            return r['name'] + '<' + ','.join(args) + '>'
        return r.get('name')
    def record_of(self, cls):
        r = self._recs.get(cls)
        if r is None:
            base = cls.split('<')[0]
            c = [x for k, x in self._recs.items() if k and k.split('<')[0] == base]
            if len(c) == 1: return c[0]
        return r
    def fields(self, cls):
        l = self._layout.get(cls)
        if l is None:
            r = self.record_of(cls)
            if r is None: raise Unsupported('unknown class ' + str(cls))
            l = [(c['name'], ntype(c), c) for c in r.get('inner', ()) if c.get('kind') == 'FieldDecl']
            self._layout[cls] = l
        return l
    def func(self, name, sel=None):
        """function definitions (instantiated) whose qualified name is `name`"""
        last = name.split('::')[-1]
        c = [f for f in self.u.byname.get(last, []) if '_body' in f and not self.in_pattern(f) and self.qn(f) == name]
        if sel: c = [f for f in c if sel(f)]
        seen = {}; 
        for f in c: seen.setdefault(f.get('mangledName'), f)
        return list(seen.values())
    def qn(self, f):
        parts = [f.get('name', '?')]
        p = self.u.parent.get(f.get('id'))
        if f.get('parentDeclContextId') and f['parentDeclContextId'] in self.u.byid: p = self.u.byid[f['parentDeclContextId']]
        while p is not None:
            if p.get('kind') == 'NamespaceDecl' and p.get('name'): 
                if p['name'] != 'PANSFEM2': parts.append(p['name'])
            elif p.get('kind') == 'ClassTemplateSpecializationDecl':
                parts.append(self.rec_key(p)); break
            elif p.get('kind') == 'CXXRecordDecl' and p.get('name'): parts.append(p['name'])
            p = self.u.parent.get(p.get('id'))
        return '::'.join(reversed(parts))
    def bundle_for(self, t, name):
        if t == 'double': return LeafArr(('sym', name), (), 'real')
        if t == 'int': return LeafArr(('sym', name), (), 'int')
        if t == 'bool': return LeafArr(('sym', name), (), 'bool')
        if t == 'string': return LeafArr(('sym', name), (), 'int')
        if t[0] in ('vec', 'sarr', 'arr'): return BArr(LeafArr(('sym', name + '.len'), (), 'int'), self.bundle_for(t[1], name + '.el'), t[1])
        if t[0] == 'pair': return BObj('pair', {'first': self.bundle_for(t[1], name + '.first'), 'second': self.bundle_for(t[2], name + '.second')})
        if t[0] == 'ptr' and not self.heap: return BArr(LeafArr(('sym', name + '.len'), (), 'int'), self.bundle_for(t[1], name + '.el'), t[1])
        if t[0] == 'cls': return BObj(t[1], {n: self.bundle_for(ft, name + '.' + n) for n, ft, _ in self.fields(t[1])})
        raise Unsupported('bundle for type %s' % (t,))
    def sym_array(self, n, et, name): return ArrS(P(n), self.bundle_for(et, name), (), et)

    # ---- facts ----------------------------------------------------------------
    def factstamp(self):
        # interned, not hashed: hash(-1) == hash(-2)
        k = (len(self.facts), tuple(map(id, self.facts)))
        if self._fs is None or self._fs[0] != k:
            t = tuple(f_key(f) for f in self.facts); self._fs = (k, self._stamps.setdefault(t, len(self._stamps)), list(self.facts))
        return self._fs[1]
    def assume(self, f):
        if f[0] == 'T': return
        if f[0] == 'and':
            for x in f[1]: self.assume(x)
            return
        self.facts.append(f)
    def instantiate(self, fs):
        """instances of array axioms for the reads occurring in fs"""
        if not self.axioms and not self.fnfacts: return []
        out = []; seen = set(); work = list(fs)
        for _ in range(3):
            new = []
            for f in work:
                for p in f_polys(f):
                    for a in smt._allatoms(p):
                        if a in seen: continue
                        seen.add(a)
                        if a.kind == 'read' and a.a[0] in self.axioms:
                            if any(x.kind == 'bv' for x in a.fv): continue
                            for g in self.axioms[a.a[0]](*a.a[1]): 
                                if g[0] != 'T': new.append(g)
                        elif a in self.fnfacts: new += self.fnfacts[a]
            if not new: break
            out += new; work = new
        return out
    def decide(self, f):
        if f[0] == 'T': return True
        if f[0] == 'F': return False
        key = (f_key(f), self.factstamp())
        r = self._dcache.get(key, 0)
        if r != 0: return r
        r = self._decide(f)
        self._dcache[key] = r
        return r
    def refutes(self, f):
        """cheap test that f is impossible under the facts (linear reasoning only)"""
        if f[0] == 'F': return True
        key = ('cheap', f_key(f), self.factstamp())
        r = self._dcache.get(key)
        if r is None:
            self.tick()
            ex = self.instantiate(list(self.facts) + [f])
            r = self._dcache[key] = smt.prove(list(self.facts) + ex, Not(f), 1500, 'lin') == 'proved'
        return r
    def _decide(self, f):
        self.tick()
        fk = f_key(f); nk = f_key(Not(f))
        for g in self.facts:
            k = f_key(g)
            if k == fk: return True
            if k == nk: return False
        if f[0] == 'and':
            rs = [self.decide(x) for x in f[1]]
            if any(r is False for r in rs): return False
            if all(r is True for r in rs): return True
        fs = self.facts
        ex = self.instantiate(list(fs) + [f])
        fs = list(fs) + ex
        if smt.prove(fs, f, 1500) == 'proved': return True
        if smt.prove(fs, Not(f), 1500) == 'proved': return False
        if self.qmode:
            if smt.check_q(fs + [Not(f)], 1500) == 'unsat': return True
            if smt.check_q(fs + [f], 1500) == 'unsat': return False
        return None
    def prove(self, f, timeout=8000):
        if f[0] == 'T': return 'proved'
        if f[0] == 'F':
            ex = self.instantiate(list(self.facts))
            return 'proved' if smt.check(list(self.facts) + ex, timeout) == 'unsat' else 'refuted'
        fk = f_key(f)
        for g in self.facts:
            if f_key(g) == fk: return 'proved'
        ex = self.instantiate(list(self.facts) + [f])
        r = smt.prove(list(self.facts) + ex, f, timeout)
        if r != 'proved' and self.qmode and smt.check_q(list(self.facts) + ex + [Not(f)], timeout) == 'unsat': return 'proved'
        return r
    def unsat(self):
        fs = list(self.facts)
        if smt.check(fs, 1500) == 'unsat': return True
        ex = self.instantiate(fs)
        if ex and smt.check(fs + ex, 1500) == 'unsat': return True
        return bool(self.qmode and smt.check_q(fs + ex, 1500) == 'unsat')
    symdepth = 0
    summarise = False      # loops of constant trip count too are verified by an invariant

    qmode = False        # hand quantified facts to the solver
    def tick(self):
        if self.deadline and time.time() > self.deadline: raise Unsupported('time limit of the verifier reached')
    def oblige(self, name, f, node=None, detail=''):
        """record proof obligation"""
        if not self.record: return True
        t0 = time.time()
        r = self.prove(f)
        self.obls.append(Obl(name, r == 'proved', self.loc(node), detail or ('' if r == 'proved' else show_f(f)[:400]), r, time.time() - t0))
        return r == 'proved'
    def loc(self, node):
        if node is None: return self.frames[-1]['name'] if self.frames else ''
        f = (node.get('_file') or '?').replace(frontend.REPO + '/', '')
        return '%s:%s' % (f, node.get('_line'))

    # ---- store ----------------------------------------------------------------
    def new_root(self, val, name='t'):
        self.nroot += 1
        r = '%s@%d' % (name, self.nroot)
        self.store[r] = val
        return LV(r)
    def get(self, lv):
        v = self.store[lv.root]
        for k, x in lv.path:
            if k == 'f':
                if not isinstance(v, Obj): raise Unsupported('field %s of %s' % (x, type(v).__name__))
                v = v.f[x]
            elif k == 'i': v = aelem(v, x)
            elif k == 'n': v = v.n
        return v
    def set(self, lv, val, kind='set'):
        self.store[lv.root] = self._set(self.store[lv.root], lv.path, val, kind)
    def _set(self, v, path, val, kind):
        if not path:
            return v + scal(val) if kind == 'add' else val
        k, x = path[0]
        if k == 'f':
            if isinstance(v, Uninit): raise Unsupported('field of uninitialised')
            return v.with_(x, self._set(v.f[x], path[1:], val, kind))
        if k == 'i':
            if isinstance(v, ArrC):
                c = x.const()
                if c is not None:
                    c = int(c)
                    if not 0 <= c < len(v.v): raise Unsupported('write out of range %d of %d' % (c, len(v.v)))
                    l = list(v.v); l[c] = self._set(l[c], path[1:], val, kind)
                    return ArrC(l, v.et)
                v = lift(v)
            if isinstance(v, ArrS):
                if v.pre: v = rebase(v)
                if len(path) > 1 and path[-1][0] != 'n' and False: pass
                return ArrS(v.n, bwrite(v.b, (x,), path[1:], val, kind), (), v.et)
            raise Unsupported('index write into %s' % type(v).__name__)
        if k == 'n':
            if isinstance(v, ArrC): v = lift(v)
            return ArrS(val, v.b, v.pre, v.et)
        raise Unsupported('set path')

    # ---- joins ----------------------------------------------------------------
    def join(self, alts, base):
        """alts: [(added facts, store)], mutually exclusive & exhaustive relative to base facts."""
        if len(alts) == 1:
            fs, st = alts[0]
            self.store = st; self.facts = base + fs
            return
        fs, st = alts[-1]
        conds = [self.pc(f) for f, _ in alts]
        store = dict(st)
        for (f, s), c in zip(reversed(alts[:-1]), reversed(conds[:-1])):
            ns = {}
            for r in store:
                if r in s:
                    a, b = s[r], store[r]
                    ns[r] = a if a is b else self.mv(c, a, b)
                else: ns[r] = store[r]
            for r in s:
                if r not in ns: ns[r] = s[r]
            store = ns
        self.store = store
        d = Or(*conds)
        self.facts = list(base)
        if d[0] != 'T' and not self.tauto(d): self.facts.append(d)
    def tauto(self, d):
        return smt.prove([], d, 500) == 'proved'
    def mv(self, c, a, b):
        try: return merge_val(c, a, b)
        except Unsupported as e: return Opaque('unmergeable: %s' % e)

    # ---- statements -----------------------------------------------------------
    def exec(self, n):
        """executes n; self.store is None afterwards when no normal continuation; returns abrupt outcomes"""
        self.tick()
        k = n.get('kind')
        m = getattr(self, 's_' + k, None) if k else None
        if m is not None: return m(n) or []
        if k is None or k == 'NullStmt': return []
        self.ev_any(n)
        return []
    def s_CompoundStmt(self, n):
        outs = []
        for c in n.get('inner', ()):
            outs += self.exec(c)
            if self.store is None: break
        return outs
    def s_NullStmt(self, n): return []
    def s_DeclStmt(self, n):
        for d in n.get('inner', ()):
            if d['kind'] == 'VarDecl': self.decl(d)
            elif d['kind'] in ('CXXRecordDecl', 'TypedefDecl', 'UsingDecl', 'UsingDirectiveDecl', 'TypeAliasDecl', 'StaticAssertDecl'): pass
            else: raise Unsupported('declaration ' + d['kind'], d)
    def decl(self, d):
        t = ntype(d)
        init = [c for c in d.get('inner', ()) if c.get('kind') and not c['kind'].endswith('Attr') and c['kind'] != 'FullComment']
        if is_ref(d) and init:
            lv = self.lv_or_temp(init[-1])
            self.frames[-1]['env'][d['id']] = lv
            return
        if init: v = self.ev(init[-1], t)
        else: v = self.default(t)
        v = self.coerce(v, t)
        self.frames[-1]['env'][d['id']] = self.new_root(v, d.get('name', 'v'))
    def coerce(self, v, t):
        if isinstance(v, tuple) and t in ('int', 'double'): return ind(v)
        if isinstance(v, Poly) and t == 'bool': return to_formula(v)
        if isinstance(v, Poly) and t == 'int' and v.sort() == 'real':
            return self.trunc(v)
        if isinstance(v, ArrC) and v.et is None and not isinstance(t, str) and t[0] in ('vec', 'sarr', 'arr'): return ArrC(v.v, t[1])
        if isinstance(v, ArrC) and not isinstance(t, str) and t[0] == 'arr' and len(v.v) < t[2]:
            return ArrC(v.v + tuple(self.zero(t[1]) for _ in range(t[2] - len(v.v))), t[1])
        return v
    def trunc(self, v):
        c = v.const()
        if c is not None: return P(int(Q(c)))
        if v.sort() == 'int': return v
        return fn('trunc', (v,), 'int')
    def default(self, t):
        """default-initialised (indeterminate for scalars)"""
        if t in ('int', 'double', 'bool'): return UNINIT
        if t == 'string': return StrV('')
        if t[0] == 'ptr': return UNINIT
        if t[0] == 'arr': return ArrC([self.default(t[1]) for _ in range(t[2])], t[1])
        return self.zero(t)
    def zero(self, t):
        """value-initialised"""
        if t in ('int', 'double'): return ZERO
        if t == 'bool': return FALSE
        if t == 'string': return StrV('')
        if t[0] == 'vec': return ArrC((), t[1])
        if t[0] in ('sarr', 'arr'): return ArrC([self.zero(t[1]) for _ in range(t[2])], t[1])
        if t[0] == 'pair': return Obj('pair', {'first': self.zero(t[1]), 'second': self.zero(t[2])})
        if t[0] == 'ptr': return NULL
        if t[0] == 'cls':
            if self.record_of(t[1]) is None:
                r = self.lib.value(t[1]) if self.lib is not None else NotImplemented
                return r if r is not NotImplemented else Opaque(t[1])
            return self.construct(t, [], 'void ()', None)
        raise Unsupported('zero of %s' % (t,))
    def s_ReturnStmt(self, n):
        fr = self.frames[-1]
        v = None
        if n.get('inner'):
            if fr['ret_ref']: v = ('LV', self.lv(n['inner'][0]))
            else: v = self.coerce(self.ev(n['inner'][0], fr['ret']), fr['ret'])
        o = Out('return', self.facts[fr['base']:], self.store, v, n)
        self.store = None
        return [o]
    def s_BreakStmt(self, n):
        o = Out('break', self.facts[self.frames[-1]['base']:], self.store); self.store = None
        return [o]
    def s_ContinueStmt(self, n):
        o = Out('continue', self.facts[self.frames[-1]['base']:], self.store); self.store = None
        return [o]
    def s_IfStmt(self, n):
        inn = list(n['inner'])
        if n.get('hasInit'): outs0 = self.exec(inn.pop(0))
        if n.get('hasVar'): self.exec(inn.pop(0))
        c = to_formula(self.ev(inn[0]))
        then = inn[1]; els = inn[2] if len(inn) > 2 else None
        d = self.decide(c)
        if d is True: return self.exec(then)
        if d is False: return self.exec(els) if els else []
        base = list(self.facts); st0 = self.store
        alts = []; outs = []
        for cond, body in ((c, then), (Not(c), els)):
            self.store = dict(st0); self.facts = list(base)
            self.assume(cond)
            if body is not None: outs += self.exec(body)
            if self.store is not None: alts.append((self.facts[len(base):], self.store))
        if not alts:
            self.store = None; self.facts = base
        else: self.join(alts, base)
        return outs
    def s_ForStmt(self, n):
        inn = n['inner']
        outs = []
        if inn[0].get('kind'): outs += self.exec(inn[0])
        outs += self.loop(inn[2] if inn[2].get('kind') else None, inn[3] if inn[3].get('kind') else None, inn[4], n)
        return outs
    def s_WhileStmt(self, n):
        inn = [c for c in n['inner'] if c.get('kind')]
        return self.loop(inn[0], None, inn[-1], n)
    def s_DoStmt(self, n):
        body, cond = n['inner'][0], n['inner'][1]
        return self.loop(cond, None, body, n, post=True)
    def s_CXXForRangeStmt(self, n):
        # inner: init?, range decl, begin decl, end decl, cond, inc, loopvar decl, body
        inn = n['inner']
        rng = [c for c in inn if c.get('kind') == 'DeclStmt']
        rdecl = rng[0]['inner'][0]
        lvdecl = inn[-2]; body = inn[-1]
        init = [c for c in rdecl.get('inner', ()) if c.get('kind')]
        cont = self.lv_or_temp(init[-1])
        pos = self.new_root(ZERO, 'rangepos')
        d = lvdecl['inner'][0]
        ref = is_ref(d)
        def cond(): return lt(self.get(pos), self.get(cont).n)
        def inc(): self.set(pos, self.get(pos) + 1)
        def bd():
            if ref: self.frames[-1]['env'][d['id']] = cont.at(('i', self.get(pos)))
            else:
                self.frames[-1]['env'][d['id']] = self.new_root(self.get(cont.at(('i', self.get(pos)))), d.get('name', 'r'))
            return self.exec(body)
        return self.loop(cond, inc, bd, n)
    def s_OMPParallelForDirective(self, n):
        body = None
        def find(x):
            nonlocal body
            if x.get('kind') == 'ForStmt': body = x; return
            for c in x.get('inner', ()):
                if body is None and isinstance(c, dict): find(c)
        find(n)
        self.omp_next = True
        return self.exec(body)
    def s_SwitchStmt(self, n): raise Unsupported('switch', n)
    def s_CXXTryStmt(self, n): raise Unsupported('try', n)

    # ---- loops ----------------------------------------------------------------
    def cond_f(self, c):
        if c is None: return TRUE
        if callable(c): return c()
        return to_formula(self.ev(c))
    def run_part(self, x):
        if x is None: return []
        if callable(x): return x() or []
        return self.exec(x)
    def loop(self, cond, inc, body, node, post=False):
        import loops
        omp = getattr(self, 'omp_next', False); self.omp_next = False
        outs = []; exits = []
        base = len(self.facts); basef = list(self.facts)
        fb = self.frames[-1]['base']
        it = 0
        first = post
        while True:
            self.tick()
            if not first:
                c = self.cond_f(cond)
                if c[0] != 'T' and c[0] != 'F' or c[0] == 'T' and it == 0 and self.summarise:
                    r = self.quick(c) if c[0] != 'T' else None
                    if r is None:
                        if it > 0 and not exits and it < 4 and False: pass
                        o2, ex2 = loops.symbolic(self, cond, inc, body, node, post, omp, it)
                        outs += o2
                        exits += ex2
                        break
                    c = TRUE if r else FALSE
                if c[0] == 'F':
                    exits.append((self.facts[base:], self.store)); break
            first = False
            it += 1
            if it > 200000: raise Unsupported('loop does not terminate in the verifier', node)
            ob = self.run_part(body)
            conts = []
            for o in ob:
                if o.kind == 'break': exits.append((o.facts[base - fb:], o.store))
                elif o.kind == 'continue': conts.append((o.facts[base - fb:], o.store))
                else: outs.append(o)
            if self.store is not None: conts.append((self.facts[base:], self.store))
            if not conts:
                self.store = None; break
            if len(conts) > 1 or conts[0][1] is not self.store: self.join(conts, basef)
            self.run_part(inc)
        if exits: self.join(exits, basef)
        else: self.store = None; self.facts = basef
        return outs
    def quick(self, c):
        """decided by facts syntactically (no solver)"""
        if c[0] == 'T': return True
        if c[0] == 'F': return False
        return None

    # ---- expressions ----------------------------------------------------------
    def ev_any(self, n):
        n = unwrap(n)
        if n.get('valueCategory') in ('lvalue', 'xvalue'):
            return self.lv_or_temp(n)
        return self.ev(n)
    def ev(self, n, want=None):
        n = unwrap(n)
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Unsupported('expression ' + k, n)
        if n.get('valueCategory') in ('lvalue', 'xvalue') and k not in ('CXXStaticCastExpr',):
            return self.get(self.lv(n))
        if k == 'InitListExpr': return self.e_InitListExpr(n, want)
        return m(n)
    def lv_or_temp(self, n):
        n = unwrap(n)
        if n.get('valueCategory') in ('lvalue', 'xvalue') and n['kind'] != 'MaterializeTemporaryExpr': return self.lv(n)
        if n['kind'] == 'ImplicitCastExpr' and n.get('castKind') == 'NoOp' and n.get('valueCategory') in ('lvalue', 'xvalue'): return self.lv(n)
        if n['kind'] == 'MaterializeTemporaryExpr':
            return self.new_root(self.coerce(self.ev(n['inner'][0], ntype(n)), ntype(n)), 'tmp')
        return self.new_root(self.coerce(self.ev(n, ntype(n)), ntype(n)), 'tmp')
    def lv(self, n):
        n = unwrap(n)
        k = n['kind']
        if k == 'DeclRefExpr':
            r = n['referencedDecl']
            for fr in (self.frames[-1],):
                e = fr['env']
                while e is not None:
                    if r['id'] in e: return e[r['id']]
                    e = e.get('__outer')
            return self.static_lv(r, n)
        if k == 'MemberExpr':
            name = n['name']
            md = self.u.byid.get(n.get('referencedMemberDecl'))
            if md is not None and md.get('kind') == 'VarDecl': return self.static_lv(md, n)
            b = n['inner'][0]
            if n.get('isArrow'):
                o = self.ev(b)
                if isinstance(o, PtrV): return self.deref(o, n).at(('f', name))
                raise Unsupported('-> on %s' % type(o).__name__, n)
            return self.lv_or_temp(b).at(('f', name))
        if k == 'ArraySubscriptExpr':
            b = self.ev(n['inner'][0]); i = self.ev(n['inner'][1])
            if not isinstance(b, PtrV): raise Unsupported('subscript of %s' % type(b).__name__, n)
            return self.index_lv(b.lv, b.off + i, n)
        if k == 'UnaryOperator' and n['opcode'] == '*':
            return self.deref(self.ev(n['inner'][0]), n)
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            lv = self.lv(n['inner'][0])
            v = self.get(lv); d = 1 if n['opcode'] == '++' else -1
            self.set(lv, PtrV.__new__(type(v)) if False else (type(v)(v.lv, v.off + d) if isinstance(v, PtrV) else scal(v) + d))
            return lv
        if k == 'ImplicitCastExpr' or k in ('CXXStaticCastExpr', 'CStyleCastExpr', 'CXXConstCastExpr', 'CXXFunctionalCastExpr'):
            ck = n.get('castKind')
            if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'LValueBitCast'): return self.lv_or_temp(n['inner'][0])
            raise Unsupported('lvalue cast ' + str(ck), n)
        if k == 'BinaryOperator' and n['opcode'] == '=':
            # sequenced right to left (C++17)
            lt_ = n['inner'][0]
            t = ntype(n)
            if isinstance(t, tuple) and t[0] == 'ptr' and not self.heap: return self.ptr_assign(n, t)
            v = self.coerce(self.ev(n['inner'][1], t), t)
            lv = self.lv(lt_)
            self.set(lv, v)
            return lv
        if k == 'BinaryOperator' and n['opcode'] == ',':
            self.ev_any(n['inner'][0]); return self.lv(n['inner'][1])
        if k == 'CompoundAssignOperator':
            v = self.ev(n['inner'][1])
            lv = self.lv(n['inner'][0])
            op = n['opcode'][:-1]
            t = ntype(n)
            if op in '+-' and t == 'double' and lv.path and lv.path[-1][0] == 'i':
                cv = scal(v) if op == '+' else -scal(v)
                if self.is_symarr(lv):
                    self.set(lv, cv, 'add'); return lv
            self.set(lv, self.coerce(self.arith(op, self.get(lv), v, ntype(n), n), t))
            return lv
        if k == 'CXXOperatorCallExpr':
            r = self.call_operator(n)
            if isinstance(r, LV): return r
            return self.new_root(r, 'tmp')
        if k in ('CallExpr', 'CXXMemberCallExpr'):
            r = self.e_CallExpr(n) if k == 'CallExpr' else self.e_CXXMemberCallExpr(n)
            if isinstance(r, LV): return r
            return self.new_root(r, 'tmp')
        if k == 'MaterializeTemporaryExpr': return self.lv_or_temp(n)
        if k == 'ConditionalOperator':
            c = to_formula(self.ev(n['inner'][0]))
            d = self.decide(c)
            if d is not None: return self.lv(n['inner'][1 if d else 2])
            a = self.ev(n['inner'][1]); b = self.ev(n['inner'][2])
            return self.new_root(merge_val(c, a, b), 'tmp')
        if k == 'StringLiteral': return self.new_root(StrV(n.get('value')), 'str')
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'InitListExpr'): return self.new_root(self.ev(n), 'tmp')
        if k == 'CXXThisExpr': return self.new_root(self.ev(n), 'tmp')
        if k == 'CXXDefaultArgExpr': return self.new_root(self.ev(n), 'tmp')
        raise Unsupported('lvalue ' + k, n)
    def is_symarr(self, lv):
        v = self.store[lv.root]
        for kk, x in lv.path:
            if kk == 'f': v = v.f[x]
            elif kk == 'i':
                if isinstance(v, ArrS): return True
                if isinstance(v, ArrC):
                    if x.const() is None: return True
                    v = v.v[int(x.const())]
        return False
    def ptr_assign(self, n, t):
        """assignment to an owning pointer member (inline array model, see C03)"""
        rhs = unwrap(n['inner'][1])
        while rhs['kind'] in ('ImplicitCastExpr',) and rhs.get('castKind') in ('NoOp', 'BitCast'): rhs = unwrap(rhs['inner'][0])
        v = self.ev(rhs)
        lv = self.lv(n['inner'][0])
        if isinstance(v, (ArrC, ArrS, Null)): self.set(lv, v)
        elif isinstance(v, PtrV):
            if lv.path: raise Unsupported('pointer stored into an object: outside the inline ownership model', n)
            self.set(lv, v)
        else: raise Unsupported('pointer assignment', n)
        return lv
    def deref(self, p, n):
        if isinstance(p, LV): return p
        if isinstance(p, PtrV):
            if p.off is None: return p.lv
            return self.index_lv(p.lv, p.off, n)
        raise Unsupported('deref of %s' % type(p).__name__, n)
    def index_lv(self, lv, i, n):
        a = self.get(lv)
        if isinstance(a, Uninit): raise Unsupported('use of an uninitialised array', n)
        if isinstance(a, (Null,)): raise Unsupported('use of a null array', n)
        if not isinstance(a, (ArrC, ArrS)): raise Unsupported('index into %s' % type(a).__name__, n)
        i = scal(i)
        self.check_index(a, i, n)
        return lv.at(('i', i))
    def check_index(self, a, i, n):
        c = i.const()
        if isinstance(a, ArrC) and c is not None:
            if not 0 <= c < len(a.v):
                if self.record: self.obls.append(Obl('index in range', False, self.loc(n), 'index %s, size %d: %s' % (c, len(a.v), self.u.line_text(n)), 'refuted'))
                raise OutOfRange('index %s out of range, size %d at %s' % (c, len(a.v), self.loc(n)))
            self.nbounds = getattr(self, 'nbounds', 0) + 1
            return
        if self.bounds and self.record:
            f = And(le(0, i), lt(i, a.n))
            if not self.oblige('index in range', f, n, ''):
                self.obls[-1].detail = show_f(f) + '  in: ' + self.u.line_text(n)
                self.derive(f)
        else:
            self.derive(And(le(0, i), lt(i, a.n)))
    def derive(self, f):
        """fact implied by the path (or assumed after a failed obligation): never part of a path condition"""
        if f[0] == 'T': return
        if f[0] == 'and':
            for x in f[1]: self.derive(x)
            return
        k = f_key(f)
        for g in self.facts:
            if f_key(g) == k: return
        f = ('der',) + (f,) if False else tuple(list(f))
        self.derived[id(f)] = f
        self.facts.append(f)
    def pc(self, fs):
        return And(*[f for f in fs if id(f) not in self.derived])

    def static_lv(self, r, n):
        """global / static data member"""
        key = r['id']
        if key in self.statics:
            root = self.statics[key]
            if root in self.store: return LV(root)
        d = self.u.byid.get(key, r)
        v = self.static_value(d, n)
        root = 'static:%s:%s' % (r.get('name'), key)
        self.statics[key] = root
        self.store[root] = v
        return LV(root)
    def static_value(self, d, n):
        init = [c for c in d.get('inner', ()) if c.get('kind') and not c['kind'].endswith('Attr')]
        t = ntype(d) if d.get('type') else None
        par = self.u.parent.get(d.get('id')) if d.get('id') in self.u.byid else None
        if not init and par is not None and par.get('kind') == 'ClassTemplateSpecializationDecl':
            # definition is on the uninstantiated pattern: static data member of a class template
            pat = self.pattern_static(par['name'], d['name'])
            if pat is not None:
                init = [c for c in pat.get('inner', ()) if c.get('kind') and not c['kind'].endswith('Attr')]
        if not init and d.get('name') == 'npos': return P(2 ** 64 - 1)
        if not init and 'ostream' in ((d.get('type') or {}).get('qualType') or ''): return Opaque('ostream')
        if not init:
            raise Unsupported('no initialiser for static ' + str(d.get('name')), n)
        self.frames.append({'env': {}, 'base': len(self.facts), 'ret': 'void', 'ret_ref': False, 'name': 'static', 'this': None})
        try: v = self.ev(init[-1], t)
        finally: self.frames.pop()
        return self.coerce(v, t) if t else v
    def pattern_static(self, cls, name):
        cands = []
        for i, x in self.u.byid.items():
            if x.get('kind') == 'VarDecl' and x.get('name') == name and x.get('inner') and x.get('parentDeclContextId'):
                p = self.u.byid.get(x['parentDeclContextId'])
                if p is not None and p.get('name') == cls: cands.append(x)
        return cands[0] if cands else None

    # literals
    def e_IntegerLiteral(self, n): return P(int(n['value']))
    def e_FloatingLiteral(self, n): return P(Q(self.float_text(n)))
    def float_text(self, n):
        # the shortest decimal that denotes the same double (clang prints 17 digits: 1.0009999999999999)
        return Q(repr(float(n['value'])))
    def sci(self, v):
        m, e = v.lower().split('e'); e = int(e); q = Q(m)
        q = q * (Q(10) ** e)
        return q.numerator, q.denominator
    def e_CXXBoolLiteralExpr(self, n): return TRUE if n['value'] else FALSE
    def e_CharacterLiteral(self, n): return P(int(n['value']))
    def e_StringLiteral(self, n): return StrV(n.get('value'))
    def e_CXXNullPtrLiteralExpr(self, n): return NULL
    def e_GNUNullExpr(self, n): return NULL
    def e_DeclRefExpr(self, n):
        r = n['referencedDecl']
        if r['kind'] in ('FunctionDecl', 'CXXMethodDecl'): return FnV(r)
        if r.get('name') == 'npos': return P(2 ** 64 - 1)
        if r['kind'] == 'EnumConstantDecl': raise Unsupported('enum', n)
        return self.get(self.lv(n))
    e_MemberExpr = e_ArraySubscriptExpr = lambda self, n: self.get(self.lv(n))
    def e_CXXThisExpr(self, n):
        t = self.frames[-1]['this']
        return PtrV(t, None)
    def e_MaterializeTemporaryExpr(self, n): return self.ev(n['inner'][0], ntype(n))
    def e_CXXDefaultArgExpr(self, n): raise Unsupported('default argument', n)
    def e_CXXFunctionalCastExpr(self, n): return self.cast(n)
    def e_CStyleCastExpr(self, n): return self.cast(n)
    def e_CXXStaticCastExpr(self, n): return self.cast(n)
    def e_ImplicitCastExpr(self, n): return self.cast(n)
    def e_CXXConstCastExpr(self, n): return self.cast(n)
    def e_CXXStdInitializerListExpr(self, n): return self.ev(n['inner'][0], ntype(n))
    def cast(self, n):
        ck = n.get('castKind'); x = n['inner'][0]
        if ck == 'LValueToRValue':
            lv = self.lv_or_temp(x)
            t = ntype(n)
            if isinstance(t, tuple) and t[0] == 'ptr' and not self.heap:
                v = self.get(lv)
                if isinstance(v, (ArrC, ArrS, Uninit)): return PtrV(lv, ZERO)
                return v
            v = self.get(lv)
            if isinstance(v, Uninit):
                v = fresh('uninit', 'int' if t == 'int' else 'real') if t in ('int', 'double') else (boolvar(fresh_name('uninit')) if t == 'bool' else v)
                if isinstance(v, Poly) or isinstance(v, tuple): self.set(lv, v)
            return v
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase', 'BitCast', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'ToVoid', 'Dependent'):
            return self.ev(x, ntype(n))
        if ck == 'ArrayToPointerDecay':
            if unwrap(x)['kind'] == 'StringLiteral': return StrV(unwrap(x).get('value'))
            return PtrV(self.lv_or_temp(x), ZERO)
        if ck in ('IntegralToFloating', 'IntegralCast', 'FloatingCast'):
            v = self.ev(x)
            return ind(v) if isinstance(v, tuple) else v
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'): return to_formula(self.ev(x))
        if ck == 'FloatingToIntegral': return self.trunc(scal(self.ev(x)))
        if ck == 'NullToPointer': return NULL
        if ck == 'PointerToBoolean':
            v = self.ev(x)
            return FALSE if isinstance(v, Null) else TRUE
        raise Unsupported('cast ' + str(ck), n)
    def e_UnaryOperator(self, n):
        op = n['opcode']; x = n['inner'][0]
        if op in ('++', '--'):
            lv = self.lv(x); v = self.get(lv); d = 1 if op == '++' else -1
            nv = type(v)(v.lv, v.off + d) if isinstance(v, PtrV) else scal(v) + d
            self.set(lv, nv)
            return v if n.get('isPostfix') else nv
        if op == '-': return -scal(self.ev(x))
        if op == '+': return scal(self.ev(x))
        if op == '!': return Not(to_formula(self.ev(x)))
        if op == '*': return self.get(self.lv(n))
        if op == '&': return PtrV(self.lv(x), None)
        raise Unsupported('unary ' + op, n)
    def e_BinaryOperator(self, n):
        op = n['opcode']
        if op in ('=',): return self.get(self.lv(n))
        if op == ',':
            self.ev_any(n['inner'][0]); return self.ev(n['inner'][1])
        if op in ('&&', '||'):
            a = to_formula(self.ev(n['inner'][0]))
            d = self.decide(a) if a[0] not in 'TF' else (a[0] == 'T')
            if d is not None:
                if (op == '&&') != d: return TRUE if d else FALSE
                return to_formula(self.ev(n['inner'][1]))
            self.facts.append(a if op == '&&' else Not(a))
            k = len(self.facts)
            try: b = to_formula(self.ev(n['inner'][1]))
            finally: del self.facts[k - 1:]
            return And(a, b) if op == '&&' else Or(a, b)
        a = self.ev(n['inner'][0]); b = self.ev(n['inner'][1])
        return self.arith(op, a, b, ntype(n), n)
    def e_CompoundAssignOperator(self, n): return self.get(self.lv(n))
    def arith(self, op, a, b, t, n):
        if isinstance(a, PtrV) or isinstance(b, PtrV): return self.parith(op, a, b, n)
        if isinstance(a, Null) and isinstance(b, Null) and op in ('==', '!='): return TRUE if op == '==' else FALSE
        if isinstance(a, Null) and op in '+-' and isinstance(b, Poly) and b.const() == 0: return a
        if isinstance(a, Null) or isinstance(b, Null): raise Unsupported('null comparison', n)
        if isinstance(a, tuple) and isinstance(b, tuple) and op in ('==', '!='):
            r = Or(And(a, b), And(Not(a), Not(b)))
            return r if op == '==' else Not(r)
        a, b = scal(a), scal(b)
        if op == '+': return a + b
        if op == '-': return a - b
        if op == '*': return a * b
        if op == '/':
            if t == 'int': return self.idiv(a, b, n)
            self.note_div(b, n)
            return a * inv(b)
        if op == '%': return self.imod(a, b, n)
        if op == '<': return lt(a, b)
        if op == '<=': return le(a, b)
        if op == '>': return gt(a, b)
        if op == '>=': return ge(a, b)
        if op in ('==', '!='):
            x = odd_test(self, a - b) if t is not None and (a - b).d else None
            if x is not None: return ne(imod(x, P(2)), 0) if op == '==' else eq(imod(x, P(2)), 0)
            return eq(a, b) if op == '==' else ne(a, b)
        raise Unsupported('operator ' + op, n)
    def note_div(self, b, n):
        c = b.const()
        if c is not None and c == 0 and self.record:
            if not getattr(self, "ieee_div", False): self.obls.append(Obl('division by zero', False, self.loc(n), self.u.line_text(n), 'refuted'))
    def idiv(self, a, b, n=None):
        return idiv(a, b)
    def imod(self, a, b, n=None):
        return imod(a, b)
    def parith(self, op, a, b, n):
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            if not a.lv.same(b.lv):
                if op in ('==', '!=') and a.lv.root != b.lv.root: return FALSE if op == '==' else TRUE
                raise Unsupported('pointer arithmetic across objects', n)
            ao = a.off if a.off is not None else ZERO; bo = b.off if b.off is not None else ZERO
            if op == '-': return ao - bo
            return self.arith(op, ao, bo, 'bool', n)
        if isinstance(a, PtrV) and op in '+-':
            return type(a)(a.lv, a.off + scal(b) if op == '+' else a.off - scal(b))
        if isinstance(b, PtrV) and op == '+': return type(b)(b.lv, b.off + scal(a))
        if op in ('==', '!=') and (isinstance(a, Null) or isinstance(b, Null)): return FALSE if op == '==' else TRUE
        raise Unsupported('pointer operator ' + op, n)
    def e_ConditionalOperator(self, n):
        c, x, y = n['inner']
        if self.is_assert(n): return self.do_assert(n)
        f = to_formula(self.ev(c))
        d = self.decide(f)
        if d is True: return self.ev(x)
        if d is False: return self.ev(y)
        base = list(self.facts); st0 = self.store
        self.store = dict(st0); self.assume(f); a = self.ev(x); s1, f1 = self.store, self.facts[len(base):]
        self.store = dict(st0); self.facts = list(base); self.assume(Not(f)); b = self.ev(y); s2, f2 = self.store, self.facts[len(base):]
        self.join([(f1, s1), (f2, s2)], base)
        return merge_val(f, a, b)
    def is_assert(self, n):
        y = unwrap(n['inner'][2])
        if y.get('kind') == 'CallExpr':
            c = unwrap(y['inner'][0])
            while c.get('kind') == 'ImplicitCastExpr': c = unwrap(c['inner'][0])
            return c.get('kind') == 'DeclRefExpr' and c['referencedDecl'].get('name') == '__assert_fail'
        return False
    def do_assert(self, n):
        f = to_formula(self.ev(n['inner'][0]))
        if f[0] == 'T': return ZERO
        ok = self.oblige('assertion', f, n, '')
        if not ok and f[0] == 'F': raise OutOfRange('assertion fails at ' + self.loc(n))
        self.derive(f)
        return ZERO
    def e_CXXScalarValueInitExpr(self, n): return self.zero(ntype(n))
    def e_ImplicitValueInitExpr(self, n): return self.zero(ntype(n))
    def e_CXXUnresolvedConstructExpr(self, n):
        return [self.ev(c) for c in n['inner']][0] if n.get('inner') else ZERO
    def e_UnaryExprOrTypeTraitExpr(self, n): return P(8)
    def e_InitListExpr(self, n, want=None):
        t = ntype(n)
        if (t == 'void' or t == ('cls', 'void')) and want is not None: t = want
        if t in ('int', 'double', 'bool'):
            return self.ev(n['inner'][0]) if n.get('inner') else self.zero(t)
        if n.get('array_filler'):
            items = [c for c in n['array_filler'][1:]]
            vals = [self.ev(c) for c in items]
            if isinstance(t, tuple) and t[0] == 'arr': vals += [self.zero(t[1]) for _ in range(t[2] - len(vals))]
            return ArrC(vals, t[1])
        inner = n.get('inner', [])
        if isinstance(t, tuple) and t[0] in ('arr', 'vec', 'sarr'):
            vals = [self.coerce(self.ev(c, t[1]), t[1]) for c in inner]
            if t[0] == 'sarr' and len(vals) == 1 and isinstance(vals[0], ArrC) and not (isinstance(t[1], tuple) and t[1][0] in ('vec', 'sarr', 'arr')): vals = list(vals[0].v)
            if t[0] in ('arr', 'sarr') and isinstance(t[2], int) and len(vals) < t[2]: vals += [self.zero(t[1]) for _ in range(t[2] - len(vals))]
            return ArrC(vals, t[1])
        if isinstance(t, tuple) and t[0] == 'pair':
            return Obj('pair', {'first': self.ev(inner[0], t[1]), 'second': self.ev(inner[1], t[2])})
        if isinstance(t, tuple) and t[0] == 'cls' and self.record_of(t[1]) is not None:
            # class with initializer-list constructor in a dependent context (static data member pattern)
            vals = [self.ev(c) for c in inner]
            return self.construct(t, [self.new_root(ArrC(vals, 'double'), 'il')], None, n)
        if isinstance(t, tuple) and t[0] == 'cls' or t == 'void':
            # dependent type in a template pattern: bare list
            vals = [self.ev(c) for c in inner]
            return ArrC(vals, self.guess_et(vals))
        raise Unsupported('init list of %s' % (t,), n)
    def guess_et(self, vals):
        if not vals: return 'double'
        if isinstance(vals[0], Poly): return 'double'
        if isinstance(vals[0], ArrC): return ('vec', vals[0].et)
        if isinstance(vals[0], Obj): return ('cls', vals[0].cls)
        return None
    def e_CXXNewExpr(self, n):
        if not n.get('isArray'): raise Unsupported('scalar new', n)
        t = ntype(n)[1]
        size = scal(self.ev(n['inner'][0]))
        valinit = len(n['inner']) > 1 and unwrap(n['inner'][1]).get('kind') in ('ImplicitValueInitExpr', 'InitListExpr', 'CXXScalarValueInitExpr')
        if self.record: self.oblige('allocation size non-negative', le(0, size), n)
        c = size.const()
        if c is not None: arr = ArrC([self.zero(t) if valinit else (UNINIT if t in ('int', 'double') else self.zero(t)) for _ in range(int(c))], t)
        else:
            arr = self.sym_array(size, t, fresh_name('new'))
            if valinit: arr = ArrS(size, LeafArr(('const', ZERO), (), arr.b.sort), (), t)
        if self.heap:
            lv = self.new_root(arr, 'heap')
            self.heap_alloc(lv.root, n)
            return PtrV(lv, ZERO)
        return arr
    def heap_alloc(self, root, n):
        self.store['live:' + root] = TRUE
    def e_CXXDeleteExpr(self, n):
        if self.heap:
            v = self.ev(n['inner'][0])
            self.heap_free(v, n)
        return ZERO
    def heap_free(self, v, n):
        if isinstance(v, Null): return
        if isinstance(v, Uninit) or (isinstance(v, Poly)):
            self.obls.append(Obl('delete[] of an initialised pointer', False, self.loc(n), self.u.line_text(n), 'refuted')); return
        if not isinstance(v, PtrV): raise Unsupported('delete of %s' % type(v).__name__, n)
        live = self.store.get('live:' + v.lv.root, FALSE)
        self.oblige('delete[] of a live allocation', live, n)
        self.store['live:' + v.lv.root] = FALSE
    def e_LambdaExpr(self, n):
        fr = self.frames[-1]
        op = None
        for c in n.get('inner', ()):
            if c.get('kind') == 'CXXRecordDecl':
                for m in c.get('inner', ()):
                    if m.get('name') == 'operator()': op = m
        env = dict(fr['env']); 
        # by-copy captures are snapshots; by-reference share the root.  Copies are made for by-copy captures.
        return FnV(op, env=env, this=fr['this'])
    def e_CXXConstructExpr(self, n):
        t = ntype(n)
        ct = (n.get('ctorType') or {}).get('qualType')
        args = [c for c in n.get('inner', ())]
        if isinstance(t, tuple) and t[0] == 'arr':   # array of default-constructed objects
            return ArrC([self.zero(t[1]) for _ in range(t[2])], t[1])
        return self.construct(t, args, ct, n)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def arg_lv(self, a):
        return a if isinstance(a, LV) else self.lv_or_temp(a)
    def construct(self, t, args, ctype, n):
        if not isinstance(t, tuple) or t[0] != 'cls' or self.record_of(t[1]) is None:
            import stdlib
            return stdlib.construct(self, t, args, ctype, n)
        cls = t[1]
        rec = self.record_of(cls)
        cls = self.rec_key(rec)
        lvs = None
        # copy / move construction
        if len(args) == 1 and ctype and re.match(r'^void \((const )?(PANSFEM2::)?%s(<[^()]*>)? ?&&?\)' % re.escape(rec['name']), ctype) and not self.heap:
            if isinstance(args[0], LV): return self.get(args[0])
            return self.ev(args[0])
        if self.elidable(args, t): return self.ev(args[0])
        ctors = [c for c in rec.get('inner', ()) if c.get('kind') == 'CXXConstructorDecl']
        cand = [c for c in ctors if self.body_of(c) is not None and (ctype is None or self.same_sig((c.get('type') or {}).get('qualType'), ctype))]
        if ctype is None:
            cand = [c for c in ctors if self.body_of(c) is not None and len(self.params(c)) == len(args) and 'initializer_list' in c['type']['qualType']]
        for c in rec.get('inner', ()):
            if c.get('kind') == 'FunctionTemplateDecl' and not cand:
                for x in c.get('inner', ()):
                    if x.get('kind') == 'CXXConstructorDecl' and self.body_of(x) is not None and self.same_sig(x['type']['qualType'], ctype) and not self.in_pattern(x): cand.append(x)
        if not cand:
            if len(args) == 0 or (ctype == 'void () noexcept' or ctype == 'void ()'):
                return Obj(cls, {f: self.default_member(ft, fd) for f, ft, fd in self.fields(cls)})
            if len(args) == 1:
                return self.get(args[0]) if isinstance(args[0], LV) else self.ev(args[0])
            raise Unsupported('no constructor %s %s' % (cls, ctype), n)
        f = self.body_of(cand[0])
        obj = self.new_root(Obj(cls, {fn_: self.default_member(ft, fd) for fn_, ft, fd in self.fields(cls)}), 'obj')
        al = self.eval_args(f, args)
        self.invoke(f, obj, al, n)
        return self.get(obj)
    def elidable(self, args, t):
        return len(args) == 1 and not isinstance(args[0], LV) and unwrap(args[0]).get('valueCategory') == 'prvalue' and ntype(unwrap(args[0])) == t and unwrap(args[0])['kind'] in ('CallExpr', 'CXXOperatorCallExpr', 'CXXMemberCallExpr', 'CXXTemporaryObjectExpr', 'CXXConstructExpr', 'CXXFunctionalCastExpr')
    def same_sig(self, a, b):
        z = lambda s: re.sub(r'\s|noexcept|PANSFEM2::|std::|class ', '', s or '')
        return z(a) == z(b)
    def default_member(self, ft, fd):
        init = [c for c in fd.get('inner', ()) if c.get('kind') and not c['kind'].endswith('Attr')]
        if fd.get('hasInClassInitializer') and init: return self.coerce(self.ev(init[-1], ft), ft)
        if isinstance(ft, tuple) and ft[0] == 'cls' and self.record_of(ft[1]) is None: return self.zero(ft)
        return self.default(ft)
    def body_of(self, f):
        if '_body' in f: return f
        m = f.get('mangledName')
        return self._mangled.get(m)
    def params(self, f): return [c for c in f.get('inner', ()) if c.get('kind') == 'ParmVarDecl']

    # ---- calls ----------------------------------------------------------------
    def eval_args(self, f, args):
        """-> list of LVs (one per parameter)"""
        out = []
        ps = self.params(f)
        for i, p in enumerate(ps):
            t = ntype(p)
            if i < len(args):
                a = args[i]
                if isinstance(a, LV):
                    out.append(a if is_ref(p) else self.new_root(self.get(a), p.get('name', 'p')))
                elif is_ref(p): out.append(self.lv_or_temp(a))
                elif unwrap(a)['kind'] == 'CXXDefaultArgExpr' and not unwrap(a).get('inner'):
                    out.append(self.new_root(self.default_arg(f, p, t), p.get('name', 'p')))
                else: out.append(self.new_root(self.coerce(self.ev(a, t), t), p.get('name', 'p')))
            else: out.append(self.new_root(self.default_arg(f, p, t), p.get('name', 'p')))
        return out
    def default_arg(self, f, p, t):
        init = [c for c in p.get('inner', ()) if c.get('kind') and not c['kind'].endswith('Attr')]
        if not init: raise Unsupported('default argument of %s' % p.get('name'), p)
        return self.coerce(self.ev(init[-1], t), t)
    def invoke(self, f, this, lvs, n):
        """run body of function definition f with argument lvalues"""
        self.funcs_run.add(self.qn(f))
        self.depth += 1
        if self.depth > 60: raise Unsupported('recursion too deep', n)
        rt = (f.get('type') or {}).get('qualType', 'void ()')
        ret = rt[:rt.index('(')].strip() if '(' in rt else 'void'
        if ret == 'auto' and '->' in rt: ret = rt.split('->')[-1].strip()
        frame = {'env': {}, 'base': len(self.facts), 'ret': ptype(ret), 'ret_ref': ret.endswith('&'), 'name': self.qn(f), 'this': this}
        if frame['ret'] == ('cls', 'auto'): frame['ret'] = 'void'
        for p, lv in zip(self.params(f), lvs): frame['env'][p['id']] = lv
        basef = list(self.facts)
        self.frames.append(frame)
        try:
            if f['kind'] == 'CXXConstructorDecl':
                for c in f.get('inner', ()):
                    if c.get('kind') == 'CXXCtorInitializer':
                        ai = c.get('anyInit') or {}
                        if ai.get('name') and unwrap(c['inner'][0])['kind'] != 'CXXDefaultInitExpr':      # the member's own initialiser was used when the object was made
                            fd = self.u.byid.get(ai['id'], ai)
                            self.set(this.at(('f', ai['name'])), self.coerce(self.ev(c['inner'][0], ntype(fd)), ntype(fd)))
            outs = self.exec(f['_body'])
        finally:
            self.frames.pop(); self.depth -= 1
        alts = []; vals = []
        for o in outs:
            if o.kind != 'return': raise Unsupported('stray ' + o.kind)
            alts.append((o.facts, o.store)); vals.append(o.val)
        if self.store is not None:
            alts.append((self.facts[frame['base']:], self.store)); vals.append(None)
        if not alts:
            raise Unsupported('function never returns', n)
        self.join(alts, basef)
        if all(v is None for v in vals): return None
        if len(vals) == 1:
            v = vals[0]
            if isinstance(v, tuple) and len(v) == 2 and v[0] == 'LV': return v[1]
            return v
        r = vals[-1]
        if isinstance(r, tuple) and r and r[0] == 'LV':
            if all(v[1].same(r[1]) for v in vals): return r[1]
            vals = [self.get(v[1]) for v in vals]; r = vals[-1]
        if r is None: raise Unsupported('missing return value', n)
        for (fs, st), v in zip(reversed(alts[:-1]), reversed(vals[:-1])):
            r = merge_val(self.pc(fs), v, r)
        return r
    def call_repo(self, f, this, args, n):
        """f: definition node"""
        q = self.qn(f)
        lvs = self.eval_args(f, args)
        c = self.find_contract(f, q)
        if c is not None:
            r = c(self, f, this, lvs)
            if r is not NotImplemented: return r
        return self.invoke(f, this, lvs, n)
    def find_contract(self, f, q):
        c = self.contracts.get(q)
        if c is None:
            c = self.contracts.get(re.sub(r'<.*?>', '', q))
        return c
    def e_CallExpr(self, n):
        import stdlib
        callee = unwrap(n['inner'][0])
        while callee['kind'] == 'ImplicitCastExpr': callee = unwrap(callee['inner'][0])
        args = n['inner'][1:]
        if callee['kind'] == 'DeclRefExpr':
            r = callee['referencedDecl']
            if r['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                d = self.u.byid.get(r['id'])
                if d is not None:
                    f = self.body_of(d)
                    if f is not None: return self.call_repo(f, None, args, n)
                    if d.get('_file', '').startswith(frontend.REPO): raise Unsupported('no body for ' + str(r.get('name')), n)
                return stdlib.call(self, r.get('name'), args, n)
            v = self.get(self.lv(callee))
            return self.call_value(v, args, n)
        if callee['kind'] in ('UnresolvedLookupExpr',): return stdlib.call(self, callee.get('name'), args, n)
        if callee['kind'] == 'MemberExpr': 
            md = self.u.byid.get(callee.get('referencedMemberDecl'))
            if md is not None and self.body_of(md): return self.call_repo(self.body_of(md), None, args, n)
        v = self.ev(callee)
        return self.call_value(v, args, n)
    def call_value(self, v, args, n):
        if isinstance(v, FnV):
            if v.py is not None: return v.py(self, [self.arg_lv(a) for a in args], n)
            f = v.node
            if '_body' not in f:
                d = self.u.byid.get(f['id'])
                f = self.body_of(d) if d is not None else None
                if f is None:
                    import stdlib
                    return stdlib.call(self, v.node.get('name'), args, n)
            if v.env is not None:
                return self.invoke_lambda(v, f, args, n)
            return self.call_repo(f, None, args, n)
        raise Unsupported('call of %s' % type(v).__name__, n)
    def invoke_lambda(self, v, f, args, n):
        lvs = self.eval_args(f, args)
        rt = (f.get('type') or {}).get('qualType', 'auto ()')
        ret = rt[:rt.index('(')].strip()
        if '->' in rt: ret = rt.split('->')[-1].strip()
        frame = {'env': {**v.env}, 'base': len(self.facts), 'ret': ptype(ret), 'ret_ref': ret.endswith('&'), 'name': 'lambda', 'this': v.this}
        for p, lv in zip(self.params(f), lvs): frame['env'][p['id']] = lv
        basef = list(self.facts)
        self.frames.append(frame)
        try: outs = self.exec(f['_body'])
        finally: self.frames.pop()
        alts = [(o.facts, o.store) for o in outs]; vals = [o.val for o in outs]
        if self.store is not None: alts.append((self.facts[frame['base']:], self.store)); vals.append(None)
        self.join(alts, basef)
        r = vals[-1]
        if len(vals) > 1 and r is not None:
            for (fs, st), x in zip(reversed(alts[:-1]), reversed(vals[:-1])): r = merge_val(self.pc(fs), x, r)
        if isinstance(r, tuple) and r and r[0] == 'LV': return r[1]
        return r
    def e_CXXMemberCallExpr(self, n):
        import stdlib
        me = unwrap(n['inner'][0]); args = n['inner'][1:]
        if me['kind'] != 'MemberExpr': raise Unsupported('member call through ' + me['kind'], n)
        obj = me['inner'][0]
        md = self.u.byid.get(me.get('referencedMemberDecl'))
        if me.get('isArrow'):
            o = self.ev(obj)
            this = self.deref(o, n)
        else: this = self.lv_or_temp(obj)
        if md is not None and md.get('_file', '').startswith((frontend.REPO, '/verif')):
            f = self.body_of(md)
            if f is None:
                if md['kind'] == 'CXXDestructorDecl': return None
                raise Unsupported('no body for member ' + str(md.get('name')), n)
            return self.call_repo(f, this, args, n)
        return stdlib.method(self, me['name'], this, ntype(unwrap(obj)), args, n)
    def call_operator(self, n):
        import stdlib
        callee = unwrap(n['inner'][0])
        while callee['kind'] == 'ImplicitCastExpr': callee = unwrap(callee['inner'][0])
        r = callee['referencedDecl']
        args = n['inner'][1:]
        d = self.u.byid.get(r['id'])
        name = r.get('name')
        if d is not None:
            f = self.body_of(d)
            if f is None:
                if name == 'operator=':
                    v = self.ev(args[1], ntype(args[0]))
                    lv = self.lv(args[0]); self.set(lv, v); return lv
                raise Unsupported('no body for ' + name, n)
            if name == 'operator()' and self.in_lambda(d):
                v = self.get(self.lv_or_temp(args[0]))
                return self.call_value(v, args[1:], n)
            if d['kind'] == 'CXXMethodDecl' and d.get('storageClass') != 'static':
                this = self.lv_or_temp(args[0])
                if name == 'operator=' and not self.heap and self.value_class(args[0]):
                    v = self.ev(args[1], ntype(args[0]))
                    self.set(this, v)
                    return this
                return self.call_repo(f, this, args[1:], n)
            return self.call_repo(f, None, args, n)
        return stdlib.operator(self, name, args, n)
    def in_lambda(self, d):
        p = self.u.parent.get(d.get('id'))
        return p is not None and p.get('kind') == 'CXXRecordDecl' and not p.get('name')
    def value_class(self, a):
        t = ntype(unwrap(a))
        return isinstance(t, tuple) and t[0] == 'cls' and t[1].split('<')[0] in ('Vector', 'Matrix')
    def e_CXXOperatorCallExpr(self, n):
        r = self.call_operator(n)
        return self.get(r) if isinstance(r, LV) else r

    # ---- driver ---------------------------------------------------------------
    def run(self, f, args, this=None):
        """args: list of values (bound to fresh roots) or LVs. returns (result value, list of arg LVs)"""
        lvs = [a if isinstance(a, LV) else self.new_root(a, 'arg') for a in args]
        r = self.invoke(f, this, lvs, f)
        return r, lvs

class OutOfRange(Exception):
    """A definite violation found by concrete execution in the verifier (index or assertion)"""

def idiv(a, b):
    if a.const() is not None and b.const() not in (None, 0):
        x, y = int(a.const()), int(b.const())
        return P(abs(x) // abs(y) * (1 if (x >= 0) == (y > 0) else -1))
    if b.const() is not None and b.const() != 0:
        bc = int(b.const())
        if all(c % bc == 0 for c in a.d.values() if isinstance(c, int)) and all(isinstance(c, int) for c in a.d.values()):
            return Poly({m: c // bc for m, c in a.d.items()})
    else:
        qr = divide(a, b)
        if qr is not None and not qr[1].d: return qr[0]
    if CTX.interp is not None and not any(x.kind == 'bv' for x in (a.fv() | b.fv())):
        for q, r in A.splits(a, b):
            if (q.d or b.const() is None) and CTX.interp.decide(And(le(0, q), le(0, r), lt(r, b))) is True: return q
    return fn('idiv', (a, b), 'int')
T.idiv_hook = idiv
def imod(a, b):
    return a - b * idiv(a, b)
def alternating(e):
    """(-1)^e for an integer e, as a choice on the parity of e (the form an explicit parity test has)"""
    e = P(e); c = e.const()
    if c is not None: return P((-1) ** (int(c) % 2))
    c0 = int(e.d.get((), 0)) if all(Q(v).denominator == 1 for v in e.d.values()) else 0
    r = ite(eq(imod(e - c0, P(2)), 0), ONE, P(-1))
    return r if c0 % 2 == 0 else -r
def odd_test(it, d):
    """x % 2 - 1 (up to sign) with x >= 0: the argument x, else None"""
    for s in (d, -d):
        s = s + 1
        for a in s.atoms():
            if a.kind == 'fn' and a.a[0] == 'idiv' and a.a[1][1].const() == 2 and (s - imod(a.a[1][0], P(2))).const() == 0 and it.decide(le(0, a.a[1][0])) is True: return a.a[1][0]
    return None
