from vc import *
from c01 import npm
import numpy as np
TITLE = 'value semantics'
TU = 'la.cpp'
M, V = 'Matrix<double>', 'Vector<double>'

def mkobj(c, cls, name, n):
    """an object satisfying the class invariant: exclusive live allocation of exactly the declared number of elements"""
    it = c.it
    cnt = n if cls == V else n[0] * n[1]
    root = it.new_root(c.arr(cnt, 'double', name), 'heap')
    it.heap_alloc(root.root, None)
    p = PtrV(root, ZERO)
    o = Obj(V, {'size': P(n), 'values': p}) if cls == V else Obj(M, {'row': P(n[0]), 'col': P(n[1]), 'values': p})
    return it.new_root(o, name), root

def live(c, root): return c.it.store.get('live:' + root, FALSE)
def heap_roots(c): return [r for r in c.it.store if r.startswith('heap@')]

def dims(c, o): return (o.f['size'],) if 'size' in o.f else (o.f['row'], o.f['col'])
def check_inv(c, lv, lab, want_dims, want, others):
    it = c.it
    o = it.get(lv)
    p = o.f['values']
    cnt = ONE
    for d in dims(c, o): cnt = cnt * d
    for d, w in zip(dims(c, o), want_dims): c.ensure_eq(lab + ' extent', d, w)
    if isinstance(p, Null):
        c.ensure_eq(lab + ' null storage only when empty', cnt, 0); return None
    if not isinstance(p, PtrV):
        c.ok(lab + ' storage pointer initialised', False, 'ownership', 'storage pointer is indeterminate'); return None
    c.ok(lab + ' owns its storage alone', p.lv.root not in others, 'ownership', 'storage shared with another object')
    c.ensure(lab + ' storage is live', live(c, p.lv.root))
    a = it.get(p.lv)
    c.ensure_eq(lab + ' storage length', a.n, cnt)
    if want is not None:
        c.forall(lab + ' contents', [('i', 0, cnt)], lambda i: [(aelem(a, i), want(i))])
    return p.lv.root

def no_leak(c, before, owned, lab):
    for r in heap_roots(c):
        if r in owned: continue
        f = live(c, r)
        c.ensure(lab + ' releases every other allocation', Not(f))

SM = [dict(n=0, m=0, p=0, q=0), dict(n=2, m=3, p=2, q=2), dict(n=3, m=1, p=1, q=4), dict(n=1, m=2, p=2, q=1)]

def run(R):
    def both(name, body, **k):
        for cls in (V, M):
            R.contract('%s: %s' % (cls.split('<')[0], name), TU, lambda c, cls=cls: body(c, cls), SM, heap=True, **k)
    def dim(c, cls, a='n', b='m'):
        return c.int(a, 0) if cls == V else (c.int(a, 0), c.int(b, 0))
    def tup(d): return d if isinstance(d, tuple) else (d,)
    def fresh_obj(c, cls):
        it = c.it
        return it.new_root(Obj(cls, {f: it.default(ft) for f, ft, _ in it.fields(cls)}), 'self')
    def ctor(c, cls, sig, args):
        it = c.it
        rec = it.record_of(cls)
        cand = [x for x in rec['inner'] if x.get('kind') == 'CXXConstructorDecl' and it.same_sig(x['type']['qualType'], sig) and it.body_of(x)]
        if not cand: raise Unsupported('constructor %s not found' % sig)
        R.functions.add(cls + '::ctor ' + sig)
        lv = fresh_obj(c, cls)
        it.invoke(it.body_of(cand[0]), lv, args, None)
        return lv
    def default(c, cls):
        lv = ctor(c, cls, 'void ()', [])
        r = check_inv(c, lv, 'default object', (ZERO, ZERO), None, ())
        no_leak(c, (), {r}, 'default construction')
    both('default construction', default)
    def sized(c, cls):
        d = tup(dim(c, cls))
        lv = ctor(c, cls, 'void (int)' if cls == V else 'void (int, int)', [c.it.new_root(x) for x in d])
        r = check_inv(c, lv, 'new object', d, lambda i: ZERO, ())
        no_leak(c, (), {r}, 'construction')
    both('sized construction', sized)
    def copy(c, cls):
        d = dim(c, cls); src, root = mkobj(c, cls, 's', d); a0 = c.it.get(root)
        lv = ctor(c, cls, 'void (const %s &)' % cls, [src])
        r = check_inv(c, lv, 'copy', tup(d), lambda i: aelem(a0, i), (root.root,))
        r2 = check_inv(c, src, 'source', tup(d), lambda i: aelem(a0, i), (r,))
        no_leak(c, (), {r, r2}, 'copy')
    both('copy construction', copy)
    def cross(c, cls):
        o = M if cls == V else V
        n = c.int('n', 0)
        d = (n, ONE) if o == M else n
        src, root = mkobj(c, o, 's', d); a0 = c.it.get(root)
        lv = ctor(c, cls, 'void (const %s &)' % o, [src])
        r = check_inv(c, lv, 'converted object', (n, ONE), lambda i: aelem(a0, i), (root.root,))
        r2 = check_inv(c, src, 'source', tup(d), lambda i: aelem(a0, i), (r,))
        no_leak(c, (), {r, r2}, 'conversion')
    both('conversion', cross)
    def fromstd(c):
        n = c.int('n', 0); x = c.arr(n, 'double', 'x')
        for sig in ('void (const std::vector<double> &)', 'void (const std::initializer_list<double> &)'):
            lv = ctor(c, V, sig, [c.it.new_root(x)])
            r = check_inv(c, lv, 'from ' + sig, (n,), lambda i: aelem(x, i), ())
    R.contract('Vector: construction from standard containers', TU, fromstd, SM, heap=True)
    def assign(c, cls):
        d = dim(c, cls); e = dim(c, cls, 'p', 'q')
        src, root = mkobj(c, cls, 's', d); a0 = c.it.get(root)
        dst, droot = mkobj(c, cls, 't', e)
        c.call(cls + '::operator=', [src], dst)
        r = check_inv(c, dst, 'target', tup(d), lambda i: aelem(a0, i), (root.root,))
        r2 = check_inv(c, src, 'source', tup(d), lambda i: aelem(a0, i), (r,))
        no_leak(c, (), {r, r2}, 'assignment')
    both('assignment', assign)
    def assign_empty(c, cls):
        d = dim(c, cls)
        src, root = mkobj(c, cls, 's', d); a0 = c.it.get(root)
        dst = ctor(c, cls, 'void ()', [])
        c.call(cls + '::operator=', [src], dst)
        r = check_inv(c, dst, 'target', tup(d), lambda i: aelem(a0, i), (root.root,))
        r2 = check_inv(c, src, 'source', tup(d), lambda i: aelem(a0, i), (r,))
        no_leak(c, (), {r, r2}, 'assignment')
    both('assignment to a default-constructed object', assign_empty)
    def from_empty(c, cls):
        e = dim(c, cls)
        src = ctor(c, cls, 'void ()', [])
        dst, droot = mkobj(c, cls, 't', e)
        c.call(cls + '::operator=', [src], dst)
        r = check_inv(c, dst, 'target', (ZERO, ZERO), None, ())
        r2 = check_inv(c, src, 'source', (ZERO, ZERO), None, (r,))
        no_leak(c, (), {r, r2}, 'assignment')
    both('assignment from a default-constructed object', from_empty)
    def self_assign(c, cls):
        d = dim(c, cls); src, root = mkobj(c, cls, 's', d); a0 = c.it.get(root)
        c.call(cls + '::operator=', [src], src)
        r = check_inv(c, src, 'self-assigned object', tup(d), lambda i: aelem(a0, i), ())
        no_leak(c, (), {r}, 'self assignment')
    both('self assignment', self_assign)
    def dtor(c, cls):
        d = dim(c, cls); o, root = mkobj(c, cls, 's', d)
        c.call(cls + '::~' + cls.split('<')[0], [], o)
        c.ensure('storage released', Not(live(c, root.root)))
        e = ctor(c, cls, 'void ()', [])
        c.call(cls + '::~' + cls.split('<')[0], [], e)
        no_leak(c, (), set(), 'destruction')
    both('destruction', dtor)
    runtime(R)

def runtime(R):
    n = 40 if R.tier == 'quick' else 600
    rc, out, err = R.driver('la3.cpp', [R.seed, n], flags=['-fsanitize=address,undefined', '-fno-omit-frame-pointer'])
    if rc is None: R.violate('driver', 'build', err); return
    cases, open_ = parse_cases(out)
    for c in cases:
        R.cases += 1
        if c['ok'][0] != 1: R.violate('value semantics', 'execution', 'observed copies that are not independent or not equal', c); break
    if rc != 0: R.violate('value semantics', 'execution', 'address sanitizer / driver status %s: %s' % (rc, err[-900:]), open_ or {'history': 'construct, copy, assign, destroy; seed %d' % R.seed})
