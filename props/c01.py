from vc import *
import numpy as np
TITLE = 'dense algebra'
TU = 'la.cpp'
M, V = 'Matrix<double>', 'Vector<double>'
SM = [dict(m=a, n=b, l=c) for a, b, c in ((0, 0, 0), (1, 1, 1), (2, 3, 2), (3, 2, 4), (4, 4, 1), (3, 3, 3), (1, 4, 2))]

def frame_v(c, v0, lv, lab):
    v = c.it.get(lv)
    c.ensure_eq(lab + ' operand size unchanged', v.f['size'], v0.f['size'])
    c.forall(lab + ' operand unchanged', [('i', 0, v0.f['size'])], lambda i: [(vget(v, i), vget(v0, i))])
def frame_m(c, m0, lv, lab):
    m = c.it.get(lv)
    c.ensure_eq(lab + ' operand rows unchanged', m.f['row'], m0.f['row']); c.ensure_eq(lab + ' operand cols unchanged', m.f['col'], m0.f['col'])
    c.forall(lab + ' operand unchanged', [('i', 0, m0.f['row']), ('j', 0, m0.f['col'])], lambda i, j: [(mget(m, i, j), mget(m0, i, j))])
def is_mat(c, r, row, col, f, lab='result'):
    c.ensure_eq(lab + ' rows', r.f['row'], row); c.ensure_eq(lab + ' cols', r.f['col'], col)
    c.ensure_eq(lab + ' storage', r.f['values'].n, P(row) * P(col))
    c.forall(lab + ' entries', [('i', 0, row), ('j', 0, col)], lambda i, j: [(mget(r, i, j), f(i, j))])
def is_vec(c, r, n, f, lab='result'):
    c.ensure_eq(lab + ' size', r.f['size'], n); c.ensure_eq(lab + ' storage', r.f['values'].n, n)
    c.forall(lab + ' entries', [('i', 0, n)], lambda i: [(vget(r, i), f(i))])
def sumk(c, n, f):
    n = P(n)
    if n.const() is not None:
        r = ZERO
        for k in range(int(n.const())): r = r + f(P(k))
        return r
    k = fresh('k', 'int')
    q = len(c.it.facts); c.it.assume(And(le(0, k), lt(k, n)))
    try: b = f(k)
    finally: del c.it.facts[q:]
    return Sum(k, ZERO, n, b)

def sizes(c): return c.int('m', 0), c.int('n', 0), c.int('l', 0)

def contracts(R):
    def add(name, body): R.contract(name, TU, body, SM)
    def simple(name, fn, sig, mk, post):
        def body(c):
            th, args = mk(c)
            r = c.call(fn, args, th, sig)
            post(c, r, th, args)
            if th is not None and not fn.endswith('='):
                (frame_v if th.cls == V else frame_m)(c, th, c.this, 'left')
            for a, lv in zip(args, c.args):
                if isinstance(a, Obj): (frame_v if a.cls == V else frame_m)(c, a, lv, 'right')
        add(name, body)
    def vv(c):
        m, n, l = sizes(c); return c.vec('a', n), [c.vec('b', n)]
    def mm(c):
        m, n, l = sizes(c); return c.mat('A', m, n), [c.mat('B', m, n)]
    s = var('s')
    for op, f in (('+', lambda a, b: a + b), ('-', lambda a, b: a - b)):
        simple('vector a%sb' % op, V + '::operator' + op, '%s (const %s &)' % (V, V), vv, lambda c, r, t, a, f=f: is_vec(c, r, t.f['size'], lambda i: f(vget(t, i), vget(a[0], i))))
        simple('vector a%s=b' % op, V + '::operator' + op + '=', None, vv, lambda c, r, t, a, f=f: (is_vec(c, r, t.f['size'], lambda i: f(vget(t, i), vget(a[0], i))), is_vec(c, c.it.get(c.this), t.f['size'], lambda i: f(vget(t, i), vget(a[0], i)), 'target')))
        simple('matrix A%sB' % op, M + '::operator' + op, '%s (const %s &)' % (M, M), mm, lambda c, r, t, a, f=f: is_mat(c, r, t.f['row'], t.f['col'], lambda i, j: f(mget(t, i, j), mget(a[0], i, j))))
        simple('matrix A%s=B' % op, M + '::operator' + op + '=', None, mm, lambda c, r, t, a, f=f: (is_mat(c, r, t.f['row'], t.f['col'], lambda i, j: f(mget(t, i, j), mget(a[0], i, j))), is_mat(c, c.it.get(c.this), t.f['row'], t.f['col'], lambda i, j: f(mget(t, i, j), mget(a[0], i, j)), 'target')))
    for op, f in (('*', lambda a: a * s), ('/', lambda a: a * inv(s))):
        mkv = lambda c: (c.vec('a', sizes(c)[1]), [s]); mkm = lambda c: (c.mat('A', *sizes(c)[:2]), [s])
        simple('vector a%ss' % op, V + '::operator' + op, '%s (double)' % V, mkv, lambda c, r, t, a, f=f: is_vec(c, r, t.f['size'], lambda i: f(vget(t, i))))
        simple('vector a%s=s' % op, V + '::operator' + op + '=', None, mkv, lambda c, r, t, a, f=f: is_vec(c, c.it.get(c.this), t.f['size'], lambda i: f(vget(t, i))))
        simple('matrix A%ss' % op, M + '::operator' + op, '%s (double)' % M, mkm, lambda c, r, t, a, f=f: is_mat(c, r, t.f['row'], t.f['col'], lambda i, j: f(mget(t, i, j))))
        simple('matrix A%s=s' % op, M + '::operator' + op + '=', None, mkm, lambda c, r, t, a, f=f: is_mat(c, c.it.get(c.this), t.f['row'], t.f['col'], lambda i, j: f(mget(t, i, j))))
    simple('vector negation', V + '::operator-', '%s ()' % V, lambda c: (c.vec('a', sizes(c)[1]), []), lambda c, r, t, a: is_vec(c, r, t.f['size'], lambda i: -vget(t, i)))
    simple('matrix negation', M + '::operator-', '%s ()' % M, lambda c: (c.mat('A', *sizes(c)[:2]), []), lambda c, r, t, a: is_mat(c, r, t.f['row'], t.f['col'], lambda i, j: -mget(t, i, j)))
    simple('inner product', V + '::operator*', 'double (const %s &)' % V, vv, lambda c, r, t, a: c.ensure_eq('result', r, sumk(c, t.f['size'], lambda k: vget(t, k) * vget(a[0], k))))
    simple('norm', V + '::Norm', None, lambda c: (c.vec('a', sizes(c)[1]), []), lambda c, r, t, a: c.ensure_eq('result', r, T.sqrt(sumk(c, t.f['size'], lambda k: vget(t, k) * vget(t, k)))))
    simple('normalised vector', V + '::Normal', None, lambda c: (c.vec('a', sizes(c)[1]), []), lambda c, r, t, a: is_vec(c, r, t.f['size'], lambda i: vget(t, i) * inv(T.sqrt(sumk(c, t.f['size'], lambda k: vget(t, k) * vget(t, k))))))
    simple('vector times row matrix', V + '::operator*', '%s (const %s &)' % (M, M), lambda c: (c.vec('a', sizes(c)[0]), [c.mat('B', 1, sizes(c)[1])]), lambda c, r, t, a: is_mat(c, r, t.f['size'], a[0].f['col'], lambda i, j: vget(t, i) * mget(a[0], 0, j)))
    simple('matrix times matrix', M + '::operator*', '%s (const %s &)' % (M, M), lambda c: (c.mat('A', *sizes(c)[:2]), [c.mat('B', *sizes(c)[1:])]),
           lambda c, r, t, a: is_mat(c, r, t.f['row'], a[0].f['col'], lambda i, j: sumk(c, t.f['col'], lambda k: mget(t, i, k) * mget(a[0], k, j))))
    simple('matrix times vector', M + '::operator*', '%s (const %s &)' % (V, V), lambda c: (c.mat('A', *sizes(c)[:2]), [c.vec('b', sizes(c)[1])]),
           lambda c, r, t, a: is_vec(c, r, t.f['row'], lambda i: sumk(c, t.f['col'], lambda k: mget(t, i, k) * vget(a[0], k))))
    simple('transpose of matrix', M + '::Transpose', None, lambda c: (c.mat('A', *sizes(c)[:2]), []), lambda c, r, t, a: is_mat(c, r, t.f['col'], t.f['row'], lambda i, j: mget(t, j, i)))
    simple('transpose of vector', V + '::Transpose', None, lambda c: (c.vec('a', sizes(c)[1]), []), lambda c, r, t, a: is_mat(c, r, 1, t.f['size'], lambda i, j: vget(t, j)))
    simple('scalar times vector', 'operator*', '%s (double, const %s &)' % (V, V), lambda c: (None, [s, c.vec('b', sizes(c)[1])]), lambda c, r, t, a: is_vec(c, r, a[1].f['size'], lambda i: s * vget(a[1], i)))
    simple('scalar times matrix', 'operator*', '%s (double, const %s &)' % (M, M), lambda c: (None, [s, c.mat('B', *sizes(c)[:2])]), lambda c, r, t, a: is_mat(c, r, a[1].f['row'], a[1].f['col'], lambda i, j: s * mget(a[1], i, j)))
    def cross(c):
        a, b = c.vec('a', 3), c.vec('b', 3)
        r = c.call('VectorProduct', [a, b])
        is_vec(c, r, 3, lambda i: [vget(a, 1) * vget(b, 2) - vget(a, 2) * vget(b, 1), vget(a, 2) * vget(b, 0) - vget(a, 0) * vget(b, 2), vget(a, 0) * vget(b, 1) - vget(a, 1) * vget(b, 0)][int(i.const())])
    R.contract('cross product', TU, cross)
    simple('vector stack', V + '::Vstack', None, lambda c: (c.vec('a', sizes(c)[0]), [c.vec('b', sizes(c)[1])]),
           lambda c, r, t, a: is_vec(c, r, t.f['size'] + a[0].f['size'], lambda i: pick(c, lt(i, t.f['size']), lambda: vget(t, i), lambda: vget(a[0], i - t.f['size']))))
    simple('row stack', M + '::Vstack', None, lambda c: (c.mat('A', sizes(c)[0], sizes(c)[1]), [c.mat('B', sizes(c)[2], sizes(c)[1])]),
           lambda c, r, t, a: is_mat(c, r, t.f['row'] + a[0].f['row'], t.f['col'], lambda i, j: pick(c, lt(i, t.f['row']), lambda: mget(t, i, j), lambda: mget(a[0], i - t.f['row'], j))))
    simple('column stack', M + '::Hstack', None, lambda c: (c.mat('A', sizes(c)[0], sizes(c)[1]), [c.mat('B', sizes(c)[0], sizes(c)[2])]),
           lambda c, r, t, a: is_mat(c, r, t.f['row'], t.f['col'] + a[0].f['col'], lambda i, j: pick(c, lt(j, t.f['col']), lambda: mget(t, i, j), lambda: mget(a[0], i, j - t.f['col']))))
    # aliasing: the operand is the target itself
    for op, f in (('+=', lambda a: a + a), ('-=', lambda a: ZERO)):
        for cls in (V, M):
            def alias(c, op=op, f=f, cls=cls):
                m, n, l = sizes(c); x = c.vec('a', n) if cls == V else c.mat('A', m, n)
                lv = c.it.new_root(x, 'x')
                c.call(cls + '::operator' + op, [lv], lv)
                t = c.it.get(lv)
                if cls == V: is_vec(c, t, n, lambda i: f(vget(x, i)), 'target')
                else: is_mat(c, t, m, n, lambda i, j: f(mget(x, i, j)), 'target')
            add('%s x%sx' % (cls, op), alias)
    def segment(c):
        h, w, n = c.int('m', 0), c.int('l', 1), c.int('n', 1)
        a = c.vec('a', h + w + n)
        r = c.call(V + '::Segment', [h, h + w], a)
        is_vec(c, r, w, lambda i: vget(a, h + i))
    add('segment', segment)
    def block(c):
        m, n, l = sizes(c); p, q = c.int('p', 0), c.int('q', 0)
        if c.sizes is not None: p, q = P(1), P(2)
        c.requires(And(ge(m, 1), ge(n, 1))) if c.symbolic else None
        if not c.symbolic: m, n = m + ind_c(m), n + ind_c(n)
        h, w = m, n
        A = c.mat('A', p + h + l, q + w + l)
        r = c.call(M + '::Block', [p, q, h, w], A)
        is_mat(c, r, h, w, lambda i, j: mget(A, p + i, q + j))
        frame_m(c, A, c.this, 'block')
    add('block', block)
    def ident(c):
        n = c.int('n', 1)
        r = c.call('Identity', [n])
        is_mat(c, r, n, n, lambda i, j: ind(eq(i, j)))
    add('identity', ident)
    def diag(c):
        n = c.int('n', 1); v = c.vec('v', n)
        r = c.call('Diagonal', [v])
        is_mat(c, r, n, n, lambda i, j: pick(c, eq(i, j), lambda: vget(v, i), lambda: ZERO))
    add('diagonal', diag)
    def access(c):
        m, n, l = sizes(c); A = c.mat('A', m, n)
        m, n = m + 1, n + 1; A = c.mat('A', m, n); i, j = (c.int('i'), c.int('j')) if c.symbolic else (m - 1, n - 1)
        if c.symbolic: c.requires(And(le(0, i), lt(i, m), le(0, j), lt(j, n)))
        r = c.call(M + '::operator()', [i, j], A)
        c.ensure_eq('element', r, mget(A, i, j))
        c.ensure_eq('rows', c.call(M + '::ROW', [], A), m); c.ensure_eq('cols', c.call(M + '::COL', [], A), n)
        v = c.vec('v', n)
        c.ensure_eq('vector element', c.call(V + '::operator()', [j], v), vget(v, j))
        c.ensure_eq('size', c.call(V + '::SIZE', [], v), n)
    add('element access', access)
    def conv(c):
        m, n, l = sizes(c)
        z = c.it.construct(('cls', M), [c.it.new_root(m), c.it.new_root(n)], 'void (int, int)', None)
        is_mat(c, z, m, n, lambda i, j: ZERO, 'zero matrix')
        z = c.it.construct(('cls', V), [c.it.new_root(n)], 'void (int)', None)
        is_vec(c, z, n, lambda i: ZERO, 'zero vector')
        x = c.arr(n, 'double', 'x')
        z = c.it.construct(('cls', V), [c.it.new_root(x)], 'void (const std::vector<double> &)', None)
        is_vec(c, z, n, lambda i: aelem(x, i), 'from std::vector')
        z = c.it.construct(('cls', V), [c.it.new_root(x)], 'void (const std::initializer_list<double> &)', None)
        is_vec(c, z, n, lambda i: aelem(x, i), 'from list')
        v = c.vec('v', n)
        z = c.it.construct(('cls', M), [c.it.new_root(v)], 'void (const Vector<double> &)', None)
        is_mat(c, z, n, 1, lambda i, j: vget(v, i), 'column matrix')
        w = c.mat('W', n, 1)
        z = c.it.construct(('cls', V), [c.it.new_root(w)], 'void (const Matrix<double> &)', None)
        is_vec(c, z, n, lambda i: mget(w, i, 0), 'from column matrix')
    add('construction and conversion', conv)

def ind_c(x): return 1 if P(x).const() == 0 else 0
def pick(c, f, a, b):
    d = c.it.decide(f)
    if d is True: return a()
    if d is False: return b()
    k = len(c.it.facts)
    c.it.assume(f); x = a(); del c.it.facts[k:]
    c.it.assume(Not(f)); y = b(); del c.it.facts[k:]
    return ite(f, x, y)

def run(R):
    R.assumptions.append('Vector/Matrix own their storage (verified separately, see C03)')
    contracts(R)
    runtime(R)

def npm(x): return np.array(x[2:]).reshape(int(x[0]), int(x[1]))

def runtime(R):
    n = 60 if R.tier == 'quick' else 2000
    rc, out, err = R.driver('la1.cpp', [R.seed, n], ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'])
    if rc is None: R.violate('driver', 'build', err, None); return
    cases, open_ = parse_cases(out)
    def chk(name, got, want, c):
        got = np.asarray(got, float); want = np.asarray(want, float)
        if got.shape != want.shape or not np.allclose(got, want, rtol=1e-10, atol=1e-10):
            R.violate(name, 'execution', 'observed %s, contract requires %s' % (got.tolist(), want.tolist()), {k: v for k, v in c.items() if k in ('s', 'a', 'b', 'c', 'A', 'B', 'C', 'D', 'E', 'w', 'cm', 'seg', 'blk', 'x3', 'y3')})
            return False
        return True
    for c in cases:
        R.cases += 1
        if c['_name'] == 'empty':
            if any(c['e']): R.violate('operations on empty operands', 'execution', 'sizes %s' % c['e'], {'sizes': 0}); break
            continue
        if c['_name'] == 'alias':
            a = np.array(c['a']); A = npm(c['A'])
            if not all([chk('x+=x', c['aa'], 2 * a, c), chk('x-=x', c['as'], 0 * a, c), chk('X+=X', npm(c['AA']), 2 * A, c), chk('X-=X', npm(c['AS']), 0 * A, c), chk('x=x+x', c['ap'], 2 * a, c), chk('X=X*X', npm(c['AP']), A @ A, c)]): break
            continue
        s = c['s'][0]; a, b, cc = (np.array(c[k]) for k in ('a', 'b', 'c'))
        A, B, C, D, E, w, cm = (npm(c[k]) for k in ('A', 'B', 'C', 'D', 'E', 'w', 'cm'))
        h, t = map(int, c['seg']); p, q, bh, bw = map(int, c['blk']); n = len(a)
        exp = {'v_add': a + b, 'v_sub': a - b, 'v_neg': -a, 'v_mul': a * s, 'v_div': a / s, 'v_lmul': a * s, 'v_iadd': a + b, 'v_isub': a - b, 'v_imul': a * s, 'v_idiv': a / s,
               'v_dot': [a @ b], 'v_norm': [np.sqrt(a @ a)], 'v_normal': a / np.sqrt(a @ a), 'v_stack': np.r_[a, cc], 'v_seg': a[h:t], 'm_mv': A @ a, 'v_fromm': cm[:, 0], 'v_froms': a,
               'v_il': [s, 2, -s], 'v_cross': np.cross(c['x3'], c['y3']), 'a2': a, 'b2': b, 'v_zero': 0 * a}
        expm = {'v_outer': np.outer(cc, w), 'v_t': a[None, :], 'm_add': A + B, 'm_sub': A - B, 'm_neg': -A, 'm_mul': A * s, 'm_div': A / s, 'm_lmul': A * s, 'm_mm': A @ C, 'm_t': A.T,
                'm_iadd': A + B, 'm_isub': A - B, 'm_imul': A * s, 'm_idiv': A / s, 'm_v': np.vstack([A, D]), 'm_h': np.hstack([A, E]), 'm_b': A[p:p + bh, q:q + bw], 'm_i': np.eye(n), 'm_d': np.diag(a),
                'm_fromv': a[:, None], 'A2': A, 'B2': B, 'C2': C, 'm_zero': 0 * A}
        good = all([chk(k, c[k], v, c) for k, v in exp.items()]) and all([chk(k, npm(c[k]), v, c) for k, v in expm.items()])
        if not good: break
    if rc != 0: R.violate('execution', 'execution', 'driver ended with status %s: %s' % (rc, err[-600:]), open_ or (cases[-1] if cases else {}))
