from vc import *
import numpy as np
TITLE = 'sparse matrices'
TU = 'sparse.cpp'
L, K = 'LILCSR<double>', 'CSR<double>'
ET = ('vec', ('pair', 'int', 'double'))

# ---- arbitrary well-formed matrices (no bound on rows, columns, entries) -------------------------------
def lil(c, name='m', dims=None):
    it = c.it; it.qmode = True
    r, k = dims or (c.int('R', 1), c.int('C', 1))
    a = it.sym_array(r, ET, name)
    i, x, y = [fresh(z, 'int') for z in 'ixy']
    ln = lambda i: read(name + '.len', (P(i),), 'int'); col = lambda i, x: read(name + '.el.first', (P(i), P(x)), 'int')
    it.assume(Forall((i,), Implies(And(le(0, i), lt(i, r)), ge(ln(i), 0))))
    it.assume(Forall((i, x), Implies(And(le(0, i), lt(i, r), le(0, x), lt(x, ln(i))), And(le(0, col(i, x)), lt(col(i, x), k)))))
    it.assume(Forall((i, x, y), Implies(And(le(0, i), lt(i, r), le(0, x), lt(x, y), lt(y, ln(i))), ne(col(i, x), col(i, y)))))
    return it.new_root(Obj(L, {'ROWS': r, 'COLS': k, 'data': a}), name)
def csr(c, name='m', dims=None):
    it = c.it; it.qmode = True
    r, k = dims or (c.int('R', 1), c.int('C', 1)); n = c.int(name + 'N', 0)
    ptr = it.sym_array(r + 1, 'int', name + '.ptr'); ix = it.sym_array(n, 'int', name + '.ix'); da = it.sym_array(n, 'double', name + '.da')
    p = lambda i: read(name + '.ptr', (P(i),), 'int'); x = lambda i: read(name + '.ix', (P(i),), 'int')
    i, a, b = [fresh(z, 'int') for z in 'iab']
    it.assume(eq(p(0), 0)); it.assume(eq(p(r), n))
    it.assume(Forall((a, b), Implies(And(le(0, a), le(a, b), le(b, r)), le(p(a), p(b)))))
    it.assume(Forall((i, a, b), Implies(And(le(0, i), lt(i, r), le(p(i), a), lt(a, b), lt(b, p(i + 1))), lt(x(a), x(b)))))
    it.assume(Forall((a,), Implies(And(le(0, a), lt(a, n)), And(le(0, x(a)), lt(x(a), k)))))
    return it.new_root(Obj(K, {'ROWS': r, 'COLS': k, 'indptr': ptr, 'indices': ix, 'data': da}), name)
MK = {L: lil, K: csr}

def pos(c, m, a='i', b='j'):
    o = c.it.get(m); i, j = c.int(a), c.int(b)
    c.requires(And(le(0, i), lt(i, o.f['ROWS']), le(0, j), lt(j, o.f['COLS'])))
    return i, j
def get(c, cls, m, i, j): return c.call(cls + '::get', [i, j], m)

def entries(o, i):
    """(range of positions, column, value) of stored row i, from the representation"""
    if o.cls == L:
        row = aelem(o.f['data'], P(i))
        return ZERO, row.n, lambda x: aelem(row, x).f['first'], lambda x: aelem(row, x).f['second']
    return aelem(o.f['indptr'], P(i)), aelem(o.f['indptr'], P(i) + 1), lambda x: aelem(o.f['indices'], x), lambda x: aelem(o.f['data'], x)

def run(R):
    for cls in (L, K):
        short = cls.split('<')[0]
        def get_spec(c, cls=cls):
            m = MK[cls](c); it = c.it; o = it.get(m)
            i, j = pos(c, m)
            v = get(c, cls, m, i, j)
            lo, hi, col, val = entries(o, i)
            x = c.int('x'); n = len(it.facts)
            it.facts += [le(lo, x), lt(x, hi), eq(col(x), j)]
            c.ensure_eq('value of the stored entry', v, val(x)); del it.facts[n:]
            y = fresh('y', 'int')
            it.facts += [Forall((y,), Implies(And(le(lo, y), lt(y, hi)), ne(col(y), j)))]
            c.ensure_eq('zero where nothing is stored', v, 0); del it.facts[n:]
        R.contract(short + ': reading an entry', TU, get_spec, [], timeout=400)
        def readback(c, cls=cls):
            m = MK[cls](c); it = c.it; o = it.get(m)
            i, j = pos(c, m); v = c.real('v')
            lo, hi, col, val = entries(o, i)
            r = c.call(cls + '::set', [i, j, v], m)
            c.ensure_eq('value read back', get(c, cls, m, i, j), v)
            x = c.int('x'); n = len(it.facts)
            it.facts += [le(lo, x), lt(x, hi), eq(col(x), j)]
            c.ensure('reports that the entry existed', to_formula(r)); del it.facts[n:]
            y = fresh('y', 'int')
            it.facts += [Forall((y,), Implies(And(le(lo, y), lt(y, hi)), ne(col(y), j)))]
            c.ensure('reports that the entry is new', Not(to_formula(r))); del it.facts[n:]
        R.contract(short + ': writing an entry', TU, readback, [], timeout=400)
        def frame(c, cls=cls):
            m = MK[cls](c); it = c.it
            i, j = pos(c, m); i2, j2 = pos(c, m, 'i2', 'j2'); v = c.real('v')
            old = get(c, cls, m, i2, j2)
            c.call(cls + '::set', [i, j, v], m)
            new = get(c, cls, m, i2, j2)
            it.assume(Or(ne(i, i2), ne(j, j2)))
            c.ensure_eq('every other entry keeps its value', new, old)
        R.contract(short + ': writing an entry changes no other', TU, frame, [], timeout=500)
        def wf(c, cls=cls):
            m = MK[cls](c); it = c.it
            i, j = pos(c, m); v = c.real('v'); i2 = c.int('i2'); o = it.get(m)
            c.call(cls + '::set', [i, j, v], m); o2 = it.get(m)
            it.assume(And(le(0, i2), lt(i2, o.f['ROWS'])))
            lo, hi, col, val = entries(o2, i2)
            x, y = c.int('x'), c.int('y'); it.assume(And(le(lo, x), lt(x, y), lt(y, hi)))
            c.ensure('columns stay distinct within a row' if cls == L else 'columns stay increasing within a row', ne(col(x), col(y)) if cls == L else lt(col(x), col(y)))
            for q in (x, y): c.ensure('columns stay in range', And(le(0, col(q)), lt(col(q), o.f['COLS'])))
            c.ensure_eq('rows', o2.f['ROWS'], o.f['ROWS']); c.ensure_eq('columns', o2.f['COLS'], o.f['COLS'])
        R.contract(short + ': writing keeps the matrix well formed', TU, wf, [], timeout=400)
        def mulvec(c, cls=cls):
            m = MK[cls](c); it = c.it; o = it.get(m)
            x = c.arr(o.f['COLS'], 'double', 'x')
            if cls == L: r = c.call('operator*', [m, x], sig='const std::vector<double> (const LILCSR<double> &, const std::vector<double> &)')
            else: r = c.call(cls + '::operator*', [x], m)
            c.ensure_eq('one component per row', r.n, o.f['ROWS'])
            def body(i):
                lo, hi, col, val = entries(o, i)
                k = fresh('k', 'int'); n = len(it.facts); it.facts += [le(lo, k), lt(k, hi)]
                try: b = val(k) * aelem(x, col(k))
                finally: del it.facts[n:]
                return [(aelem(r, i), Sum(k, lo, hi, b))]
            c.forall('component', [('i', 0, o.f['ROWS'])], body)
        R.contract(short + ': product with a vector', TU, mulvec, [], timeout=300)
        for op, args, f in (('*', 'ma', lambda v, a: v * a), ('*', 'am', lambda v, a: v * a), ('/', 'ma', lambda v, a: v * inv(a))):
            def scal_(c, cls=cls, op=op, args=args, f=f):
                m = MK[cls](c); it = c.it; a = c.real('a')
                if op == '/': c.requires(ne(a, 0))
                old = it.get(m)
                pick = lambda g: [I.ptype(p['type']['qualType']) for p in c.it.params(g)] == ([('cls', cls), 'double'] if args == 'ma' else ['double', ('cls', cls)])
                r = c.call('operator' + op, [m, a] if args == 'ma' else [a, m], pick=pick)
                i = c.int('i'); it.assume(And(le(0, i), lt(i, old.f['ROWS'])))
                lo, hi, col, val = entries(old, i); lo2, hi2, col2, val2 = entries(r, i)
                c.ensure_eq('entries of a row', hi2 - lo2, hi - lo); c.ensure_eq('first entry of a row', lo2, lo)
                x = c.int('x'); it.assume(And(le(lo, x), lt(x, hi)))
                c.ensure_eq('column', col2(x), col(x)); c.ensure_eq('value', val2(x), f(val(x), a))
                c.ensure_eq('rows', r.f['ROWS'], old.f['ROWS']); c.ensure_eq('columns', r.f['COLS'], old.f['COLS'])
                lo3, hi3, col3, val3 = entries(it.get(m), i)
                c.ensure_eq('operand unchanged', val3(x), val(x))
            R.contract('%s: %s %s scalar' % (short, args, op), TU, scal_, [], timeout=200)
        def empty(c, cls=cls):
            r, k = c.int('R', 1), c.int('C', 1); c.it.qmode = True
            lv = c.it.new_root(c.it.construct(('cls', cls), [c.it.new_root(r), c.it.new_root(k)], 'void (int, int)', None), 'm')
            o = c.it.get(lv)
            c.ensure_eq('rows', o.f['ROWS'], r); c.ensure_eq('columns', o.f['COLS'], k)
            i, j = c.int('i'), c.int('j'); c.requires(And(le(0, i), lt(i, r), le(0, j), lt(j, k)))
            c.ensure_eq('a new matrix is zero', get(c, cls, lv, i, j), 0)
        R.contract(short + ': construction', TU, empty, [dict(R=1), dict(R=3)], timeout=200)
        # ---- sums, conversions: structure bounded, columns and values symbolic -----------------------
        for sgn, op in ((1, '+'), (-1, '-')):
            def addsub(c, cls=cls, op=op, sgn=sgn):
                pat = PAIRS[c.sizes['k']]
                a, b = build(c, cls, pat[0], 'a'), build(c, cls, pat[1], 'b')
                r = c.call('operator' + op, [a, b], pick=lambda g: [I.ptype(p['type']['qualType']) for p in c.it.params(g)] == [('cls', cls), ('cls', cls)])
                rl = c.it.new_root(r, 'r')
                c.ensure_eq('rows', r.f['ROWS'], len(pat[0])); c.ensure_eq('columns', r.f['COLS'], c.cols)
                for i in range(len(pat[0])):
                    for q in range(NP):
                        c.ensure_eq('entry (%d, column %d)' % (i, q), get(c, cls, rl, P(i), c.pool[q]), ent(c, pat[0], 'a', i, q) + sgn * ent(c, pat[1], 'b', i, q))
                        c.ensure_eq('operand (%d, column %d)' % (i, q), get(c, cls, a, P(i), c.pool[q]), ent(c, pat[0], 'a', i, q))
            R.contract('%s: %s (structures up to 3 rows, 3 entries per row)' % (short, {'+': 'sum', '-': 'difference'}[op]), TU, addsub, [dict(k=k) for k in range(len(PAIRS))], sym=False, timeout=200)
    def conv(c, src, dst):
        pat = SINGLES[c.sizes['k']]
        a = build(c, src, pat, 'a', shuffled=True)
        sig = 'void (LILCSR<double> &)' if src == L else 'void (CSR<double>)'
        r = c.it.new_root(c.it.construct(('cls', dst), [a], sig, None), 'r')
        o = c.it.get(r)
        c.ensure_eq('rows', o.f['ROWS'], len(pat)); c.ensure_eq('columns', o.f['COLS'], c.cols)
        x = c.arr(c.cols, 'double', 'x') if c.cols.const() is not None else c.it.sym_array(c.cols, 'double', 'x')
        for i in range(len(pat)):
            for q in range(NP):
                c.ensure_eq('entry (%d, column %d)' % (i, q), get(c, dst, r, P(i), c.pool[q]), ent(c, pat, 'a', i, q))
                c.ensure_eq('source entry (%d, column %d)' % (i, q), get(c, src, a, P(i), c.pool[q]), ent(c, pat, 'a', i, q))
        y = c.call('operator*', [r, x], sig='const std::vector<double> (const LILCSR<double> &, const std::vector<double> &)') if dst == L else c.call(K + '::operator*', [x], r)
        for i in range(len(pat)):
            c.ensure_eq('product row %d' % i, aelem(y, P(i)), sum((ent(c, pat, 'a', i, q) * aelem(x, c.pool[q]) for q in range(NP)), ZERO))
    R.functions.add('CSR<double>::CSR(LILCSR<double>&)'); R.functions.add('LILCSR<double>::LILCSR(CSR<double>)')
    R.contract('conversion LILCSR to CSR (structures up to 3 rows, 3 entries per row)', TU, lambda c: conv(c, L, K), [dict(k=k) for k in range(len(SINGLES))], sym=False, timeout=200)
    R.contract('conversion CSR to LILCSR (structures up to 3 rows, 3 entries per row)', TU, lambda c: conv(c, K, L), [dict(k=k) for k in range(len(SINGLES))], sym=False, timeout=200)
    R.bounded.append('sum, difference, conversions: 1 to 3 rows, up to 3 stored entries per row, 5 arbitrary increasing columns, arbitrary values')
    R.assumptions.append('std::lower_bound, std::sort, vector::insert/push_back behave as specified by the standard (cppvc/stdlib.py)')
    runtime(R)

NP = 5
SINGLES = [[[]], [[2]], [[3, 0]], [[1, 4, 2]], [[], [0]], [[2, 1], []], [[0, 1, 2], [4, 3]], [[], [], []], [[4], [0, 3, 1], [2]], [[1], [], [3, 2]], [[1, 0, 4]], [[0, 3, 1, 4]]]
PAIRS = [([[]], [[]]), ([[1]], [[]]), ([[]], [[1]]), ([[1]], [[1]]), ([[1]], [[3]]), ([[3]], [[1]]), ([[0, 2]], [[2, 1]]), ([[0, 1, 2]], [[4, 3, 0]]),
         ([[0], [1]], [[1], [0]]), ([[], [2, 4]], [[3], [4, 1, 2]]), ([[1, 3], [], [0]], [[0, 2], [4], [0, 1]]), ([[4], [4], [4]], [[0, 4], [], [3]])]
def pool(c):
    if getattr(c, 'pool', None) is None:
        c.cols = var('COLS', 'int')
        c.pool = [var('col%d' % q, 'int') for q in range(NP)]
        c.it.assume(le(0, c.pool[0]))
        for a, b in zip(c.pool, c.pool[1:]): c.it.assume(lt(a, b))
        for a in c.pool: c.it.assume(And(le(0, a), lt(a, c.cols)))
def ent(c, pat, name, i, q): return var('%s_%d_%d' % (name, i, q)) if q in pat[i] else ZERO
def build(c, cls, pat, name, shuffled=False):
    pool(c)
    if cls == L:
        d = ArrC([ArrC([Obj('pair', {'first': c.pool[q], 'second': var('%s_%d_%d' % (name, i, q))}) for q in row], ET[1]) for i, row in enumerate(pat)], ET)
        o = Obj(L, {'ROWS': P(len(pat)), 'COLS': c.cols, 'data': d})
    else:
        ptr = [0]; ix = []; da = []
        for i, row in enumerate(pat):
            for q in sorted(row): ix.append(c.pool[q]); da.append(var('%s_%d_%d' % (name, i, q)))
            ptr.append(len(ix))
        o = Obj(K, {'ROWS': P(len(pat)), 'COLS': c.cols, 'indptr': ArrC([P(x) for x in ptr], 'int'), 'indices': ArrC(ix, 'int'), 'data': ArrC(da, 'double')})
    return c.it.new_root(o, name)

# ---- the same laws on executions of the compiled code ------------------------------------------------
def runtime(R):
    n = 60 if R.tier == 'quick' else 1500
    rc, out, err = R.driver('sparse.cpp', [R.seed, n], flags=['-fsanitize=address,undefined'])
    if rc is None: R.violate('driver', 'build', err); return
    cases, open_ = parse_cases(out)
    for c in cases:
        R.cases += 1
        bad = check_case(c)
        if bad: R.violate('sparse ' + c['_name'], 'execution', bad, {k: v for k, v in c.items()}); return
    if rc != 0: R.violate('sparse matrices', 'execution', 'driver status %s: %s' % (rc, err[-600:]), open_ or {'seed': R.seed})

def check_case(c):
    r, k = int(c['dims'][0]), int(c['dims'][1])
    A = np.zeros((r, k)); seen = set()
    t = c.get('hist', [])
    for h in range(0, len(t), 4):
        i, j, v, ret = int(t[h]), int(t[h + 1]), t[h + 2], int(t[h + 3])
        if ret != ((i, j) in seen): return 'write %d of entry (%d,%d) reported existed=%d' % (h // 4, i, j, ret)
        A[i, j] = v; seen.add((i, j))
    B = np.array(c.get('b', np.zeros(r * k))).reshape(r, k) if r * k else np.zeros((r, k))
    x = np.array(c.get('x', [])); s = c['s'][0]
    want = {'get': A, 'addr': A + B, 'subr': A - B, 'mulr': A * s, 'divr': A / s, 'conv': A, 'back': A, 'after': A}
    for key, w in want.items():
        if key in c:
            g = np.array(c[key]).reshape(r, k)
            if not np.allclose(g, w, rtol=1e-12, atol=1e-12): return '%s differs: %s instead of %s' % (key, g.tolist(), w.tolist())
    for key in ('mv', 'mvc', 'mvd'):
        if key in c:
            g = np.array(c[key])
            if len(g) != r or not np.allclose(g, A @ x, rtol=1e-11, atol=1e-12): return 'product with a vector differs: %s instead of %s' % (g.tolist(), (A @ x).tolist())
    return None
