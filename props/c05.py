from vc import *
import numpy as np, loops
TITLE = 'LU factorisation'
TU = 'lu.cpp'
MX, VX = 'Matrix<double>', 'Vector<double>'

# callee contract of the matrix: element access as a map from positions to numbers (C01 proves it of the row-major storage)
def m_at(it, f, this, args):
    o = it.get(this); i, j = scal(it.get(args[0])), scal(it.get(args[1]))
    it.oblige('matrix position in range', And(le(0, i), lt(i, o.f['row']), le(0, j), lt(j, o.f['col'])))
    return this.at(('f', 'values'), ('i', i), ('i', j))
def mat2(it, name, n): return Obj(MX, {'row': n, 'col': n, 'values': ArrS(n, BArr(LeafArr(('const', n), (), 'int'), it.bundle_for('double', name), 'double'), (), ('vec', 'double'))})

class Facts:
    def __init__(self, it, *fs): self.it = it; self.fs = fs
    def __enter__(self):
        self.n = len(self.it.facts)
        for f in self.fs: self.it.assume(f)
    def __exit__(self, *a): del self.it.facts[self.n:]
def settle(it, e):
    for _ in range(4):
        m = {}
        for a in e.atoms():
            if a.kind == 'ind':
                d = it.decide(a.a[0])
                if d is not None: m[a] = ONE if d else ZERO
            elif a.kind == 'read':
                ix = tuple(settle(it, x) for x in a.a[1])
                if ix != a.a[1]: m[a] = read(a.a[0], ix, a.a[2] if len(a.a) > 2 else 'real')
            elif a.kind == 'fn' and a.a[0] in ('inv', 'abs'):
                y = settle(it, a.a[1][0])
                if y != a.a[1][0]: m[a] = T.inv(y) if a.a[0] == 'inv' else fn('abs', (y,))
        if not m: return e
        e = subst(e, m)
    return e

class LUInv:
    """invariant of the elimination: row i of the permuted matrix is the product of the factors found so far plus the remainder"""
    def __init__(self, c, n): self.c = c; self.n = n; self.done = False
    def candidates(self, it, L):
        out = []; sc = [k for k in L['open'] if isinstance(L['H'][k], Poly)]
        if len(sc) != len(L['open']): return out
        arr = None
        for r, v in L['S0'].items():
            if isinstance(v, Obj) and v.cls == MX: arr = v.f['values'].b.el
        for key in sc:
            if L['H'][key].sort() != 'int': continue
            s0 = L['comp'](L['S0'], key)
            out.append(lambda g, k, key=key, s0=s0: le(s0, g(key)))
            out.append(lambda g, k, key=key, s0=s0: le(g(key), s0 + k))
            for v in sc:
                if L['H'][v].sort() == 'int' or arr is None: continue
                Tq = lambda x: fn('abs', (arr.read((x, s0)),))
                out.append(lambda g, k, v=v, key=key: eq(g(v), Tq(g(key))))
                def mx(g, k, v=v, s0=s0):
                    q = fresh('q', 'int')
                    return ('all', (q,), Implies(And(le(s0, q), le(q, s0 + k)), le(Tq(q), g(v))))
                out.append(mx)
        return out
    def __call__(self, it, L):
        la = [k for k in L['open'] if isinstance(L['H'][k], LeafArr)]
        if not la: return
        am = [k for k in la if L['H'][k].sort == 'real']; ap = [k for k in la if L['H'][k].sort == 'int']
        if len(am) != 1 or len(ap) != 1: raise Unsupported('loop state of the elimination')
        n = self.n; self.done = True
        def ob(name, ok, detail=''):
            if it.record: it.obls.append(Obl(name, ok, it.loc(L['node']), '' if ok else detail, 'inductive invariant' if ok else 'unproved'))
        for run in L['runs']:
            tag = ' (first step)' if run['first'] else ''
            k = run['k']; A = L['comp'](run['head'], am[0]); Pv = L['comp'](run['head'], ap[0])
            A2 = L['comp'](run['post'], am[0]); P2 = L['comp'](run['post'], ap[0])
            with Facts(it, le(0, k), le(1, k) if not run['first'] else TRUE, run['cond'], *run['facts']):
                ob('the elimination step lies inside the matrix' + tag, it.prove(lt(k, n)) == 'proved')
                # pivot row: where the permutation puts row k
                rd = lambda f, *ix: settle(it, f.read(ix))
                ps = []
                for v in run['post'].values():
                    if isinstance(v, Poly) and v.sort() == 'int':
                        v = settle(it, v)
                        if v not in ps and v != k: ps.append(v)
                good = []
                hope = False
                for p in [k] + ps:
                    with Facts(it, Not(eq(p, k)) if p != k else TRUE):
                        if p != k and it.unsat(): continue
                        if p != k and it.prove(And(le(k, p), lt(p, n))) != 'proved': continue
                        bad = self.cases(it, k, p, n, rd, A, A2, Pv, P2) if p != k else None
                    if p == k: continue
                    if bad: self.why = bad; continue
                    with Facts(it, eq(p, k)):
                        if not it.unsat():
                            bad = self.cases(it, k, k, n, lambda f, *ix: settle(it, subst(settle(it, f.read(ix)), {p.as_atom(): k} if p.as_atom() is not None else {})), A, A2, Pv, P2)
                            if bad: self.why = bad; continue
                    good.append(p)
                ob('invariant of the elimination: permuted rows = product of the factors + remainder' + tag, bool(good), getattr(self, 'why', 'no row exchange found'))
                big = False
                for p in good:
                    q = fresh('q', 'int'); qm = it.qmode; it.qmode = True
                    with Facts(it, le(k, q), lt(q, n)):
                        big = big or it.prove(le(fn('abs', (A.read((q, k)),)), fn('abs', (settle(it, A.read((p, k))),)))) == 'proved'
                    it.qmode = qm
                ob('the pivot is the largest entry of its column' + tag, big, 'not shown')
        # after the last step
        k = L['k']
        with Facts(it, le(0, k), Not(L['runs'][1]['cond'])):
            ob('elimination covers all columns', it.prove(le(n - 1, k)) == 'proved', 'the loop stops early')
        c0 = L['runs'][0]['cond']
        with Facts(it, Not(c0)): ob('nothing to eliminate only for one row', it.prove(le(n, 1)) == 'proved')
    def W(self, it, f, K, k, i, j):
        up = None
        if it.decide(And(lt(j, i), lt(j, K))): up = j + 1; extra = ZERO
        else:
            if not it.decide(Not(And(lt(j, i), lt(j, K)))): raise Unsupported('case not decided')
            up = i if it.decide(le(i, K)) else K; extra = f(i, j)
        m = fresh('m', 'int'); tail = ZERO
        if it.decide(le(up, k)): hi = up
        elif up == k + 1: hi = k; tail = f(i, k) * f(k, j)
        else: raise Unsupported('range of the sum %s %s' % (show(up), show(k)))
        with Facts(it, le(0, m), lt(m, hi), lt(m, k)): b = f(i, m) * f(m, j)
        return Sum(m, ZERO, hi, b) + tail + extra
    def cases(self, it, k, p, n, rd, A, A2, Pv, P2):
        i, j = fresh('i', 'int'), fresh('j', 'int')
        rows = [('above', i, i, [lt(i, k)]), ('pivot', k, p, []), ('below', i, i, [lt(k, i)] + ([Not(eq(i, p))] if p != k else []))] + ([('exchanged', p, k, [lt(k, p)])] if p != k else [])
        for nm, r, s, fs in rows:
            with Facts(it, le(0, r), lt(r, n), *fs):
                if it.unsat(): continue
                if it.prove(eq(rd(P2, r), rd(Pv, s))) != 'proved': return 'permutation of the row %s' % nm
                cols = [('left', j, [lt(j, k)]), ('at', k, []), ('right', j, [lt(k, j)])]
                if nm == 'above': cols = [('lower', j, [lt(j, r)]), ('upper', j, [le(r, j), lt(j, k)]), ('at', k, []), ('right', j, [lt(k, j)])]
                for cn, q, gs in cols:
                    with Facts(it, le(0, q), lt(q, n), *gs):
                        if it.unsat(): continue
                        l = self.W(it, lambda a, b: rd(A2, a, b), k + 1, k, r, q)
                        h = self.W(it, lambda a, b: rd(A, a, b), k, k, s, q)
                        import prove as PV
                        if (l - h).d and not PV.is_zero(it, l - h): return 'entry %s/%s: %s' % (nm, cn, show(l - h)[:300])
        return None

def lu_sym(c):
    it = c.it; n = c.int('n', 1)
    it.contracts['Matrix::operator()'] = m_at
    h = LUInv(c, n); it.inv = h; it.qmode = True
    A = mat2(it, 'A', n); piv = it.sym_array(n, 'int', 'piv')
    c.call('LU', [A, piv])
    if not h.done: raise Unsupported('no elimination loop was found')
    r = it.get(c.args[0]); c.ensure_eq('rows', r.f['row'], n); c.ensure_eq('columns', r.f['col'], n); c.ensure_eq('length of the permutation', it.get(c.args[1]).n, n)

def solve_sym(c):
    it = c.it; n = c.int('n', 1)
    it.contracts['Matrix::operator()'] = m_at
    A = mat2(it, 'A', n); b = c.vec('b', n); piv = it.sym_array(n, 'int', 'piv')
    it.axioms['piv'] = lambda a: [le(0, read('piv', (a,), 'int')), lt(read('piv', (a,), 'int'), n)]
    c.call('SolveLU', [A, b, piv])
    x = it.get(c.args[1]); xv = x.f['values']
    c.ensure_eq('size', x.f['size'], n)
    if not isinstance(xv, ArrS) or xv.b.base[0] != 'sym' or xv.b.upds or xv.b.base[1] not in it.recdefs: raise Unsupported('the solution is not defined by a substitution')
    X = xv.b.base[1]; i = fresh('i', 'int'); it.assume(And(le(0, i), lt(i, n)))
    a = lambda p, q: read('A', (p, q))
    def unf(F): return settle(it, it.recdefs[F].read((i,)))
    def su(lo, hi, f):
        m = fresh('m', 'int')
        with Facts(it, le(lo, m), lt(m, hi)): return Sum(m, lo, hi, f(m))
    ok = False; why = ''
    import prove as PV, pit
    for Y in it.recdefs:
        up = a(i, i) * unf(X) + su(i + 1, n, lambda m: a(i, m) * read(X, (m,))) - read(Y, (i,))
        lo = unf(Y) + su(ZERO, i, lambda m: a(i, m) * read(Y, (m,))) - read('b', (read('piv', (i,), 'int'),))
        z = [not d.d or PV.is_zero(it, d) for d in (up, lo)]
        if all(z): ok = True; break
        why = show(up if not z[0] else lo)[:300]
    c.ok('U x = y and L y = permuted right hand side for some y', ok or None, 'term equality', why)
    f = it.get(c.args[0]).f['values'].b.el; c.ok('factors unchanged', not f.upds and f.base == ('sym', 'A') or None, 'frame')

def dense(c, n, zero=()):
    return [[P(0) if (i, j) in zero else c.gen(True) for j in range(n)] for i in range(n)]
def generic(c):
    """P A = L U and solution of A x = b on generic matrices (also with vanishing leading entries)"""
    it = c.it; n = c.sizes['n']; z = {(0, 0)} if c.sizes.get('z') else set()
    if c.sizes.get('z') == 2: z |= {(1, 1), (1, 0)} if n > 2 else set()
    a = dense(c, n, z); b = [c.gen(True) for _ in range(n)]
    A = Obj(MX, {'row': P(n), 'col': P(n), 'values': ArrC([a[i][j] for i in range(n) for j in range(n)], 'double')})
    Al = it.new_root(A, 'A'); pl = it.new_root(ArrC([P(0)] * n, 'int'), 'p'); bl = it.new_root(Obj(VX, {'size': P(n), 'values': ArrC(b, 'double')}), 'b')
    c.call('LU', [Al, pl])
    f = it.get(Al); p = [int(scal(aelem(it.get(pl), P(i))).const()) for i in range(n)]
    c.ok('rows are permuted', sorted(p) == list(range(n)), 'ground evaluation', str(p))
    if sorted(p) != list(range(n)): return
    e = lambda i, j: mget(f, P(i), P(j))
    for i in range(n):
        for j in range(n):
            s = sum((e(i, m) * e(m, j) for m in range(min(i, j + 1))), ZERO) + (e(i, j) if j >= i else ZERO)
            c.ensure_eq('product of the factors[%d,%d]' % (i, j), s, a[p[i]][j])
    c.call('SolveLU', [Al, bl, pl])
    x = it.get(bl)
    for i in range(n): c.ensure_eq('equation %d of A x = b' % i, sum((a[i][j] * vget(x, P(j)) for j in range(n)), ZERO), b[i])

def run(R):
    R.contract('LU: elimination with row exchange', TU, lu_sym, [], timeout=200)
    R.contract('SolveLU: forward and backward substitution', TU, solve_sym, [], timeout=100)
    for n in (1, 2, 3, 4):
        for z in ((0,) if n == 1 else (0, 1, 2)):
            R.contract('factor and solve, %d equations%s' % (n, ['', ', vanishing first entry', ', vanishing leading entries'][z]), TU, generic, [dict(n=n, z=z, seed=11 + s) for s in range(2 if R.tier == 'quick' else 8)], sym=False)
    R.bounded.append('composition LU + SolveLU executed on generic matrices of 1 to 4 rows (the symbolic contracts of the two functions compose to the same statement for all sizes)')
    R.assumptions += ['element access of Matrix: contract proved in C01', 'nonsingular matrix (no vanishing pivot after row exchange)']
    runtime(R)

def runtime(R):
    n = 60 if R.tier == 'quick' else 1500
    rc, out, err = R.driver('lu.cpp', [R.seed, n], flags=['-fsanitize=address,undefined'])
    if rc is None: R.violate('driver', 'build', err); return
    cases, open_ = parse_cases(out)
    for c in cases:
        R.cases += 1
        bad = check_case(c)
        if bad: R.violate('system of %d equations' % len(c['b']), 'execution', bad, dict(c)); return
    if rc != 0: R.violate('LU', 'execution', 'driver status %s: %s' % (rc, err[-600:]), open_ or {'seed': R.seed})
def check_case(c):
    b = np.array(c['b']); n = len(b); A = np.array(c['A']).reshape(n, n); F = np.array(c['LU']).reshape(n, n); p = [int(v) for v in c['piv']]; x = np.array(c['x'])
    if sorted(p) != list(range(n)): return 'the permutation is %s' % p
    Lo = np.tril(F, -1) + np.eye(n); U = np.triu(F); sc = np.abs(A).max()
    if not np.allclose(Lo @ U, A[p], rtol=0, atol=1e-9 * sc): return 'the factors multiply to %s instead of the permuted matrix %s' % ((Lo @ U).tolist(), A[p].tolist())
    if np.abs(Lo).max() > 1 + 1e-12: return 'a multiplier exceeds one: %s' % Lo.tolist()
    if not np.allclose(A @ x, b, rtol=0, atol=1e-7 * max(1, np.abs(x).max()) * sc): return 'A x = %s instead of %s' % ((A @ x).tolist(), b.tolist())
    return None
