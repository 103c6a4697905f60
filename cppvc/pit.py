"""Polynomial identity testing over GF(p): decides (up to error < 2^-40 per run) that a rational expression over the inputs,
with determinants and inverses expanded, vanishes identically."""
import random
from terms import *
import terms as T
PR = G.PR
class No(Exception): pass
def modsqrt(a):
    a %= PR
    if a == 0: return 0
    if pow(a, (PR - 1) // 2, PR) != 1: return None
    return pow(a, (PR + 1) // 4, PR)      # p = 3 mod 4
def det(M):
    n = len(M); M = [list(r) for r in M]; d = 1
    for i in range(n):
        k = next((r for r in range(i, n) if M[r][i] % PR), None)
        if k is None: return 0
        if k != i: M[i], M[k] = M[k], M[i]; d = -d
        d = d * M[i][i] % PR; iv = pow(M[i][i], PR - 2, PR)
        for r in range(i + 1, n):
            f = M[r][i] * iv % PR
            if f:
                for c in range(i, n): M[r][c] = (M[r][c] - f * M[i][c]) % PR
    return d % PR
def minv(M):
    n = len(M); A = [list(r) + [int(i == j) for j in range(n)] for i, r in enumerate(M)]
    for i in range(n):
        k = next((r for r in range(i, n) if A[r][i] % PR), None)
        if k is None: raise No()
        A[i], A[k] = A[k], A[i]
        iv = pow(A[i][i], PR - 2, PR); A[i] = [x * iv % PR for x in A[i]]
        for r in range(n):
            if r != i and A[r][i]:
                f = A[r][i]; A[r] = [(x - f * y) % PR for x, y in zip(A[r], A[i])]
    return [r[n:] for r in A]
def value(p, env, rnd, memo, inv_memo):
    def at(a):
        v = memo.get(a)
        if v is not None: return v
        k = a.kind
        if k in ('var', 'read'):
            if a.sort == 'int' and k == 'var': raise No()
            v = env.setdefault(a, rnd.randrange(1, PR))
        elif k == 'fn':
            nm = a.a[0]; xs = [go(x) for x in a.a[1] if isinstance(x, Poly)]
            if nm == 'inv':
                if xs[0] == 0: raise No()
                v = pow(xs[0], PR - 2, PR)
            elif nm == 'sqrt':
                v = modsqrt(xs[0])
                if v is None: raise ArithmeticError
            elif nm == 'DET':
                n = xs[0]; v = det([xs[1 + n * i:1 + n * i + n] for i in range(n)])
            elif nm == 'INV':
                n = xs[2]; key = tuple(xs[2:])
                if key not in inv_memo: inv_memo[key] = minv([xs[3 + n * i:3 + n * i + n] for i in range(n)])
                v = inv_memo[key][xs[0]][xs[1]]
            elif nm in ('field0', 'field1', 'field2', 'sfield', 'reaction'): v = env.setdefault((nm,) + tuple(xs), rnd.randrange(1, PR))
            elif nm in ('log', 'exp', 'tanh', 'cos', 'sin', 'pow'): v = env.setdefault((nm,) + tuple(xs), rnd.randrange(1, PR))
            else: raise No()
        else: raise No()
        memo[a] = v
        return v
    def go(q):
        r = 0
        for m, c in q.d.items():
            t = c % PR if isinstance(c, int) else c.numerator * pow(c.denominator, PR - 2, PR) % PR
            for aid, e in m:
                x = at(T._alist[aid]); t = t * (x if e == 1 else pow(x, e, PR)) % PR
            r += t
        return r % PR
    return go(p)
_pts = {}
def identically_zero(p, points=2, seed=11):
    """True / False / None (not decidable this way)"""
    done = 0; k = 0
    while done < points and k < 60:
        k += 1
        st = _pts.get((seed, k))
        if st == 'bad': continue
        if st is None: st = _pts[seed, k] = (random.Random(seed * 1000 + k), {}, {}, {})
        rnd, env, memo, im = st
        try: v = value(p, env, rnd, memo, im)
        except No: return None
        except ArithmeticError: _pts[seed, k] = 'bad'; continue
        if v: return False
        done += 1
    return True if done == points else None
