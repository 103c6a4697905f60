"""Callee contracts of the dense algebra (the postconditions proved by C01), used at call sites instead of the bodies.
Applied only when the shapes are concrete and the precondition holds; otherwise the body is executed, so that a
violated precondition is still an obligation of the caller."""
from vc import *
M, V = 'Matrix<double>', 'Vector<double>'
def shp(o):
    if not isinstance(o, Obj): return None
    if o.cls == M:
        r, c = o.f['row'].const(), o.f['col'].const()
        if r is None or c is None or not isinstance(o.f['values'], ArrC) or len(o.f['values'].v) != r * c: return None
        return (int(r), int(c))
    if o.cls == V:
        n = o.f['size'].const()
        if n is None or not isinstance(o.f['values'], ArrC) or len(o.f['values'].v) != n: return None
        return (int(n),)
    return None
def vals(o):
    v = o.f['values'].v
    if not all(isinstance(x, Poly) for x in v): raise TypeError
    return v
def mk(shape, v):
    if len(shape) == 2: return Obj(M, {'row': P(shape[0]), 'col': P(shape[1]), 'values': ArrC(v, 'double')})
    return Obj(V, {'size': P(shape[0]), 'values': ArrC(v, 'double')})
def matmul(n, k, m, A, B):
    rows = [[(l, B[l * m + j]) for l in range(k) if B[l * m + j].d] for j in range(m)]
    out = []
    for i in range(n):
        a = A[i * k:(i + 1) * k]
        for j in range(m):
            s = ZERO
            for l, b in rows[j]:
                if a[l].d: s = s + a[l] * b
            out.append(s)
    return out
def op(name, update=False):
    def c(it, f, this, args):
        try:
            a = it.get(this); b = it.get(args[0]) if args else None
            sa = shp(a)
            if sa is None: return NotImplemented
            x = vals(a)
            if isinstance(b, Obj):
                sb = shp(b)
                if sb is None: return NotImplemented
                y = vals(b)
                if name in '+-':
                    if sa != sb: return NotImplemented
                    r = mk(sa, [p + q if name == '+' else p - q for p, q in zip(x, y)])
                elif name == '*':
                    if len(sa) == 2:
                        if sa[1] != sb[0]: return NotImplemented
                        r = mk((sa[0], sb[1]) if len(sb) == 2 else (sa[0],), matmul(sa[0], sa[1], sb[1] if len(sb) == 2 else 1, x, y))
                    elif len(sb) == 2:
                        if sb[0] != 1: return NotImplemented
                        r = mk((sa[0], sb[1]), matmul(sa[0], 1, sb[1], x, y))
                    else:
                        if sa != sb: return NotImplemented
                        return matmul(1, sa[0], 1, x, y)[0]
                else: return NotImplemented
            elif b is None:
                if name != '-': return NotImplemented
                r = mk(sa, [-p for p in x])
            else:
                s = scal(b)
                if not isinstance(s, Poly) or name not in '*/': return NotImplemented
                if name == '/': 
                    if s.const() == 0: return NotImplemented
                    s = inv(s)
                r = mk(sa, [p * s for p in x])
            if update: it.set(this, r); return this
            return r
        except (TypeError, Unsupported): return NotImplemented
    return c
def smul(it, f, this, args):
    try:
        if len(args) != 2: return NotImplemented
        b = it.get(args[1]); s = scal(it.get(args[0]))
        if shp(b) is None or not isinstance(s, Poly): return NotImplemented
        return mk(shp(b), [p * s for p in vals(b)])
    except (TypeError, Unsupported): return NotImplemented
def transpose(it, f, this, args):
    try:
        a = it.get(this); sa = shp(a)
        if sa is None: return NotImplemented
        x = vals(a)
        if len(sa) == 1: return mk((1, sa[0]), x)
        return mk((sa[1], sa[0]), [x[i * sa[1] + j] for j in range(sa[1]) for i in range(sa[0])])
    except (TypeError, Unsupported): return NotImplemented
LA = {}
for cls in (M, V):
    for o in '+-*/':
        LA[cls + '::operator' + o] = op(o)
        LA[cls + '::operator' + o + '='] = op(o, True)
    LA[cls + '::Transpose'] = transpose
LA['operator*'] = smul
