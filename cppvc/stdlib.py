"""Trusted model of the parts of the C++ standard library the code under contract uses."""
from terms import *
import terms as T
from arrays import *
from interp import *
import interp as I

def V(it, a, want=None): return it.get(a) if isinstance(a, LV) else it.ev(a, want)

def construct(it, t, args, ctype, n):
    if it.lib is not None:
        r = it.lib.construct(it, t, args, ctype, n)
        if r is not NotImplemented: return r
    if t == 'string':
        for a in args: V(it, a)
        return StrV(None)
    if t in ('int', 'double', 'bool'):
        return V(it, args[0]) if args else it.zero(t)
    k = t[0]
    args = [a for a in args if isinstance(a, LV) or unwrap(a).get('kind') != 'CXXDefaultArgExpr']
    if k in ('vec',):
        if not args: return ArrC((), t[1])
        if len(args) == 1:
            a = args[0]
            at = None if isinstance(a, LV) else I.ntype(unwrap(a))
            v = V(it, a, t)
            if isinstance(v, (ArrC, ArrS)):
                return ArrC(v.v, t[1]) if isinstance(v, ArrC) else v
            return filled(it, scal(v), it.zero(t[1]), t[1], n)
        a0 = V(it, args[0]); a1 = V(it, args[1])
        if isinstance(a0, PtrV): # iterator range
            src = it.get(a0.lv)
            cnt = a1.off - a0.off
            if it.record: it.oblige('iterator range', And(le(0, a0.off), le(a0.off, a1.off), le(a1.off, src.n)), n)
            return mk_array(cnt, lambda i: aelem(src, a0.off + i), t[1])
        return filled(it, scal(a0), it.coerce(a1, t[1]), t[1], n)
    if k == 'sarr':
        if args: return V(it, args[0], t)
        return it.default(('arr', t[1], t[2]))
    if k == 'pair':
        if not args: return it.zero(t)
        if len(args) == 1: return V(it, args[0], t)
        return Obj('pair', {'first': it.coerce(V(it, args[0], t[1]), t[1]), 'second': it.coerce(V(it, args[1], t[2]), t[2])})
    if k == 'iter' or k == 'fun': return V(it, args[0])
    if k == 'cls':
        if t[1].startswith('(lambda') or 'lambda' in t[1]: return V(it, args[0])
        if t[1].startswith('function') and args: return V(it, args[0])
        if args and len(args) == 1:
            v = V(it, args[0])
            if isinstance(v, (FnV,)): return v
        return Opaque(t[1])
    raise Unsupported('construct %s' % (t,), n)

def filled(it, n, v, et, node):
    c = n.const()
    if it.record and c is None: it.oblige('vector size non-negative', le(0, n), node)
    elif c is not None and c < 0: raise OutOfRange('negative vector size at ' + it.loc(node))
    if c is not None: return ArrC([v] * int(c), et)
    b = it.bundle_for(et, fresh_name('vec'))
    if isinstance(b, LeafArr): b = LeafArr(('const', scal(v)), (), b.sort)
    else:
        u = fresh('i', 'int')
        b = bwrite(b, (u,), (), v, 'set', ((u.as_atom(), ZERO, n),))
    return ArrS(n, b, (), et)

def method(it, name, this, t, args, n):
    if it.lib is not None:
        r = it.lib.method(it, name, this, t, args, n)
        if r is not NotImplemented: return r
    v = it.get(this)
    if isinstance(v, PtrV) and name not in ('operator++',): raise Unsupported('method on pointer', n)
    if isinstance(v, (ArrC, ArrS)):
        et = v.et
        if name == 'size' or name == 'length': return v.n
        if name == 'empty': return eq(v.n, 0)
        if name in ('begin', 'cbegin'): return IterV(this, ZERO)
        if name in ('end', 'cend'): return IterV(this, v.n)
        if name == 'data': return PtrV(this, ZERO)
        if name == 'at': return it.index_lv(this, V(it, args[0]), n)
        if name == 'back': return it.index_lv(this, v.n - 1, n)
        if name == 'front': return it.index_lv(this, ZERO, n)
        if name in ('push_back', 'emplace_back'):
            if name == 'emplace_back' and len(args) > 1: x = construct(it, et, args, None, n)
            else: x = it.coerce(V(it, args[0], et), et)
            v = it.get(this)
            if isinstance(v, ArrC): it.set(this, ArrC(v.v + (x,), et))
            else:
                push(it, this, v, x)
            return None
        if name == 'pop_back':
            it.set(this, ArrC(v.v[:-1], et)) if isinstance(v, ArrC) else it.set(this.at(('n', None)), v.n - 1)
            return None
        if name == 'clear':
            it.set(this, ArrC((), et)); return None
        if name == 'reserve' or name == 'shrink_to_fit': 
            for a in args: V(it, a)
            return None
        if name in ('resize', 'assign'):
            a0 = scal(V(it, args[0])); x = it.coerce(V(it, args[1], et), et) if len(args) > 1 else it.zero(et)
            if name == 'assign': it.set(this, filled(it, a0, x, et, n)); return None
            if isinstance(v, ArrC) and a0.const() is not None:
                m = int(a0.const()); it.set(this, ArrC(v.v[:m] + tuple([x] * (m - len(v.v))), et)); return None
            if isinstance(v, ArrC) and len(v.v) == 0:
                it.set(this, filled(it, a0, x, et, n)); return None
            nn = v.n
            it.set(this, mk_array(a0, lambda i: merge_val(lt(i, nn), guarded_elem(it, v, i, nn), x), et)); return None
        if name == 'insert':
            p = V(it, args[0])
            if len(args) == 2:
                x = it.coerce(V(it, args[1], et), et)
                if isinstance(v, ArrC) and p.off.const() is not None:
                    k = int(p.off.const()); it.set(this, ArrC(v.v[:k] + (x,) + v.v[k:], et)); return IterV(this, p.off)
                it.set(this, shift_insert(it, v, p.off, x, n)); return IterV(this, p.off)
            if len(args) == 3:
                a, b = V(it, args[1]), V(it, args[2])
                src = it.get(a.lv)
                if isinstance(v, ArrC) and isinstance(src, ArrC) and all(z.const() is not None for z in (p.off, a.off, b.off)):
                    k = int(p.off.const()); it.set(this, ArrC(v.v[:k] + src.v[int(a.off.const()):int(b.off.const())] + v.v[k:], et)); return None
            raise Unsupported('vector insert', n)
        if name == 'erase':
            p = V(it, args[0])
            if len(args) == 1 and isinstance(v, ArrC) and p.off.const() is not None:
                k = int(p.off.const()); it.set(this, ArrC(v.v[:k] + v.v[k + 1:], et)); return IterV(this, p.off)
            raise Unsupported('vector erase', n)
        if name == 'swap':
            o = it.lv_or_temp(args[0]); w = it.get(o); it.set(this, w); it.set(o, v); return None
        if name == 'operator[]': return it.index_lv(this, V(it, args[0]), n)
        if name == 'fill':
            x = it.coerce(V(it, args[0], et), et)
            it.set(this, filled(it, v.n, x, et, n)); return None
    if isinstance(v, Opaque) or isinstance(v, StrV):
        h = getattr(it, 'opaque_hook', None)
        if h: return h(it, name, this, v, args, n)
        raise Unsupported('method %s on %s' % (name, getattr(v, 'd', 'string')), n)
    raise Unsupported('method %s on %s' % (name, type(v).__name__), n)

def guarded_elem(it, v, i, n):
    k = len(it.facts)
    it.facts.append(lt(i, n))
    try: return aelem(v, i) if not (isinstance(v, ArrC) and not v.v) else it.zero(v.et)
    finally: del it.facts[k:]

def push(it, lv, v, x):
    root = it.store[lv.root]
    nn = v.n
    it.set(lv.at(('i', nn)), x)
    it.set(lv.at(('n', None)), nn + 1)

def shift_insert(it, v, p, x, node):
    if it.record: it.oblige('insert position in range', And(le(0, p), le(p, v.n)), node)
    v = lift(v)
    def el(i):
        # i<p: v[i]; i==p: x; i>p: v[i-1]
        fs = it.facts
        k = len(fs)
        d = it.decide(lt(i, p))
        if d is True: return aelem(v, i)
        d2 = it.decide(eq(i, p))
        if d2 is True: return x
        it.facts.append(lt(i, p)); a = aelem(v, i); del it.facts[k:]
        it.facts.append(gt(i, p)); b = aelem(v, i - 1); del it.facts[k:]
        return merge_val(lt(i, p), a, merge_val(eq(i, p), x, b))
    return mk_array(v.n + 1, el, v.et)

def operator(it, name, args, n):
    if it.lib is not None:
        r = it.lib.operator(it, name, args, n)
        if r is not NotImplemented: return r
    if name in ('operator[]',):
        lv = it.lv_or_temp(args[0])
        v = it.get(lv)
        i = V(it, args[1])
        if isinstance(v, PtrV): return it.index_lv(v.lv, v.off + i, n)
        return it.index_lv(lv, i, n)
    if name == 'operator()':
        v = it.get(it.lv_or_temp(args[0]))
        return it.call_value(v, args[1:], n)
    if name == 'operator=':
        t = I.ntype(unwrap(args[0]))
        v = it.coerce(V(it, args[1], t), t)
        lv = it.lv(args[0])
        it.set(lv, v)
        return lv
    if name == 'operator*' and len(args) == 1:
        return it.deref(V(it, args[0]), n)
    if name == 'operator->': return it.deref(V(it, args[0]), n)
    if name in ('operator++', 'operator--'):
        lv = it.lv_or_temp(args[0]); v = it.get(lv)
        if isinstance(v, PtrV):
            d = 1 if name == 'operator++' else -1
            it.set(lv, type(v)(v.lv, v.off + d))
            return v if len(args) > 1 else lv
    if name in ('operator+=', 'operator-='):
        lv = it.lv_or_temp(args[0]); v = it.get(lv)
        if isinstance(v, PtrV):
            d = scal(V(it, args[1])); it.set(lv, type(v)(v.lv, v.off + d if name == 'operator+=' else v.off - d)); return lv
    a = V(it, args[0])
    if isinstance(a, Opaque) or isinstance(a, StrV):
        h = getattr(it, 'opaque_hook', None)
        if h: return h(it, name, None, a, args, n)
        if name == 'operator<<':
            x = unwrap(args[1]) if not isinstance(args[1], LV) else None
            while x is not None and x['kind'] == 'ImplicitCastExpr': x = unwrap(x['inner'][0])
            if not (x is not None and x['kind'] == 'DeclRefExpr' and (x.get('referencedDecl') or {}).get('kind') == 'FunctionDecl'): V(it, args[1])
            return it.lv_or_temp(args[0])
        raise Unsupported('%s on %s' % (name, getattr(a, 'd', 'string')), n)
    b = V(it, args[1]) if len(args) > 1 else None
    op = name[len('operator'):]
    if isinstance(a, PtrV): return it.parith(op, a, b, n)
    if isinstance(a, Obj) and a.cls == 'pair' and op in ('==', '!='):
        f = And(veq(a.f['first'], b.f['first']), veq(a.f['second'], b.f['second']))
        return f if op == '==' else Not(f)
    if isinstance(a, (ArrC,)) and isinstance(b, ArrC) and op in ('==', '!='):
        f = And(*[veq(x, y) for x, y in zip(a.v, b.v)]) if len(a.v) == len(b.v) else FALSE
        return f if op == '==' else Not(f)
    raise Unsupported('%s on %s' % (name, type(a).__name__), n)

def veq(a, b):
    if isinstance(a, Poly): return eq(a, scal(b))
    if isinstance(a, Obj): return And(*[veq(a.f[k], b.f[k]) for k in a.f])
    raise Unsupported('equality of %s' % type(a).__name__)

def _minmax(name, a, b):
    if a.const() is not None and b.const() is not None: return P(max(a.const(), b.const()) if name == 'max' else min(a.const(), b.const()))
    if a == b: return a
    srt = 'int' if a.sort() == 'int' and b.sort() == 'int' else 'real'
    ks = sorted([a, b], key=lambda p: p.key())
    it = CTX.interp
    d = it.decide(le(a, b))
    if d is True: return b if name == 'max' else a
    if d is False: return a if name == 'max' else b
    return fn(name, tuple(ks), srt)

def call(it, name, args, n):
    if it.lib is not None:
        r = it.lib.call(it, name, args, n)
        if r is not NotImplemented: return r
    name = name.split('::')[-1]
    if name == 'cbrt': return fn('cbrt', (scal(V(it, args[0])),))
    if name == 'sqrt': return T.sqrt(scal(V(it, args[0])))
    if name in ('fabs', 'abs'):
        x = scal(V(it, args[0])); c = x.const()
        if c is not None: return P(abs(c))
        d = it.decide(le(0, x))
        if d is True: return x
        if it.decide(le(x, 0)) is True: return -x
        return fn('abs', (x,) if x.key()[-1][1] > 0 else (-x,), x.sort())
    if name == 'pow':
        x, y = scal(V(it, args[0])), scal(V(it, args[1])); c = y.const()
        if c is not None and Q(c).denominator == 1 and 0 <= c <= 12: return x ** int(c)
        if c is not None and Q(c).denominator == 1 and -12 <= c < 0: return inv(x) ** int(-c)
        if c is not None and Q(c) == Q(1, 2): return T.sqrt(x)
        if x.const() == -1 and y.sort() == 'int': return I.alternating(y)
        return fn('pow', (x, y))
    if name in ('max', 'min'):
        if len(args) > 2: raise Unsupported('%s with a comparison' % name, n)
        xs = [scal(V(it, args[0])), scal(V(it, args[1]))] if len(args) == 2 else [scal(x) for x in getattr(V(it, args[0]), 'v', ())]
        if not xs: raise Unsupported('%s of a list of unknown length' % name, n)
        a = xs[0]
        for b in xs[1:]: a = _minmax(name, a, b)
        return a
    if name in ('sin', 'cos', 'tan', 'exp', 'log', 'acos', 'asin', 'atan', 'tanh', 'atan2', 'fmod', 'ceil', 'floor', 'log10', 'sinh', 'cosh'):
        xs = [scal(V(it, a)) for a in args]
        if len(xs) == 1 and xs[0].const() == 0 and name in ('sin', 'tan', 'tanh', 'asin', 'atan', 'sinh'): return ZERO
        if len(xs) == 1 and xs[0].const() == 0 and name in ('cos', 'exp', 'cosh'): return ONE
        return fn(name, xs)
    if name in ('isnan', 'isinf'): return FALSE
    if name == 'make_pair':
        t = I.ntype(n)
        a, b = V(it, args[0]), V(it, args[1])
        if isinstance(t, tuple) and t[0] == 'pair': a, b = it.coerce(a, t[1]), it.coerce(b, t[2])
        return Obj('pair', {'first': a, 'second': b})
    if name in ('move', 'forward'):
        return it.lv_or_temp(args[0])
    if name == 'inner_product':
        a, b, c = V(it, args[0]), V(it, args[1]), V(it, args[2])
        init = scal(V(it, args[3]))
        x, y = it.get(a.lv), it.get(c.lv)
        cnt = b.off - a.off
        if it.record and (cnt.const() is None or isinstance(x, ArrS) or isinstance(y, ArrS)):
            it.oblige('inner_product ranges', And(le(0, a.off), le(b.off, x.n), le(0, c.off), le(c.off + cnt, y.n)), n)
        if cnt.const() is not None:
            r = init
            for i in range(int(cnt.const())): r = r + scal(aelem(x, a.off + i)) * scal(aelem(y, c.off + i))
            return r
        i = fresh('i', 'int')
        k = len(it.facts); it.facts.append(le(0, i)); it.facts.append(lt(i, cnt))
        try: body = scal(aelem(x, a.off + i)) * scal(aelem(y, c.off + i))
        finally: del it.facts[k:]
        r = Sum(i, ZERO, cnt, body)
        return init + (fn('IP', (r,)) if it.wrap_ip and r.const() is None else r)
    if name == 'accumulate':
        a, b = V(it, args[0]), V(it, args[1]); init = scal(V(it, args[2])); x = it.get(a.lv); cnt = b.off - a.off
        if cnt.const() is not None:
            r = init
            for i in range(int(cnt.const())): r = r + scal(aelem(x, a.off + i))
            return r
        i = fresh('i', 'int')
        k = len(it.facts); it.facts.append(le(0, i)); it.facts.append(lt(i, cnt))
        try: body = scal(aelem(x, a.off + i))
        finally: del it.facts[k:]
        return init + Sum(i, ZERO, cnt, body)
    if name == 'swap':
        a, b = it.lv(args[0]), it.lv(args[1]); x, y = it.get(a), it.get(b)
        it.set(a, y); it.set(b, x); return None
    if name == 'distance':
        a, b = V(it, args[0]), V(it, args[1]); return b.off - a.off
    if name in ('begin', 'cbegin'): return IterV(it.lv_or_temp(args[0]), ZERO)
    if name in ('end', 'cend'):
        lv = it.lv_or_temp(args[0]); return IterV(lv, it.get(lv).n)
    if name == 'fill':
        a, b = V(it, args[0]), V(it, args[1]); x = V(it, args[2])
        arr = it.get(a.lv)
        if a.off.const() == 0 and b.off == arr.n:
            it.set(a.lv, filled(it, arr.n, it.coerce(x, arr.et), arr.et, n)); return None
        raise Unsupported('std::fill', n)
    if name == 'copy':
        a, b, c = V(it, args[0]), V(it, args[1]), V(it, args[2])
        if isinstance(a, Null) and isinstance(b, Null): return c
        src, dst = it.get(a.lv), it.get(c.lv)
        cnt = b.off - a.off
        if cnt.const() is not None:
            for i in range(int(cnt.const())): it.set(it.index_lv(c.lv, c.off + i, n), aelem(src, a.off + i))
            return IterV(c.lv, c.off + cnt)
        if it.record: it.oblige('std::copy range', And(le(0, c.off), le(c.off + cnt, dst.n), le(0, a.off), le(b.off, src.n)), n)
        dst = lift(dst); dst = rebase(dst)
        u = fresh('c', 'int'); k = len(it.facts)
        it.facts.append(le(0, u)); it.facts.append(lt(u, cnt))
        val = aelem(src, a.off + u); del it.facts[k:]
        it.set(c.lv, ArrS(dst.n, bwrite(dst.b, (c.off + u,), (), val, 'set', ((u.as_atom(), ZERO, cnt),)), (), dst.et))
        return IterV(c.lv, c.off + cnt)
    if name in ('lower_bound', 'upper_bound', 'binary_search') and len(args) == 3:
        a, b = V(it, args[0]), V(it, args[1]); arr = it.get(a.lv); x = it.coerce(V(it, args[2]), arr.et)
        if not isinstance(x, Poly): raise Unsupported('std::%s on objects' % name, n)
        return search_sorted(it, name, a, b, arr, x, n)
    if name in ('find', 'count') and len(args) == 3:
        a, b = V(it, args[0]), V(it, args[1]); arr = it.get(a.lv); x = it.coerce(V(it, args[2]), arr.et)
        return find(it, name, a, b, arr, lambda e: veq(e, x), n)
    if name in ('find_if', 'any_of', 'all_of', 'none_of', 'count_if'):
        a, b = V(it, args[0]), V(it, args[1]); arr = it.get(a.lv); fnv = V(it, args[2])
        return find(it, name, a, b, arr, lambda e: to_formula(apply_fn(it, fnv, [e], n)), n)
    if name in ('sort', 'stable_sort'):
        a, b = V(it, args[0]), V(it, args[1]); arr = it.get(a.lv)
        less = (lambda x, y: val_less(it, x, y)) if len(args) < 3 else None
        if less is None:
            fnv = V(it, args[2]); less = lambda x, y: to_formula(apply_fn(it, fnv, [x, y], n))
        lo, hi = a.off.const(), b.off.const()
        if not isinstance(arr, ArrC) or lo is None or hi is None: raise Unsupported('std::sort of a range of symbolic length', n)
        l = list(arr.v[int(lo):int(hi)])
        for i in range(1, len(l)):
            j = i
            while j > 0:
                d = it.decide(less(l[j], l[j - 1]))
                if d is None: raise Unsupported('std::sort order not determined', n)
                if not d: break
                l[j], l[j - 1] = l[j - 1], l[j]; j -= 1
        it.set(a.lv, ArrC(list(arr.v[:int(lo)]) + l + list(arr.v[int(hi):]), arr.et)); return None
    if name in ('min_element', 'max_element'):
        a, b = V(it, args[0]), V(it, args[1]); arr = it.get(a.lv); lo, hi = a.off.const(), b.off.const()
        less = (lambda x, y: val_less(it, x, y)) if len(args) < 3 else None
        if less is None:
            fnv = V(it, args[2]); less = lambda x, y: to_formula(apply_fn(it, fnv, [x, y], n))
        if not isinstance(arr, ArrC) or lo is None or hi is None: return extremum(it, name, a, b, arr, less, n)
        best = int(lo); off = P(best); val = arr.v[best] if hi > lo else None
        for i in range(int(lo) + 1, int(hi)):
            f = less(arr.v[i], val) if name == 'min_element' else less(val, arr.v[i])
            off = merge_val(f, P(i), off); val = merge_val(f, arr.v[i], val)
        return IterV(a.lv, off)
    if name == 'transform':
        one = len(args) == 4
        a, b = V(it, args[0]), V(it, args[1])
        a2 = None if one else V(it, args[2])
        d = V(it, args[2 if one else 3]); fnv = V(it, args[3 if one else 4])
        cnt = (b.off - a.off)
        if cnt.const() is None:
            arr, src = it.get(d.lv), it.get(a.lv); src2 = None if a2 is None else it.get(a2.lv)
            if a.off.const() != 0 or d.off.const() != 0 or a2 is not None and a2.off.const() != 0 or arr.n != cnt or src.n != cnt or not isinstance(arr.et, str): raise Unsupported('std::transform of symbolic length', n)
            if src2 is not None and src2.n != cnt and it.decide(le(cnt, src2.n)) is not True: raise Unsupported('std::transform of symbolic length', n)
            def el(i):
                old = dict(it.store); k = len(it.facts)
                r = it.coerce(apply_fn(it, fnv, [aelem(src, i)] + ([] if src2 is None else [aelem(src2, i)]), n), arr.et)
                if len(it.facts) != k or any(it.store.get(x) is not v for x, v in old.items()): raise Unsupported('std::transform with a function that has effects', n)
                return scal(r)
            it.set(d.lv, mk_array(cnt, el, arr.et)); return IterV(d.lv, d.off + cnt)
        for i in range(int(cnt.const())):
            xs = [aelem(it.get(a.lv), a.off + i)]
            if a2 is not None: xs.append(aelem(it.get(a2.lv), a2.off + i))
            it.set(it.index_lv(d.lv, d.off + i, n), it.coerce(apply_fn(it, fnv, xs, n), it.get(d.lv).et))
        return IterV(d.lv, d.off + cnt)
    if name in ('reverse', 'unique', 'rotate'):
        a, b = V(it, args[0]), V(it, args[1]); arr = it.get(a.lv); lo, hi = a.off.const(), b.off.const()
        if not isinstance(arr, ArrC) or lo is None or hi is None or name == 'rotate': raise Unsupported('std::' + name, n)
        l = list(arr.v[int(lo):int(hi)])
        if name == 'reverse': l.reverse(); it.set(a.lv, ArrC(list(arr.v[:int(lo)]) + l + list(arr.v[int(hi):]), arr.et)); return None
        out = l[:1]
        for x in l[1:]:
            d = it.decide(veq(out[-1], x))
            if d is None: raise Unsupported('std::unique not determined', n)
            if not d: out.append(x)
        it.set(a.lv, ArrC(list(arr.v[:int(lo)]) + out + l[len(out):] + list(arr.v[int(hi):]), arr.et)); return IterV(a.lv, a.off + len(out))
    if name == 'iota':
        a, b = V(it, args[0]), V(it, args[1]); s = scal(V(it, args[2])); arr = it.get(a.lv)
        if a.off.const() == 0 and b.off == arr.n:
            it.set(a.lv, mk_array(arr.n, lambda i: s + i, arr.et)); return None
        raise Unsupported('std::iota', n)
    if name in ('omp_get_num_threads', 'omp_get_thread_num', 'omp_get_max_threads'): return fresh('omp', 'int')
    h = getattr(it, 'call_hook', None)
    if h:
        r = h(it, name, args, n)
        if r is not NotImplemented: return r
    raise Unsupported('call of standard function ' + name, n)

def apply_fn(it, f, xs, n):
    r = it.call_value(f, [it.new_root(x, 'arg') for x in xs], n)
    return it.get(r) if isinstance(r, LV) else r

def val_less(it, a, b):
    """operator< of the element type"""
    if isinstance(a, Poly): return lt(a, b)
    if isinstance(a, Obj) and a.cls == 'pair':
        x, y = val_less(it, a.f['first'], b.f['first']), val_less(it, b.f['first'], a.f['first'])
        return Or(x, And(Not(x), Not(y), val_less(it, a.f['second'], b.f['second'])))
    raise Unsupported('order of %s' % type(a).__name__)

def search_sorted(it, name, a, b, arr, x, n):
    """std::lower_bound / upper_bound / binary_search: requires a sorted range"""
    below = (lambda e: lt(e, x)) if name != 'upper_bound' else (lambda e: le(e, x))
    lo, hi = a.off.const(), b.off.const()
    if isinstance(arr, ArrC) and lo is not None and hi is not None:
        es = [scal(arr.v[k]) for k in range(int(lo), int(hi))]
        if it.record:
            for e, f in zip(es, es[1:]): it.oblige('std::%s on a sorted range' % name, le(e, f), n)
        p = a.off
        for e in es:
            d = it.decide(below(e))
            p = p + (ONE if d is True else ZERO if d is False else ind(below(e)))
        q = p.const()
        if name == 'binary_search': return Or(*[eq(e, x) for e in es])
        return IterV(a.lv, p)
    if it.symdepth: raise Unsupported('std::%s inside a summarised loop' % name, n)
    u, w = fresh('u', 'int'), fresh('w', 'int')
    if it.record:
        it.oblige('iterator range', And(le(0, a.off), le(a.off, b.off), le(b.off, arr.n)), n)
        k = len(it.facts)
        it.facts += [le(a.off, u), lt(u, w), lt(w, b.off)]
        try: eu, ew = scal(aelem(arr, u)), scal(aelem(arr, w))
        except Unsupported: del it.facts[k:]; raise
        r = it.prove(le(eu, ew)); del it.facts[k:]
        it.obls.append(I.Obl('std::%s on a sorted range' % name, r == 'proved', it.loc(n), '', r))
    p = fresh('lb', 'int')
    if name == 'binary_search': raise Unsupported('std::binary_search', n)
    fs = [le(a.off, p), le(p, b.off)]
    k = len(it.facts)
    it.facts += [le(a.off, u), lt(u, b.off)]
    e = scal(aelem(arr, u)); del it.facts[k:]
    fs.append(Forall((u,), Implies(And(le(a.off, u), lt(u, p)), below(e))))
    fs.append(Forall((u,), Implies(And(le(p, u), lt(u, b.off)), Not(below(e)))))
    it.fnfacts[p.as_atom()] = fs
    return IterV(a.lv, p)

def extremum(it, name, a, b, arr, less, n):
    """position of the first least (greatest) element of a range of symbolic length, the end of an empty range"""
    if it.symdepth: raise Unsupported('std::%s inside a summarised loop' % name, n)
    it.oblige('iterator range', And(le(0, a.off), le(a.off, b.off), le(b.off, arr.n)), n)
    p, u = fresh('ext', 'int'), fresh('u', 'int'); at = lambda k: scal(aelem(arr, k))
    fs = [le(a.off, p), le(p, b.off), Or(lt(p, b.off), eq(a.off, b.off))]
    k = len(it.facts); it.facts += [le(a.off, u), lt(u, b.off)]
    try: better = (lambda x, y: less(x, y)) if name == 'min_element' else (lambda x, y: less(y, x)); eu = at(u); it.facts += fs; ep = at(p); a1, a2 = better(eu, ep), better(ep, eu)
    finally: del it.facts[k:]
    fs.append(Forall((u,), Implies(And(le(a.off, u), lt(u, b.off)), Not(a1))))
    fs.append(Forall((u,), Implies(And(le(a.off, u), lt(u, p)), a2)))
    it.fnfacts[p.as_atom()] = fs
    return IterV(a.lv, p)

def find(it, name, a, b, arr, pred, n):
    lo, hi = a.off.const(), b.off.const()
    if not isinstance(arr, ArrC) or lo is None or hi is None: raise Unsupported('std::%s of a range of symbolic length' % name, n)
    fs = [pred(arr.v[k]) for k in range(int(lo), int(hi))]
    if name == 'any_of': return Or(*fs)
    if name == 'all_of': return And(*fs)
    if name == 'none_of': return Not(Or(*fs))
    if name in ('count', 'count_if'):
        r = ZERO
        for f in fs: r = r + ind(f)
        return r
    off = b.off
    for k in reversed(range(len(fs))): off = merge_val(fs[k], a.off + k, off)
    return IterV(a.lv, off)
