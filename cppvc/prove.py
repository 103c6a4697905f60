"""Proving equality of terms under the facts of an interpreter state."""
from terms import *
import terms as T
from arrays import *
import smt, time

class Fail(Exception): pass

def top_inds(p):
    r = set()
    for a in p.atoms():
        if a.kind == 'ind' and not any(x.kind == 'bv' for x in a.fv): r.add(a)
    return sorted(r, key=lambda a: a.id)

def deep_inds(p, acc=None):
    if acc is None: acc = set()
    for a in p.atoms():
        if a.kind == 'ind':
            if not any(x.kind == 'bv' for x in a.fv): acc.add(a)
        elif a.kind == 'sum':
            for q in a.a[1:]: deep_inds(q, acc)
        elif a.kind == 'fn':
            for q in a.a[1]:
                if isinstance(q, Poly): deep_inds(q, acc)
        elif a.kind == 'read':
            for q in a.a[1]: deep_inds(q, acc)
    return acc

def eq_subst(it):
    """substitutions var := term from equality facts"""
    m = {}
    for f in it.facts:
        if f[0] == 'eq':
            p = f[1]
            for a in sorted(p.atoms(), key=lambda a: -a.id):
                if a.kind == 'var' and a not in m:
                    c = lincoef(p, a)
                    if c is not None and c.const() is not None and abs(c.const()) == 1:
                        rest = (p - atom_poly(a).scale(c.const())).scale(-c.const())
                        if m: rest = subst(rest, m)
                        if a in rest.fv(): continue
                        m = {k: subst(v, {a: rest}) for k, v in m.items()}
                        m[a] = rest
                        break
    return m

def is_zero(it, d, depth=0, maxdepth=9):
    """True when d == 0 is proved under it.facts"""
    it.tick()
    if not d.d: return True
    if depth > maxdepth + 6: return False
    m = eq_subst(it)
    if m:
        d2 = subst(d, m)
        if not d2.d: return True
        d = d2
    # decide indicators
    for a in sorted(deep_inds(d), key=lambda a: a.id):
        f = a.a[0]
        r = it.decide(f)
        if r is not None:
            return is_zero(it, subst(d, {a: ONE if r else ZERO}), depth, maxdepth)
    tops = top_inds(d)
    if tops or deep_inds(d):
        if depth >= maxdepth: return False
        a = (tops or sorted(deep_inds(d), key=lambda a: a.id))[0]
        f = a.a[0]
        for v, g in ((ONE, f), (ZERO, Not(f))):
            n = len(it.facts)
            it.assume(g)
            try:
                if it.unsat(): ok = True
                else: ok = is_zero(it, subst(d, {a: v}), depth + 1, maxdepth)
            finally: del it.facts[n:]
            if not ok: return False
        return True
    # empty / shifted sums
    sums = [a for a in d.atoms() if a.kind == 'sum']
    if sums:
        r = sum_rules(it, d, sums, depth, maxdepth)
        if r is not None: return r
    # inverses
    if any(a.kind == 'fn' and a.a[0] == 'inv' for a in d.atoms()):
        p, dens = clear_inv(d)
        if not p.d: return True
        if len(p.d) < 4000 and p != d:
            if is_zero(it, p, depth + 1, maxdepth): return True
    # max/min/abs case split
    for a in d.atoms():
        if a.kind == 'fn' and a.a[0] in ('max', 'min') and depth < maxdepth:
            x, y = a.a[1]
            for g, v in ((le(x, y), y if a.a[0] == 'max' else x), (gt(x, y), x if a.a[0] == 'max' else y)):
                n = len(it.facts); it.assume(g)
                try: ok = it.unsat() or is_zero(it, subst(d, {a: v}), depth + 1, maxdepth)
                finally: del it.facts[n:]
                if not ok: return False
            return True
    # reads at provably equal positions
    d2 = merge_reads(it, d)
    if d2 is not None: return is_zero(it, d2, depth + 1, maxdepth)
    if len(d.d) <= 60:
        return it.prove(eq0(d), 4000) == 'proved'
    return False

def merge_reads(it, d):
    reads = {}
    for a in d.atoms():
        if a.kind == 'read': reads.setdefault((a.a[0], len(a.a[1])), []).append(a)
    for g in reads.values():
        if len(g) > 30: continue
        for i in range(len(g)):
            for j in range(i):
                if it.decide(And(*[eq(x, y) for x, y in zip(g[i].a[1], g[j].a[1])])) is True:
                    return subst(d, {g[i]: atom_poly(g[j])})
    return None

def expand_sum(a, extra_last=False):
    pass

def sum_rules(it, d, sums, depth, maxdepth):
    # 1. drop provably empty sums, 2. align ranges, 3. compare bodies
    for a in sums:
        bv, lo, hi, body = a.a
        if it.decide(le(hi, lo)) is True: return is_zero(it, subst(d, {a: ZERO}), depth, maxdepth)
    # single-element sums
    for a in sums:
        bv, lo, hi, body = a.a
        if it.decide(eq(hi, lo + 1)) is True:
            return is_zero(it, subst(d, {a: subst(body, {bv: lo})}), depth, maxdepth)
    # linear combination of sums with equal ranges
    groups = []
    lin = True
    for m, c in d.d.items():
        k = sum(e for aid, e in m if T._alist[aid].kind == 'sum')
        if k > 1: lin = False
    rng = []
    for a in sums:
        for g in rng:
            if it.decide(And(eq(a.a[1], g[0]), eq(a.a[2], g[1]))) is True: g[2].append(a); break
        else: rng.append([a.a[1], a.a[2], [a]])
    if lin:
        # combine each group under one sum and look at the body
        rest = d
        total = []
        for lo, hi, ats in rng:
            x = fresh('x', 'int')
            body = ZERO
            for a in ats:
                co = lincoef_any(rest, a)
                rest = rest - atom_poly(a) * co
                body = body + co * subst(a.a[3], {a.a[0]: x})
            total.append((x, lo, hi, body))
        if not rest.d or is_zero_quiet(it, rest, depth, maxdepth):
            ok = True
            for x, lo, hi, body in total:
                n = len(it.facts); it.assume(le(lo, x)); it.assume(lt(x, hi))
                try: ok = is_zero(it, body, depth + 1, maxdepth)
                finally: del it.facts[n:]
                if not ok: break
            if ok: return True
    # split off first/last element when two ranges differ by a constant
    for i in range(len(rng)):
        for j in range(len(rng)):
            if i == j: continue
            lo1, hi1, a1 = rng[i]; lo2, hi2, a2 = rng[j]
            dh = hi1 - hi2; dl = lo1 - lo2
            if it.decide(eq(dl, 0)) is True and (dh.const() or 0) in (1, 2, 3) and it.decide(le(lo1, hi2)) is True:
                m = {}
                for a in a1:
                    bv, lo, hi, body = a.a
                    x = fresh('x', 'int')
                    m[a] = Sum(x, lo, hi - 1, subst(body, {bv: x})) + subst(body, {bv: hi - 1})
                return is_zero(it, subst(d, m), depth + 1, maxdepth)
            if it.decide(eq(dh, 0)) is True and -(dl.const() or 0) in (1, 2, 3) and it.decide(le(lo2, hi1)) is True:
                m = {}
                for a in a1:
                    bv, lo, hi, body = a.a
                    x = fresh('x', 'int')
                    m[a] = Sum(x, lo + 1, hi, subst(body, {bv: x})) + subst(body, {bv: lo})
                return is_zero(it, subst(d, m), depth + 1, maxdepth)
            if it.decide(eq(dh, dl)) is True and dh.d:   # same length, shifted
                m = {}
                for a in a1:
                    bv, lo, hi, body = a.a
                    x = fresh('x', 'int')
                    m[a] = Sum(x, lo - dl, hi - dh, subst(body, {bv: x + dl}))
                return is_zero(it, subst(d, m), depth + 1, maxdepth)
    return None

def is_zero_quiet(it, d, depth, maxdepth):
    return is_zero(it, d, depth + 1, maxdepth)

def lincoef_any(p, a):
    c = {}
    for m, v in p.d.items():
        for aid, e in m:
            if aid == a.id and e == 1: c[tuple(x for x in m if x[0] != aid)] = v
    return Poly(c)
