"""Table-driven element contracts: one declarative entry per element function gives (a) the proof obligation over the real code
(symbolic or at generic points) and (b) a replay of the same contract on the compiled code with floating point inputs."""
from weak import *
FDIM = {'FV': 'v', 'FS': 's', 'FR': 'r'}
class Env: pass

def field_sym(kind):
    if kind == 'FV': return lambda *x: [fn('field%d' % i, tuple(P(v) for v in x)) for i in range(len(x))]
    if kind == 'FS': return lambda *x: fn('sfield', tuple(P(v) for v in x))
    return lambda *x: fn('reaction', tuple(P(v) for v in x))
def field_flt(kind):
    def val(i, xs): return math.sin(1.0 + i + sum((k + 1) * v for k, v in enumerate(xs)))
    if kind == 'FV': return lambda *x: [val(i, x) for i in range(len(x))]
    return lambda *x: val(0, x)

class Entry:
    """args: list of kinds: 'K','F' outputs; 'M','M2' maps; 'E','E2' element; 'D' dof list; ('x',dim)/('u',dim,name) nodal fields; 'r' scalar; 'FV','FS','FR'; ('A',r,c)"""
    def __init__(self, fnm, tm, args, spec, nd, slots, mode='gf', sf=1, maps=None, sym=False, order=False, zero=(), scal=False, nn=None, pairs=(), ret=False, tol=None, small_u=False):
        self.order, self.zero, self.nn, self.pairs, self.ret, self.tol, self.small_u = order, zero, nn, tuple(pairs), ret, tol, small_u
        self.fnm, self.tm, self.args, self.spec, self.nd, self.mode, self.sf, self.slots, self.sym, self.scal = fnm, tm, args, spec, nd, mode, sf, slots, sym, scal

def tables(c, e):
    """per quadrature point: list over shape families of (N, dN), weight, point"""
    Qr = e.tm[e.sf]; tabs = [gtab(c, S, Qr) for S in e.tm[:e.sf]]
    return [([(t[g][0], t[g][1]) for t in tabs], tabs[0][g][2], tabs[0][g][3]) for g in range(len(tabs[0]))]

class MixEl:
    """element argument sets shared by both element arrays of a mixed element"""
    def __init__(self, c, ns, nd, mode):
        self.c = c; self.mode = mode; self.ns = ns
        self.dou = [var('dou%d' % i, 'int') for i in range(nd)]; self.doulist = ArrC(self.dou, 'int')
        if mode == 'gf':
            NX = sum(ns) + 3; ids = list(range(NX)); c.grnd.shuffle(ids); self.NX = NX
            self.e = [ids[:ns[0]]] + [[c.grnd.choice(ids) for _ in range(0)] + ids[ns[0]:ns[0] + n] for n in ns[1:]]
            self.elements = [ArrC([P(i) for i in e], 'int') for e in self.e]
        else:
            self.NX = var('nodes', 'int'); c.it.assume(ge(self.NX, 1))
            self.e = [[var('e%d_%d' % (k, i), 'int') for i in range(n)] for k, n in enumerate(ns)]
            for r in self.e:
                for e in r: c.it.assume(And(le(0, e), lt(e, self.NX)))
            self.elements = [ArrC(r, 'int') for r in self.e]
    def nodal(self, name, dim, zero=False):
        """returns (argument, [values at the nodes of element k])"""
        c = self.c
        if self.mode == 'gf':
            tab = [[ZERO if zero else c.gen() if name == 'x' else c.gen(True) for _ in range(dim)] for _ in range(self.NX)]
            a = ArrC([Obj('Vector<double>', {'size': P(dim), 'values': ArrC(r, 'double')}) for r in tab], VT)
            return a, [[tab[i] for i in e] for e in self.e]
        b = LeafArr(('sym', name), (), 'real')
        sz = const_leaf(name + '.size', dim, self.NX); ln = const_leaf(name + '.len', dim, self.NX)
        a = ArrS(self.NX, BObj('Vector<double>', {'size': sz, 'values': BArr(ln, b, 'double')}), (), VT)
        return a, [[[vget(aelem(a, i), k) for k in range(dim)] for i in e] for e in self.e]

def contract(R, TU, e, seeds, timeout=400):
    def body(c):
        tabs = tables(c, e); ns = [len(tabs[0][0][k][0]) for k in range(e.sf)]
        el = MixEl(c, ns, e.nd, e.mode); env = Env(); env.ns = ns; env.tab = tabs; env.p = []; env.f = None; env.A = None
        call = []; outs = {}; g = (lambda nm: c.gen()) if e.mode == 'gf' else (lambda nm: var(nm))
        for k, a in enumerate(e.args):
            if a == 'K': outs['K'] = k; call.append(El.K0(None))
            elif a == 'F': outs['F'] = k; call.append(El.F0(None))
            elif a in ('M', 'M2'): outs[a] = k; call.append(El.M0(None))
            elif a in ('E', 'E2'): call.append(el.elements[0 if a == 'E' else 1])
            elif a == 'D': call.append(el.doulist)
            elif a == 'r': v = g('p%d' % len(env.p)); v = v.scale(Q(1, 32)) if e.order and c.sizes['seed'] // 100000 % 2 == 0 and len(env.p) == e.args.count('r') - 1 else v; env.p.append(v); call.append(v)
            elif a in FDIM: env.f = field_sym(a); call.append(Obj(a, {}))
            elif a[0] == 'A':
                env.A = [[g('A%d%d' % (i, j)) for j in range(a[2])] for i in range(a[1])]
                call.append(Obj('Matrix<double>', {'row': P(a[1]), 'col': P(a[2]), 'values': ArrC([x for r in env.A for x in r], 'double')}))
            else:
                arg, vals = el.nodal(a[0], a[1], a[0] in e.zero); setattr(env, a[0], vals); call.append(arg)
        r = c.call(e.fnm, call, pick=mang(*e.tm))
        sp = e.spec(GEN if e.mode == 'gf' else SYM, env)
        if e.scal: c.ensure_eq('value', r, sp['S'])
        args = list(c.args)
        if e.slots: e.slots(c, [c.it.get(args[outs[m]]) for m in ('M', 'M2') if m in outs], el.dou, ns)
        if 'K' in sp: check_mat(c, c.it.get(args[outs['K']]), [[P(x) for x in r] for r in sp['K']])
        if 'F' in sp: check_vec(c, c.it.get(args[outs['F']]), [P(x) for x in sp['F']])
        if 'extra' in sp: sp['extra'](c, {k: c.it.get(args[v]) for k, v in outs.items()})
        if e.sym: check_sym(c, c.it.get(args[outs['K']]))
    R.contract('%s<%s>%s' % (e.fnm, ','.join(e.tm), ' zero ' + ','.join(e.zero) if e.zero else ''), TU, body, seeds if e.mode == 'gf' else [{}], sym=False, contracts=GCON if e.mode == 'gf' else CON, timeout=timeout)

# ---- replay on the compiled code --------------------------------------------------------
def gen_driver(entries, includes, n):
    src = ['#include "vdrv.h"', '#include "fe.h"'] + ['#include "%s"' % i for i in includes] + ['#include <random>', '#include <algorithm>', '''
struct FVc { V_ operator()(V_ x) { V_ r(x.SIZE()); for (int i = 0; i < x.SIZE(); i++) { double s = 1.0 + i; for (int k = 0; k < x.SIZE(); k++) s += (k + 1)*x(k); r(i) = sin(s); } return r; } };
struct FSc { double operator()(V_ x) { double s = 1.0; for (int k = 0; k < x.SIZE(); k++) s += (k + 1)*x(k); return sin(s); } };
struct FRc { double operator()(double u, V_ g) { double s = 1.0 + u; for (int k = 0; k < g.SIZE(); k++) s += (k + 2)*g(k); return sin(s); } };
std::mt19937 rng; double U(double a, double b) { return std::uniform_real_distribution<double>(a, b)(rng); }
void pm(const char* k, M_ A) { printf("%s %d", k, A.ROW()*A.COL() + 2); printf(" %d %d", A.ROW(), A.COL()); for (int i = 0; i < A.ROW(); i++) for (int j = 0; j < A.COL(); j++) printf(" %.17g", A(i, j)); printf("\\n"); }
void pv(const char* k, V_ A) { printf("%s %d", k, A.SIZE()); for (int i = 0; i < A.SIZE(); i++) printf(" %.17g", A(i)); printf("\\n"); }
void px(const char* k, X_& x) { int n = 0; for (auto& v : x) n += v.SIZE(); printf("%s %d", k, n); for (auto& v : x) for (int i = 0; i < v.SIZE(); i++) printf(" %.17g", v(i)); printf("\\n"); }
void pi(const char* k, const std::vector<int>& v) { printf("%s %zu", k, v.size()); for (int i : v) printf(" %d", i); printf("\\n"); }
void pmap(const char* k, Map_& m) { int n = 0; for (auto& r : m) n += 2*r.size() + 1; printf("%s %d", k, n); for (auto& r : m) { printf(" %zu", r.size()); for (auto& p : r) printf(" %d %d", p.first, p.second); } printf("\\n"); }
template<template<class> class S> V_ node(int i) { return S<double>::Points[i]; }
std::vector<int> ids(int n) { std::vector<int> v(n); for (int i = 0; i < n; i++) v[i] = i; std::shuffle(v.begin(), v.end(), rng); return v; }
''', 'int main(int argc, char** argv) { rng.seed(atoi(argv[1])); int reps = atoi(argv[2]);']
    for idx, e in enumerate(entries):
        S = e.tm[:e.sf]; b = ['for (int rep = 0; rep < reps; rep++) {']
        if e.nn: S = (); b.append('int n0 = %d;' % e.nn)
        for k, s in enumerate(S): b.append('const int n%d = %s<double>::N(%s<double>::Points[0]).SIZE();' % (k, s, e.tm[e.sf]) if False else 'int n%d = %s<double>::Points.size();' % (k, s))
        b.append('static const double SC_[] = {1, 1, 1, 10, 0.01, 100, 1e-4, 1e4}; double sc = SC_[rep%%8], su = SC_[(rep/2 + rep)%%8]; int NX = %s + 3; auto id = ids(NX); std::vector<int> e0(id.begin(), id.begin() + n0);' % ' + '.join('n%d' % k for k in range(max(1, len(S)))))
        if len(S) > 1: b.append('std::vector<int> e1(id.begin() + n0, id.begin() + n0 + n1); pi("e1", e1);' if False else 'std::vector<int> e1(id.begin() + n0, id.begin() + n0 + n1);')
        b.append('std::vector<int> dl; { auto q = ids(%d); for (int i = 0; i < %d; i++) dl.push_back(q[i]); }' % (e.nd + 2, e.nd))
        b.append('M_ K; V_ F; Map_ m0, m1; printf("case %d\\n"); pi("e0", e0); pi("dl", dl);' % idx)
        if len(S) > 1: b.append('pi("e1", e1);')
        call = []; np_ = 0
        for a in e.args:
            if a == 'K': call.append('K')
            elif a == 'F': call.append('F')
            elif a in ('M', 'M2'): call.append('m0' if a == 'M' else 'm1')
            elif a in ('E', 'E2'): call.append('e0' if a == 'E' else 'e1')
            elif a == 'D': call.append('dl')
            elif a == 'r': b.append('double p%d = U(0.1, 0.45)*sc; printf("p%d 1 %%.17g\\n", p%d);' % (np_, np_, np_)); call.append('p%d' % np_); np_ += 1
            elif a in FDIM: call.append(a + 'c()')
            elif a[0] == 'A': b.append('M_ A(%d, %d); for (int i = 0; i < %d; i++) for (int j = 0; j < %d; j++) A(i, j) = U(-1, 1); pm("A", A);' % (a[1], a[2], a[1], a[2])); call.append('A')
            elif a[0] == 'x':
                b.append('X_ x(NX, V_(%d)); for (auto& v : x) for (int k = 0; k < %d; k++) v(k) = U(-1, 1);' % (a[1], a[1]))
                for k, s in enumerate(S):
                    b.append('for (int i = 0; i < n%d; i++) { V_ r = node<%s>(i); for (int k = 0; k < %d; k++) x[e%d[i]](k) = (k < r.SIZE() ? r(k)*(0.8 + 0.3*k) : 0.0) + U(-0.12, 0.12); }' % (k, s, a[1], k))
                b.append('px("x", x);'); call.append('x')
            else:
                b.append('X_ %s(NX, V_(%d)); for (auto& v : %s) for (int k = 0; k < %d; k++) v(k) = %s; px("%s", %s);' % (a[0], a[1], a[0], a[1], '0.0' if a[0] in e.zero else 'U(-0.06, 0.06)' if e.small_u else 'U(-0.3, 0.3)*su', a[0], a[0])); call.append(a[0])
        fnm = '%s<%s%s>' % (e.fnm, ', '.join(('double',) + tuple(e.tm)), ''.join(', %sc' % a for a in e.args if a in FDIM))
        b.append('fflush(stdout);')
        cl = '%s(%s)' % (fnm, ', '.join(call))
        if e.ret: b.append('K = %s;' % cl)
        elif e.scal: b.append('double s = %s; printf("S 1 %%.17g\\n", s);' % cl)
        else: b.append(cl + ';')
        if 'K' in e.args or e.ret: b.append('pm("K", K);')
        if 'F' in e.args: b.append('pv("F", F);')
        if 'M' in e.args: b.append('pmap("m0", m0);')
        if 'M2' in e.args: b.append('pmap("m1", m1);')
        b.append('puts("end"); }'); src += b
    src.append('return 0; }')
    return '\n'.join(src)

def flt_tables(e, T_):
    return T_[tuple(e.tm)]
def replay(R, entries, includes, reps=8, tol=1e-9):
    """run the contracts on compiled code; T_ (shape function tables) comes from the code itself through a driver"""
    tabsrc = ['#include "vdrv.h"', '#include "fe.h"', 'template<template<class> class S, template<class> class Q> void t(const char* nm) { printf("case %s\\n", nm); for (int g = 0; g < Q<double>::N; g++) { V_ p = Q<double>::Points[g]; double w = 1; for (double v : Q<double>::Weights[g]) w *= v; V_ N = S<double>::N(p); M_ D = S<double>::dNdr(p);',
              'printf("g%d %d %d %d %.17g", g, 0, N.SIZE(), D.ROW(), w); for (int k = 0; k < p.SIZE(); k++) printf(" %.17g", p(k)); for (int i = 0; i < N.SIZE(); i++) printf(" %.17g", N(i)); for (int k = 0; k < D.ROW(); k++) for (int i = 0; i < N.SIZE(); i++) printf(" %.17g", D(k, i)); puts(""); } puts("end"); }', 'int main() {']
    pairs = sorted({(S, e.tm[e.sf]) for e in entries if not e.nn for S in e.tm[:e.sf]} | {q for e in entries for q in e.pairs})
    for S, q in pairs:
        if q == 'Nodes': tabsrc.append('printf("case %s/Nodes\\n"); for (int g = 0; g < (int)%s<double>::Points.size(); g++) { V_ p = %s<double>::Points[g]; V_ N = %s<double>::N(p); M_ D = %s<double>::dNdr(p); printf("g%%d %%d %%d %%d %%.17g", g, 0, N.SIZE(), D.ROW(), 1.0); for (int k = 0; k < p.SIZE(); k++) printf(" %%.17g", p(k)); for (int i = 0; i < N.SIZE(); i++) printf(" %%.17g", N(i)); for (int k = 0; k < D.ROW(); k++) for (int i = 0; i < N.SIZE(); i++) printf(" %%.17g", D(k, i)); puts(""); } puts("end");' % (S, S, S, S, S))
        else: tabsrc.append('t<%s, %s>("%s/%s");' % (S, q, S, q))
    tabsrc.append('}')
    rc, out, err = R.driver_src('\n'.join(tabsrc))
    if rc is None: R.violate('build', 'build', 'the shape function table driver no longer compiles: ' + err[:600]); return
    T_ = {}
    for case in parse_cases(out)[0]:
        t = []
        for g in range(len(case) - 1):
            v = case['g%d' % g]; n, d, w = int(v[0]), int(v[1]), v[2]; p = v[3:3 + d]; N = v[3 + d:3 + d + n]; D = [v[3 + d + n + k * n:3 + d + n + (k + 1) * n] for k in range(d)]
            t.append((N, D, w, p))
        T_[case['_name']] = t
    rc, out, err = R.driver_src(gen_driver(entries, includes, 0), [R.seed, reps if R.tier == 'quick' else reps * 10])
    if rc is None: R.violate('build', 'build', 'the element driver no longer compiles: ' + err[:600]); return
    cases, cur = parse_cases(out)
    if rc != 0: R.violate('execution', 'crash', 'driver exited with %s in %s: %s' % (rc, cur and entries[int(cur['_name'])].fnm, err[-300:]), inp=cur or {})
    seen = set()
    for k in cases:
        e = entries[int(k['_name'])]
        if e.fnm in seen: continue
        bad = replay_case(e, k, T_, tol); R.cases += 1
        if bad: seen.add(e.fnm); R.violate('%s<%s>' % (e.fnm, ','.join(e.tm)), 'execution', bad, inp={'function': e.fnm, 'templates': e.tm, 'case': {q: v for q, v in k.items() if q not in ('K', 'F', 'm0', 'm1')}})
def replay_case(e, k, T_, tol):
    env = Env(); tol = e.tol or tol
    if e.nn: env.ns = [e.nn]
    else:
        tabs = [T_['%s/%s' % (S, e.tm[e.sf])] for S in e.tm[:e.sf]]
        env.tab = [([(t[g][0], t[g][1]) for t in tabs], tabs[0][g][2], tabs[0][g][3]) for g in range(len(tabs[0]))]
        env.ns = [len(t[0][0]) for t in tabs]
    env.T = {q: T_['%s/%s' % q] for q in e.pairs}
    env.p = []; env.f = None; env.A = None; np_ = 0
    els = [[int(v) for v in k['e%d' % q]] for q in range(1 if e.nn else e.sf)]
    for a in e.args:
        if a == 'r': env.p.append(k['p%d' % np_][0]); np_ += 1
        elif a in FDIM: env.f = field_flt(a)
        elif isinstance(a, tuple) and a[0] == 'A': r, c_ = int(k['A'][0]), int(k['A'][1]); env.A = [k['A'][2 + i * c_:2 + (i + 1) * c_] for i in range(r)]
        elif isinstance(a, tuple): setattr(env, a[0], [[k[a[0]][a[1] * i:a[1] * (i + 1)] for i in el] for el in els])
    sp = e.spec(FLT, env)
    def close(got, want, lab):
        if len(got) != len(want): return '%s has %d entries, expected %d' % (lab, len(got), len(want))
        sc = max([abs(w) for w in want] + [1e-8])
        for i, (a, b) in enumerate(zip(got, want)):
            if not abs(a - b) <= tol * sc * 100: return '%s entry %d is %.15g, the weak form gives %.15g' % (lab, i, a, b)
    if e.scal:
        bad = close(k['S'], [sp['S']], 'value')
        if bad: return bad
    if 'K' in sp:
        K = sp['K']
        if [int(v) for v in k['K'][:2]] != [len(K), len(K[0])]: return 'element matrix is %s, expected %dx%d' % (k['K'][:2], len(K), len(K[0]))
        bad = close(k['K'][2:], [v for r in K for v in r], 'element matrix')
        if bad: return bad
        if e.sym:
            bad = close(k['K'][2:], [K_ for r in zip(*[k['K'][2 + i * len(K):2 + (i + 1) * len(K)] for i in range(len(K))]) for K_ in r], 'element matrix (symmetry)')
            if bad: return bad
    if 'F' in sp:
        bad = close(k['F'], sp['F'], 'element vector')
        if bad: return bad
    dl = [int(v) for v in k['dl']]
    if e.slots:
        want = e.slots(None, None, dl, env.ns)
        for m, w in zip(('m0', 'm1'), want):
            got = [int(v) for v in k[m]]; exp = [v for row in w for v in [len(row)] + [z for p in row for z in p]]
            if got != exp: return 'node to element map is %s, expected %s' % (got, exp)

# dof numberings
def slots_std(c, maps, dou, ns):
    """dof j of node i in row nd*i+j"""
    nd = len(dou)
    if c is None: return [[[(dou[j], nd * i + j) for j in range(nd)] for i in range(ns[0])]]
    check_map(c, maps[0], dou, ns[0], lambda i, j: nd * i + j)
def slots_blk(c, maps, dou, ns):
    """velocity components in consecutive blocks"""
    if c is None: return [[[(dou[j], ns[0] * j + i) for j in range(len(dou))] for i in range(ns[0])]]
    check_map(c, maps[0], dou, ns[0], lambda i, j: ns[0] * j + i)
def slots_mix(c, maps, dou, ns):
    if c is None: return [[[(dou[j], ns[0] * j + i) for j in range(2)] for i in range(ns[0])], [[(dou[2], 2 * ns[0] + i)] for i in range(ns[1])]]
    check_map(c, maps[0], dou[:2], ns[0], lambda i, j: ns[0] * j + i, 'velocity map'); check_map(c, maps[1], dou[2:], ns[1], lambda i, j: 2 * ns[0] + i, 'pressure map')
