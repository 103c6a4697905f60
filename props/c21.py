from vc import *
import streams
from streams import TextV, TStr, InV, Lib, same_text
import interp as I
TITLE = 'model files'
TU = 'io.cpp'
NL = '\n'
num = lambda p, s='real': ('num', P(p), s)
def words(*xs):
    """specification text: blanks between the parts"""
    out = []
    for x in xs:
        if x == NL: out.append(NL)
        elif isinstance(x, tuple) and x and x[0] == 'reps': out.append(x[1])
        else: out += [x if isinstance(x, str) else num(x, 'int') if isinstance(x, int) else x, ' ']
    return tuple(out)
def rep(c, n, f):
    j = fresh('j', 'int'); return ('reps', ('rep', j.as_atom(), P(n), words(*f(j))))

def lib(c, files=None): c.it.lib = Lib(files or {}); return c.it.lib
def out(c): lib(c); return c.it.new_root(TextV(('start' + NL,)), 'fout')
START = ('start', NL)
def vecs(c, n, d, nm):
    it = c.it; return ArrS(P(n), BObj('Vector<double>', {'size': LeafArr(('const', P(d)), (), 'int'), 'values': BArr(LeafArr(('const', P(d)), (), 'int'), it.bundle_for('double', nm), 'double')}), (), ('cls', 'Vector<double>'))
def ragged(c, n, nm):
    c.it.axioms[nm + '.len'] = lambda i: [le(0, read(nm + '.len', (i,), 'int'))]
    return c.it.sym_array(n, ('vec', 'int'), nm)

plain = lambda f: 'Vector<' not in f['type']['qualType'].split(',')[0]
def sec(name, nm, n, head, kind='POINT_DATA'):
    return ((kind, num(n, 'int'), NL) if head else ()) + (name, nm, 'float', NL)

def exports(R):
    def header(c):
        o = out(c); c.call('MakeHeadderToVTK', [o])
        same_text(c, 'header', c.it.get(o), words(*START, '#', 'vtk', 'DataFile', 'Version', '4.1', NL, 'vtk', 'output', NL, 'ASCII', NL, 'DATASET', 'UNSTRUCTURED_GRID', NL))
    R.contract('header of a result file', TU, header, [])
    for d in (1, 2, 3):
        def points(c, d=d):
            o = out(c); n = c.int('n', 0); x = vecs(c, n, d, 'x')
            c.call('AddPointsToVTK', [x, o])
            row = lambda i: [num(read('x', (i, P(k)))) if k < d else '0' for k in range(3)] + [NL]
            same_text(c, 'points', c.it.get(o), words(*START, 'POINTS', num(n, 'int'), 'float', NL, rep(c, n, row)))
        R.contract('points of a result file, %d components' % d, TU, points, [dict(n=k) for k in (0, 1, 2)])
        for h in (True, False):
            def vectors(c, d=d, h=h):
                o = out(c); n = c.int('n', 0); x = vecs(c, n, d, 'x')
                c.call('AddPointVectors', [x, TStr('disp'), o, TRUE if h else FALSE])
                row = lambda i: [num(read('x', (i, P(k)))) if k < d else '0' for k in range(3)] + [NL]
                same_text(c, 'vectors', c.it.get(o), words(*START, *sec('VECTORS', 'disp', n, h), rep(c, n, row)))
            R.contract('point vectors, %d components%s' % (d, '' if h else ', further field'), TU, vectors, [dict(n=k) for k in (0, 1, 2)])
    def cells(c):
        o = out(c); n = c.int('n', 0); e = ragged(c, n, 'e')
        c.call('AddElementToVTK', [e, o])
        L = lambda i: read('e.len', (i,), 'int'); j = fresh('j', 'int')
        row = lambda i: [num(L(i), 'int'), rep(c, L(i), lambda k: [num(read('e.el', (i, k), 'int'), 'int')]), NL]
        same_text(c, 'cells', c.it.get(o), words(*START, 'CELLS', num(n, 'int'), num(Sum(j, ZERO, n, L(j) + 1), 'int'), NL, rep(c, n, row)))
    R.contract('cells of a result file', TU, cells, [dict(n=k) for k in (0, 1, 2)])
    def types(c):
        o = out(c); n = c.int('n', 0); t = c.arr(n, 'int', 't')
        c.call('AddElementTypes', [t, o])
        same_text(c, 'cell types', c.it.get(o), words(*START, 'CELL_TYPES', num(n, 'int'), NL, rep(c, n, lambda i: [num(read('t', (i,), 'int'), 'int'), NL])))
    R.contract('cell types of a result file', TU, types, [dict(n=k) for k in (0, 1, 2)])
    for fn_, kind in (('AddPointScalers', 'POINT_DATA'), ('AddElementScalers', 'CELL_DATA')):
        for h in (True, False):
            def scalars(c, fn_=fn_, kind=kind, h=h):
                o = out(c); n = c.int('n', 0); s = c.arr(n, 'double', 's')
                c.call(fn_, [s, TStr('rho'), o, TRUE if h else FALSE], pick=plain)
                same_text(c, 'scalars', c.it.get(o), words(*START, *sec('SCALARS', 'rho', n, h, kind), 'LOOKUP_TABLE', 'default', NL, rep(c, n, lambda i: [num(read('s', (i,))), NL])))
            R.contract('%s scalars%s' % ('point' if 'Point' in fn_ else 'element', '' if h else ', further field'), TU, scalars, [dict(n=k) for k in (0, 1, 2)])
    for h in (True, False):
        def scalars1(c, h=h):
            o = out(c); n = c.int('n', 0); x = vecs(c, n, 1, 'x')
            c.call('AddPointScalers', [x, TStr('T'), o, TRUE if h else FALSE], pick=lambda f: not plain(f))
            same_text(c, 'scalars', c.it.get(o), words(*START, *sec('SCALARS', 'T', n, h), 'LOOKUP_TABLE', 'default', NL, rep(c, n, lambda i: [num(read('x', (i, ZERO))), NL])))
        R.contract('point scalars given as one component vectors%s' % ('' if h else ', further field'), TU, scalars1, [dict(n=k) for k in (0, 1, 2)])

# ---- reading: the file is any text of the listed shape, its numbers are arbitrary --------------------------
def sv(c, nm): return num(var(nm))
def iv(c, nm): return num(var(nm, 'int'), 'int')
def csv(head, rows, tail=NL):
    out = [head, NL]
    for k, r in enumerate(rows):
        for j, x in enumerate(r): out += ([','] if j else []) + [x]
        out.append(NL if k < len(rows) - 1 else tail)
    return tuple(out)
def empty(et): return ArrC((), et)
VD = ('cls', 'Vector<double>')
def same(c, label, got, want):
    """an array value with its structure: lists, numbers, pairs"""
    if isinstance(want, list):
        c.ensure_eq(label + ' length', got.n, P(len(want)))
        if P(got.n).const() != len(want): return
        for i, w in enumerate(want): same(c, '%s[%d]' % (label, i), aelem(got, P(i)), w)
    elif isinstance(want, tuple) and len(want) == 2 and want[0] == 'vec':
        c.ensure_eq(label + ' components', got.f['size'], P(len(want[1])))
        if got.f['size'].const() == len(want[1]):
            for i, w in enumerate(want[1]): c.ensure_eq('%s(%d)' % (label, i), scal(aelem(got.f['values'], P(i))), w)
    elif isinstance(want, tuple) and len(want) == 2 and want[0] == 'pair':
        same(c, label + '.first', got.f['first'], want[1][0]); same(c, label + '.second', got.f['second'], want[1][1])
    else: c.ensure_eq(label, scal(got), want)
def val(x): return x[1] if isinstance(x, tuple) else P(x) if isinstance(x, int) else P(Q(x))
def pair(a, b): return ('pair', (a, b))
PI = ('pair', 'int', 'int'); PD = ('pair', PI, 'double')

def reading(c, fname, et, text, want, init=None):
    lib(c, {'f': text})
    o = c.it.new_root(empty(et) if init is None else init, 'out')
    r = c.call(fname, [o, TStr('f')])
    c.ok('the file is reported as read', c.it.decide(r) is True, 'evaluation', 'returns false')
    same(c, 'read', c.it.get(o), want)
def missing(c, fname, et, init=None):
    lib(c, {})
    o = c.it.new_root(empty(et) if init is None else init, 'out')
    r = c.call(fname, [o, TStr('f')])
    c.ok('a missing file is reported', c.it.decide(r) is False, 'evaluation', 'returns true')
    c.ensure_eq('nothing is read from a missing file', c.it.get(o).n, P(0))

def imports_csv(R, shapes):
    S = lambda name, body: R.contract(name, TU, lambda c: body(c), [dict(n=0)], sym=False)
    head = 'id,values'
    for N, tail in shapes:
        tl = {0: '', 1: NL, 2: NL + NL, 3: '  ' + NL}[tail]
        lab = '%d rows, ending %d' % (N, tail)
        def nodes(c, d):
            rows = [[iv(c, 'id%d' % i)] + [sv(c, 'x%d_%d' % (i, k)) for k in range(d)] for i in range(N)]
            reading(c, 'ImportNodesFromCSV', VD, csv(head, rows, tl), [('vec', [val(x) for x in r[1:]]) for r in rows])
        for d in (1, 2, 3): S('nodes from a table, %d components, %s' % (d, lab), lambda c, d=d, f=nodes: f(c, d))
        def elements(c):
            rows = [[iv(c, 'id%d' % i)] + [iv(c, 'e%d_%d' % (i, k)) for k in range((3, 4, 2, 8)[i % 4])] for i in range(N)]
            reading(c, 'ImportElementsFromCSV', ('vec', 'int'), csv(head, rows, tl), [[val(x) for x in r[1:]] for r in rows])
        S('elements from a table, ' + lab, lambda c, f=elements: f(c))
        def cond(c, fname, pat):
            rows = [[iv(c, 'id%d' % i)] + ['free' if (pat >> (i * 2 + k)) & 1 else sv(c, 'u%d_%d' % (i, k)) for k in range(2)] for i in range(N)]
            want = [pair(pair(val(r[0]), P(k)), val(x)) for r in rows for k, x in enumerate(r[1:]) if x != 'free']
            reading(c, fname, PD, csv(head, rows, tl), want)
        for fname in ('ImportDirichletFromCSV', 'ImportNeumannFromCSV'):
            for pat in (0, 1, 2, 6, 9, 15) if N else (0,):
                S('%s conditions from a table, pattern %d, %s' % (fname[6:-7], pat, lab), lambda c, a=fname, p=pat, f=cond: f(c, a, p))
        def periodic(c):
            rows = [[iv(c, 'm%d' % i), iv(c, 's%d' % i)] for i in range(N)]
            reading(c, 'ImportPeriodicFromCSV', PI, csv(head, rows, tl), [pair(val(a), val(b)) for a, b in rows])
        S('periodic pairs from a table, ' + lab, lambda c, f=periodic: f(c))
        def initial(c, pat):
            ids = [(2, 0, 3, 1)[i] for i in range(N)]
            u0 = [[var('v%d_%d' % (i, k)) for k in range(2)] for i in range(4)]
            rows = [[str(ids[i])] + ['free' if (pat >> (i * 2 + k)) & 1 else sv(c, 'u%d_%d' % (i, k)) for k in range(2)] for i in range(N)]
            want = [list(r) for r in u0]
            for r in rows:
                for k, x in enumerate(r[1:]):
                    if x != 'free': want[int(r[0])][k] = val(x)
            init = ArrC([Obj('Vector<double>', {'size': P(2), 'values': ArrC(r, 'double')}) for r in u0], VD)
            reading(c, 'ImportInitialFromCSV', VD, csv(head, rows, tl), [('vec', w) for w in want], init)
        for pat in (0, 1, 6, 9, 15) if N else (0,): S('initial values from a table, pattern %d, %s' % (pat, lab), lambda c, p=pat, f=initial: f(c, p))
    for fname, et in (('ImportNodesFromCSV', VD), ('ImportElementsFromCSV', ('vec', 'int')), ('ImportDirichletFromCSV', PD), ('ImportNeumannFromCSV', PD), ('ImportPeriodicFromCSV', PI), ('ImportInitialFromCSV', VD)):
        S('missing table: ' + fname[6:-7], lambda c, a=fname, e=et: missing(c, a, e))

HEAD = ('#', 'vtk', 'DataFile', 'Version', '4.1', NL, 'vtk', 'output', NL, 'ASCII', NL, 'DATASET', 'UNSTRUCTURED_GRID', NL)
CLS = 'ImportModelFromVTK<double>'
class Model:
    """text of a result file with arbitrary numbers"""
    def __init__(self, np_, sizes, pfields, cfields):
        self.P = [[var('x%d_%d' % (i, k)) for k in range(3)] for i in range(np_)]
        self.E = [[var('e%d_%d' % (i, k), 'int') for k in range(s)] for i, s in enumerate(sizes)]
        self.F = {}; self.order = ['P', 'C']
        t = [*HEAD, NL, 'POINTS', np_, 'float', NL]
        for r in self.P: t += [*map(num, r), NL]
        t += [NL, 'CELLS', len(sizes), sum(sizes) + len(sizes), NL]
        for r in self.E: t += [len(r), *[num(x, 'int') for x in r], NL]
        t += [NL, 'CELL_TYPES', len(sizes), NL]
        for r in self.E: t += [9, NL]
        for sect, n, fields in (('POINT_DATA', np_, pfields), ('CELL_DATA', len(sizes), cfields)):
            if not fields: continue
            t += [NL, sect, n, NL]
            for kind, nm in fields:
                w = [[var('%s_%s%d_%d' % (sect, nm, i, k)) for k in range(3 if kind == 'VECTORS' else 1)] for i in range(n)]
                self.F[sect, kind, nm] = w; self.order.append(('p' if sect[0] == 'P' else 'c') + kind[0].lower() + ':' + nm)
                t += [kind, nm, 'float', NL] + (['LOOKUP_TABLE', 'default', NL] if kind == 'SCALARS' else [])
                for r in w: t += [*map(num, r), NL]
        self.text = words(*t)
OPS = {'P': 'ImportPOINTS', 'C': 'ImportCELLS', 'pv': 'ImportPOINTVECTORS', 'ps': 'ImportPOINTSCALARS', 'cv': 'ImportCELLVECTORS', 'cs': 'ImportCELLSCALARS'}
def imports_vtk(R, tier):
    S = lambda name, body, tu=TU: R.contract(name, tu, lambda c: body(c), [dict(n=0)], sym=False)
    PF = [('SCALARS', 'T'), ('VECTORS', 'u'), ('SCALARS', 'Tx'), ('VECTORS', 'uT'), ('VECTORS', 'q')]; CF = [('SCALARS', 'rho'), ('VECTORS', 'q'), ('SCALARS', 'T')]
    def model(c, M, d, ops):
        lib(c, {'f': M.text})
        th = c.make(CLS, [TStr('f'), P(d)])
        at = 0
        for op in ops:
            k, _, nm = op.partition(':')
            # the search goes on from the last find; without a find it starts over
            found = op in M.order[at:]; at = M.order.index(op) + 1 if found else 0
            r = c.call(CLS + '::' + OPS[k], [TStr(nm)] if nm else [], th)
            if not found: want = []
            elif k == 'P': want = [('vec', x[:d]) for x in M.P]
            elif k == 'C': want = M.E
            else:
                w = M.F.get(('POINT_DATA' if k[0] == 'p' else 'CELL_DATA', 'VECTORS' if k[1] == 'v' else 'SCALARS', nm), [])
                want = [('vec', x[:d]) if k[1] == 'v' else x[0] for x in w]
            same(c, op, r, want)
    SEQ = [['P', 'C'], ['C'], ['ps:T'], ['ps:Tx'], ['pv:u'], ['pv:uT'], ['cs:rho'], ['cs:T'], ['cv:q'], ['P', 'C', 'ps:T', 'pv:u', 'ps:Tx', 'pv:uT', 'cs:rho', 'cv:q', 'cs:T'],
           ['P', 'ps:Tx', 'cs:T'], ['C', 'pv:uT', 'cv:q'], ['ps:none', 'P', 'C'], ['pv:T', 'pv:u'], ['ps:u', 'ps:T'], ['cs:Tx', 'cs:T'], ['cv:none', 'C', 'cv:q'], ['ps:rho', 'ps:T', 'cs:rho'], ['cs:q', 'P'], ['P', 'P', 'P'], ['C', 'C', 'C'], ['C', 'P', 'P'], ['cs:T', 'cs:T', 'cs:T'], ['cv:q', 'cv:q', 'cv:q'], ['ps:T', 'ps:T', 'ps:T'], ['pv:q', 'pv:q', 'pv:q'], ['cv:none', 'cv:q', 'pv:q', 'pv:q'], ['cs:T', 'ps:T', 'ps:T', 'cs:T'], ['C', 'C', 'cv:q']]
    for d in (1, 2, 3):
        for np_, sizes in ((1, [1]), (3, [3, 2]), (4, [4, 2, 3])):
            for q in SEQ if (np_, d) != (1, 1) or tier != 'quick' else SEQ[:1]:
                S('result file with %d points, %s cells, %d components: %s' % (np_, sizes, d, ' '.join(q)), lambda c, a=(np_, sizes), d=d, q=q: model(c, Model(*a, PF, CF), d, q))
    def gone(c):
        lib(c, {}); th = c.make(CLS, [TStr('f'), P(2)])
        for k in OPS: c.ensure_eq('nothing is read from a missing file', c.call(CLS + '::' + OPS[k], [] if k in 'PC' else [TStr('T')], th).n, P(0))
    S('missing result file', gone)
    def second(c, a, ops):
        M = Model(*a, PF, CF); lib(c, {'f': M.text}); th = c.make(CLS, [TStr('f')])
        for op in ops:
            if op == 'P': same(c, 'nodes', c.call(CLS + '::GenerateNodes', [], th), [('vec', x) for x in M.P])
            else: same(c, 'elements', c.call(CLS + '::GenerateElements', [], th), M.E)
    for a in ((1, [1]), (3, [3, 2]), (4, [4, 2, 3])):
        for ops in ('PC', 'CP', 'PPCC'): S('result file, second reader, %d points %s cells, %s' % (a[0], a[1], ops), lambda c, a=a, o=ops: second(c, a, o), 'io2.cpp')
    # what the library writes, it reads back
    def round(c, d, np_, sizes):
        L = lib(c); it = c.it; o = it.new_root(TextV(), 'fout')
        X = [[var('x%d_%d' % (i, k)) for k in range(d)] for i in range(np_)]; E = [[var('e%d_%d' % (i, k), 'int') for k in range(s)] for i, s in enumerate(sizes)]
        U = [[var('u%d_%d' % (i, k)) for k in range(d)] for i in range(np_)]; s = [var('s%d' % i) for i in range(np_)]; q = [var('q%d' % i) for i in range(len(sizes))]
        V = lambda rows: ArrC([Obj('Vector<double>', {'size': P(len(r)), 'values': ArrC(r, 'double')}) for r in rows], VD)
        c.call('MakeHeadderToVTK', [o]); c.call('AddPointsToVTK', [V(X), o]); c.call('AddElementToVTK', [ArrC([ArrC(e, 'int') for e in E], ('vec', 'int')), o])
        c.call('AddElementTypes', [ArrC([P(9)] * len(E), 'int'), o])
        c.call('AddPointScalers', [ArrC(s, 'double'), TStr('s'), o, TRUE], pick=plain); c.call('AddPointVectors', [V(U), TStr('u'), o, FALSE])
        c.call('AddElementScalers', [ArrC(q, 'double'), TStr('s'), o, TRUE], pick=plain)
        L.files['f'] = it.get(o).segs
        th = c.make(CLS, [TStr('f'), P(d)])
        same(c, 'points', c.call(CLS + '::ImportPOINTS', [], th), [('vec', x) for x in X]); same(c, 'cells', c.call(CLS + '::ImportCELLS', [], th), E)
        same(c, 'point scalars', c.call(CLS + '::ImportPOINTSCALARS', [TStr('s')], th), s); same(c, 'point vectors', c.call(CLS + '::ImportPOINTVECTORS', [TStr('u')], th), [('vec', x) for x in U])
        same(c, 'element scalars', c.call(CLS + '::ImportCELLSCALARS', [TStr('s')], th), q)
    for d in (1, 2, 3):
        for np_, sizes in ((1, [1]), (3, [3, 2]), (4, [4, 2, 3])): S('written and read back: %d points, %s cells, %d components' % (np_, sizes, d), lambda c, a=(d, np_, sizes): round(c, *a))

def run(R):
    exports(R)
    imports_csv(R, [(0, 0), (0, 1), (1, 0), (1, 1), (2, 1), (3, 1), (3, 2), (3, 3)] if R.tier == 'quick' else [(n, t) for n in range(5) for t in range(4)])
    imports_vtk(R, R.tier)
    R.flush(); runtime(R)

# ---- replay on the compiled library ------------------------------------------------------------------------
import random as rnd_
def runtime(R):
    g = rnd_.Random(R.seed * 7919 + 5); reps = 14 if R.tier == 'quick' else 80
    cmds = []; exp = []
    # six significant digits survive printing
    def real(): return g.choice([0, -1, 2.5, 1e-3, g.randrange(-999, 999) / 100, g.randrange(1, 99999) * 1e-9, g.randrange(1, 999) * 1e7])
    def fm(v): return '%.6g' % v
    def add(file, cmd, want, second=False): cmds.append((file, cmd, second)); exp.append(want)
    def flat(rows): return [x for r in rows for x in r]
    for _ in range(reps):
        N, d = g.randrange(0, 6), g.randrange(1, 4); tail = g.choice(['', '\n', '\n\n'])
        tab = lambda rows: 'id, head er\n' + '\n'.join(','.join(map(str, r)) for r in rows) + tail
        rows = [[g.randrange(99)] + [real() for _ in range(d)] for _ in range(N)]
        add(tab(rows), 'CSV nodes f', [('V', [r[1:] for r in rows]), True])
        rows = [[g.randrange(99)] + [g.randrange(999) for _ in range(g.choice((2, 3, 4, 8)))] for _ in range(N)]
        add(tab(rows), 'CSV elements f', [('I', [r[1:] for r in rows]), True])
        for k in ('dirichlet', 'neumann'):
            rows = [[g.randrange(99)] + [g.choice(['free', real()]) for _ in range(d)] for _ in range(N)]
            add(tab(rows), 'CSV %s f' % k, [('S', [x for r in rows for j, v in enumerate(r[1:]) if v != 'free' for x in (r[0], j, v)], sum(1 for r in rows for v in r[1:] if v != 'free')), True])
        rows = [[g.randrange(99), g.randrange(99)] for _ in range(N)]
        add(tab(rows), 'CSV periodic f', [('S', flat(rows), N), True])
        u = [[real() for _ in range(d)] for _ in range(6)]; ids = g.sample(range(6), N)
        rows = [[i] + [g.choice(['free', real()]) for _ in range(d)] for i in ids]; w = [list(r) for r in u]
        for r in rows:
            for j, v in enumerate(r[1:]):
                if v != 'free': w[r[0]][j] = v
        add(tab(rows), 'CSV initial f 6 %d %s' % (d, ' '.join(map(str, flat(u)))), [('V', w), True])
        # result files
        n, m = g.randrange(1, 6), g.randrange(1, 4)
        X = [[real() for _ in range(3)] for _ in range(n)]; E = [[g.randrange(n) for _ in range(g.choice((1, 2, 3, 4, 8)))] for _ in range(m)]
        t = '# vtk DataFile Version 4.1\nvtk output\nASCII\nDATASET UNSTRUCTURED_GRID\n\nPOINTS\t%d\tfloat\n' % n + ''.join('\t'.join(map(str, r)) + g.choice(['', '\t']) + '\n' for r in X)
        t += '\nCELLS %d\t%d\n' % (m, sum(map(len, E)) + m) + ''.join('%d\t' % len(r) + '\t'.join(map(str, r)) + '\n' for r in E) + '\nCELL_TYPES\t%d\n' % m + '9\n' * m
        F = {}; order = []
        for sect, cnt in (('POINT_DATA', n), ('CELL_DATA', m)):
            names = g.sample(['T', 'Tx', 'u', 'u1', 'rho'], g.randrange(1, 5)); t += '\n%s\t%d\n' % (sect, cnt)
            for nm in names:
                kind = g.choice('sv'); v = [[real() for _ in range(3 if kind == 'v' else 1)] for _ in range(cnt)]; key = ('p' if sect[0] == 'P' else 'c') + kind
                F[key, nm] = v; order.append((key, nm))
                t += ('SCALARS %s float\nLOOKUP_TABLE default\n' if kind == 's' else 'VECTORS %s float\n') % nm + ''.join('\t'.join(map(str, r)) + '\n' for r in v)
        every = [('P', '-'), ('C', '-')] + order
        for q in range(4):
            ops = [x for x in every if g.random() < 0.7] or [('C', '-')]
            if g.random() < 0.6: ops = [g.choice(every) for _ in range(g.randrange(2, 7))]
            if g.random() < 0.5: ops.insert(0, (g.choice(['ps', 'pv', 'cs', 'cv']), 'absent'))
            if g.random() < 0.6: x = g.choice(order); ops.insert(g.randrange(len(ops) + 1), ({'p': 'c', 'c': 'p'}[x[0][0]] + x[0][1], x[1]))   # a field of that name, but of the other section
            dd = g.randrange(1, 4)
            want = []; at = 0
            for op in ops:
                k, nm = op; ok = op in every[at:]; at = every.index(op) + 1 if ok else 0
                v = F.get(op, []) if ok else []
                want.append(('V', [r[:dd] for r in X] if ok else []) if k == 'P' else ('I', E if ok else []) if k == 'C' else ('V', [r[:dd] for r in v]) if k[1] == 'v' else ('S', flat(v), len(v)))
            add(t, 'VTK f %d %d %s' % (dd, len(ops), ' '.join(a + ' ' + b for a, b in ops)), want)
        for x in order:   # looked up on a fresh reader under the other kind of field
            for k in ('ps', 'pv', 'cs', 'cv'):
                if (k, x[1]) not in F: add(t, 'VTK f 2 1 %s %s' % (k, x[1]), [('V', []) if k[1] == 'v' else ('S', [], 0)])
        o = ''.join(g.choice('PC') for _ in range(3)); add(t, 'VTK2 f ' + o, [('V', X) if k == 'P' else ('I', E) for k in o], True)
        # export
        d = g.randrange(1, 4); X = [r[:d] for r in X]; ty = [g.choice((3, 5, 9, 12)) for _ in range(m)]; fl = []; tx = []
        for sect, cnt, kinds in (('POINT_DATA', n, ('ps', 'pS', 'pv')), ('CELL_DATA', m, ('cs',))):
            for j in range(g.randrange(0, 3)):
                k = g.choice(kinds); q = 1 if k != 'pv' else g.randrange(1, 4); nm = 'f%d' % j; v = [[real() for _ in range(q)] for _ in range(cnt)]
                fl.append('%s %s %d %d %d %s' % (k, nm, j == 0, cnt, q, ' '.join(map(str, flat(v)))))
                if j == 0: tx += [[sect, str(cnt)]]
                tx += [['VECTORS' if k == 'pv' else 'SCALARS', nm, 'float']] + ([] if k == 'pv' else [['LOOKUP_TABLE', 'default']]) + [[fm(x) for x in r] + (['0'] * (3 - q) if k == 'pv' else []) for r in v]
        text = [['#', 'vtk', 'DataFile', 'Version', '4.1'], ['vtk', 'output'], ['ASCII'], ['DATASET', 'UNSTRUCTURED_GRID'], ['POINTS', str(n), 'float']] + [[fm(x) for x in r] + ['0'] * (3 - d) for r in X]
        text += [['CELLS', str(m), str(sum(map(len, E)) + m)]] + [[str(len(r)), *map(str, r)] for r in E] + [['CELL_TYPES', str(m)]] + [[str(x)] for x in ty] + tx
        add(None, 'EXPORT %d %d %s %d %s %s %d %s' % (n, d, ' '.join(map(str, flat(X))), m, ' '.join('%d %s' % (len(r), ' '.join(map(str, r))) for r in E), ' '.join(map(str, ty)), len(fl), ' '.join(fl)), [('T', text)])
    for k, w in (('nodes', ('V', [])), ('elements', ('I', [])), ('dirichlet', ('S', [], 0)), ('neumann', ('S', [], 0)), ('periodic', ('S', [], 0)), ('initial', ('V', [[1, 2]]))):
        add(None, 'CSV %s nofile%s' % (k, ' 1 2 1 2' if k == 'initial' else ''), [w, False])
    for second in (False, True):
        idx = [i for i, x in enumerate(cmds) if x[2] == second]
        inp = ''.join((('FILE f %d\n%s\n' % (len(cmds[i][0]), cmds[i][0])) if cmds[i][0] is not None else '') + cmds[i][1] + '\n' for i in idx)
        rc, o, err = R.driver('io.cpp', [], ['-fsanitize=address,undefined'] + (['-DSECOND'] if second else []), 200, stdin=inp)
        if rc is None: R.violate('execution', 'driver', 'driver: ' + err[:600]); return
        parts = o.split('@ ')[1:]
        for j, i in enumerate(idx):
            R.cases += 1
            if j >= len(parts) - (1 if parts and parts[-1].strip() == 'done' else 0) and rc != 0:
                R.violate('execution', 'runtime', 'the program stops (exit %s) in: %s; %s' % (rc, cmds[i][1][:200], err[-400:]), {'file': cmds[i][0], 'command': cmds[i][1]}); return
            if j >= len(parts): R.violate('execution', 'runtime', 'no answer for ' + cmds[i][1][:200], {'command': cmds[i][1]}); return
            bad = judge(parts[j], exp[i])
            if bad: R.violate(cmds[i][1][:40], 'runtime', bad[:500], {'file': cmds[i][0], 'command': cmds[i][1]}); break
    R.assumptions += ['numbers are printed and read back exactly (the default six significant digits are machine arithmetic)', 'streams do not fail while writing; files are not changed while they are read']
    R.bounded.append('reading: files of the listed shapes (up to %d rows, up to 4 points and 3 cells, mixed cell sizes) with arbitrary numbers; writing is decided for all sizes' % (3 if R.tier == 'quick' else 4))

def judge(part, want):
    lines = part.split('\n')
    if want[0][0] == 'T':
        body = part[part.index('\n') + 1:] if '\n' in part else ''
        got = [l.split() for l in body.split('\n') if l.split()]
        for k, w in enumerate(want[0][1]):
            if k >= len(got) or len(got[k]) != len(w) or any(a != b and not eqn(a, b) for a, b in zip(got[k], w)): return 'line %d of the file is "%s", expected "%s"' % (k, ' '.join(got[k]) if k < len(got) else '', ' '.join(w))
        return '' if len(got) == len(want[0][1]) else 'the file goes on with ' + ' '.join(got[len(want[0][1])])
    lines = [l for l in lines if l.startswith('L ') or l in ('true', 'false')]
    for k, w in enumerate(want):
        if k >= len(lines): return 'answer %d is missing' % k
        t = lines[k].split()
        if isinstance(w, bool):
            if t != ['true' if w else 'false']: return 'reports %s' % t
            continue
        rows = w[1]; n = w[2] if w[0] == 'S' else len(rows)
        flat = ['L', str(n)] + ([str(x) for x in rows] if w[0] == 'S' else [y for r in rows for y in [w[0], str(len(r)), *map(str, r)]])
        if len(t) != len(flat) or any(a != b and not eqn(a, b) for a, b in zip(t, flat)): return 'answer %d is %s, expected %s' % (k, ' '.join(t)[:200], ' '.join(flat)[:200])
    return ''
def eqn(a, b):
    try: return abs(float(a) - float(b)) <= 1e-5 * max(abs(float(a)), abs(float(b))) + 1e-300
    except ValueError: return False
