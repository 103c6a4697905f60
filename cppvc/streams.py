"""Trusted model of std::string, input and output file streams.
A text is a sequence of segments: characters, a printed number (its value), a repetition "for v in [0,n)" and a choice; what is
appended by a loop with a symbolic trip count becomes a repetition.  Numbers are printed and read back exactly (the default
six significant digits are machine arithmetic and are left out).  Input streams hold a text without repetitions and a position."""
import re
from terms import *
import terms as T
from arrays import *
import interp as I
from interp import Unsupported, StrV, Opaque, LV, unwrap

def seg_map(segs, f, g):
    out = []
    for s in segs:
        if isinstance(s, str): out.append(s)
        elif s[0] == 'num': out.append(('num', f(s[1]), s[2]))
        elif s[0] == 'rep': out.append(('rep', s[1], f(s[2]), seg_map(s[3], f, g)))
        elif s[0] == 'if': out.append(('if', g(s[1]), seg_map(s[2], f, g), seg_map(s[3], f, g)))
        else: out.append(s)
    return tuple(out)
def seg_terms(segs, out):
    for s in segs:
        if isinstance(s, str): continue
        if s[0] == 'num': out.append(s[1])
        elif s[0] == 'rep': out.append(s[2]); seg_terms(s[3], out)
        elif s[0] == 'if': out.append(s[1]); seg_terms(s[2], out); seg_terms(s[3], out)
    return out
def glue(segs):
    out = []
    for s in segs:
        if isinstance(s, str) and out and isinstance(out[-1], str): out[-1] += s
        elif s != '': out.append(s)
    return tuple(out)

class TextV:
    """the text written so far to an output stream"""
    def __init__(self, segs=()): self.segs = glue(segs)
    def __add__(self, segs): return TextV(self.segs + tuple(segs))
    def __eq__(self, o): return isinstance(o, TextV) and self.segs == o.segs
    __hash__ = None
    def subst(self, m, rm=None):
        return TextV(seg_map(self.segs, lambda p: subst(p, m, rm), lambda g: f_subst(g, m, rm)))
    def merge(self, c, o):
        a, b = list(self.segs), list(o.segs); k = 0
        while k < len(a) and k < len(b) and a[k] == b[k]: k += 1
        if k < len(a) and k < len(b) and isinstance(a[k], str) and isinstance(b[k], str):
            j = 0
            while j < len(a[k]) and j < len(b[k]) and a[k][j] == b[k][j]: j += 1
            if j: a[k:k + 1] = [a[k][:j], a[k][j:]]; b[k:k + 1] = [b[k][:j], b[k][j:]]; k += 1
        ra, rb = glue(a[k:]), glue(b[k:])
        return TextV(a[:k] + ([('if', c, ra, rb)] if ra or rb else []))

class TStr:
    """a string value: a tuple of characters and printed numbers"""
    def __init__(self, items=()): self.items = tuple(items)
    def merge(self, c, o):
        if self.items == o.items: return self
        raise Unsupported('string depending on a condition')
    def text(self): return self.items and all(isinstance(x, str) for x in self.items) and ''.join(self.items) or ('' if not self.items else None)

class InV:
    """input stream: characters and printed numbers, position, state bits"""
    def __init__(self, items=(), pos=0, eof=False, fail=False, open_=False): self.items = items; self.pos = pos; self.eof = eof; self.fail = fail; self.open = open_
    def but(self, **k):
        r = InV(self.items, self.pos, self.eof, self.fail, self.open)
        for a, b in k.items(): setattr(r, a, b)
        return r
    def merge(self, c, o):
        if (self.items is o.items or self.items == o.items) and (self.pos, self.eof, self.fail, self.open) == (o.pos, o.eof, o.fail, o.open): return self
        raise Unsupported('stream state depending on a condition')

WS = ' \t\n\r'
def items_of(segs):
    """a text without repetitions as items"""
    out = []
    for s in segs:
        if isinstance(s, str): out += list(s)
        elif s[0] == 'num': out += list(str(s[1].const())) if s[1].const() is not None and float(s[1].const()).is_integer() else [s]
        elif s[0] == 'rep' and P(s[2]).const() is not None:
            for k in range(int(P(s[2]).const())): out += items_of(seg_map(s[3], lambda p: subst(p, {s[1]: P(k)}), lambda g: f_subst(g, {s[1]: P(k)})))
        else: raise Unsupported('text of unknown length')
    return out
NUM = re.compile(r'[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?')
def isin(c): return isinstance(c, str) and c in WS

class Lib:
    def __init__(self, files=None): self.files = files or {}
    def value(self, cls):
        if re.search(r'(if|istring|string|basic_if|basic_istring|basic_string)stream', cls): return InV()
        return NotImplemented
    def is_in(self, t): return isinstance(t, tuple) and t[0] == 'cls' and re.match(r'(basic_)?(i?fstream|i?stringstream)\b', t[1]) is not None
    def string(self, v):
        if isinstance(v, TStr): return v
        if isinstance(v, StrV): return TStr(v.s if v.s is None else tuple(self.literal(v.s)))
        raise Unsupported('string from %s' % type(v).__name__)
    def literal(self, s):
        if s is None: raise Unsupported('string without value')
        if len(s) >= 2 and s[0] == '"' and s[-1] == '"':
            s = re.sub(r'\\([ntr"\\0])', lambda m: {'n': '\n', 't': '\t', 'r': '\r', '"': '"', '\\': '\\', '0': '\0'}[m.group(1)], s[1:-1])
        return s
    def val(self, it, a, want=None): return it.get(a) if isinstance(a, LV) else it.ev(a, want)
    def open(self, it, x):
        nm = self.string(x).text()
        if nm in self.files: return InV(tuple(items_of(self.files[nm])), 0, False, False, True)
        return InV((), 0, False, True, False)
    def construct(self, it, t, args, ctype, n):
        args = [a for a in args if isinstance(a, LV) or unwrap(a).get('kind') != 'CXXDefaultArgExpr']
        if t == 'string':
            if not args: return TStr()
            v = self.val(it, args[0])
            if isinstance(v, (TStr, StrV)): return self.string(v)
            return NotImplemented
        if self.is_in(t):
            if not args: return InV()
            v = self.val(it, args[0])
            if isinstance(v, InV): return v
            if 'string' in t[1].split('<')[0]: return InV(self.string(v).items, 0, False, False, True)
            return self.open(it, v)
        return NotImplemented
    # ---- reading -------------------------------------------------------------------------
    def getline(self, it, s, d='\n'):
        if s.eof or s.fail: return s.but(fail=True), None
        p = s.pos; out = []
        if p >= len(s.items): return s.but(eof=True, fail=True), TStr()
        while p < len(s.items):
            c = s.items[p]; p += 1
            if c == d: return s.but(pos=p), TStr(out)
            out.append(c)
        return s.but(pos=p, eof=True), TStr(out)
    def token(self, s):
        if s.eof or s.fail: return s.but(fail=True), None
        p = s.pos
        while p < len(s.items) and isin(s.items[p]): p += 1
        if p >= len(s.items): return s.but(pos=p, eof=True, fail=True), TStr()
        q = p
        while q < len(s.items) and not isin(s.items[q]): q += 1
        return s.but(pos=q, eof=q >= len(s.items)), TStr(s.items[p:q])
    def number(self, s, t):
        if s.eof or s.fail: return s.but(fail=True), None
        p = s.pos
        while p < len(s.items) and isin(s.items[p]): p += 1
        if p >= len(s.items): return s.but(pos=p, eof=True, fail=True), None
        c = s.items[p]
        if isinstance(c, tuple):
            v = c[1]; q = p + 1
            if t == 'int' and c[2] != 'int': raise Unsupported('integer read from a real number')
            if q < len(s.items) and isinstance(s.items[q], (tuple,)): raise Unsupported('two numbers without a separator')
            if q < len(s.items) and isinstance(s.items[q], str) and s.items[q] in '0123456789.eE+-': raise Unsupported('number followed by a digit')
        else:
            k = p
            while k < len(s.items) and isinstance(s.items[k], str): k += 1
            tx = ''.join(s.items[p:k]); m = (re.compile(r'[+-]?\d+') if t == 'int' else NUM).match(tx)
            if not m: return s.but(pos=p, fail=True), ZERO
            q = p + m.end()
            if q < len(s.items) and isinstance(s.items[q], tuple): raise Unsupported('digits followed by a number')
            v = P(int(m.group(0))) if t == 'int' else P(Q(m.group(0)))
        return s.but(pos=q, eof=q >= len(s.items)), v
    def read(self, it, lv, a, n):
        s = it.get(lv)
        tgt = it.lv(a); t = I.ntype(unwrap(a)) if not isinstance(a, LV) else None; old = it.get(tgt)
        if isinstance(old, (TStr, StrV)):
            s2, v = self.token(s)
        elif t in ('int', 'double'): s2, v = self.number(s, t)
        else: raise Unsupported('reading a %s' % (t,), n)
        it.set(lv, s2)
        if v is not None: it.set(tgt, v)
        return lv
    # ---- hooks ------------------------------------------------------------------------------
    def method(self, it, name, this, t, args, n):
        v = it.get(this)
        F = lambda b: TRUE if b else FALSE
        if isinstance(v, InV):
            if name == 'is_open': return F(v.open)
            if name == 'eof': return F(v.eof)
            if name in ('fail', 'operator!'): return F(v.fail)
            if name in ('good',): return F(not v.fail and not v.eof)
            if name == 'operator bool': return F(not v.fail)
            if name == 'close': it.set(this, v.but(open=False) if v.open else v.but(fail=True)); return None
            if name == 'clear': it.set(this, v.but(eof=False, fail=False)); return None
            if name == 'open': it.set(this, self.open(it, self.val(it, args[0]))); return None
            if name == 'seekg':
                k = self.val(it, args[0])
                if not isinstance(k, Poly) or k.const() != 0: raise Unsupported('seekg to %s' % k, n)
                if not v.fail: it.set(this, v.but(pos=0, eof=False))
                return this
            if name == 'peek':
                if v.pos < len(v.items) and isinstance(v.items[v.pos], str): return P(ord(v.items[v.pos]))
                if v.pos >= len(v.items): it.set(this, v.but(eof=True)); return P(-1)
            if name == 'str' and not args: return TStr(v.items)
            if name == 'ignore' : raise Unsupported('ignore', n)
            raise Unsupported('stream method ' + name, n)
        if isinstance(v, TextV):
            if name in ('is_open', 'good', 'operator bool'): return TRUE
            if name in ('flush', 'close'): return None
            if name in ('precision', 'width'): raise Unsupported('stream format', n)
            raise Unsupported('stream method ' + name, n)
        if isinstance(v, (TStr, StrV)):
            s = self.string(v)
            if name == 'empty': return F(not s.items)
            if name == 'clear': it.set(this, TStr()); return None
            if name in ('size', 'length') and all(isinstance(x, str) for x in s.items): return P(len(s.items))
            if name == 'c_str': return s
            if name in ('push_back', 'append'): raise Unsupported('string ' + name, n)
            if name in ('find', 'compare'):
                k = self.string(self.val(it, args[0])).text()
                if k is None or any(ch.isdigit() for ch in k): raise Unsupported('find of a number', n)
                if name == 'compare': return ZERO if s.text() == k else ONE
                tx = ''.join(x if isinstance(x, str) else '\1' for x in s.items); r = tx.find(k)
                return P(r if r >= 0 else 2 ** 64 - 1)
            if name in ('operator=', 'assign'): it.set(this, self.string(self.val(it, args[0]))); return this
            raise Unsupported('string method ' + name, n)
        return NotImplemented
    def is_char(self, a):
        if isinstance(a, LV): return False
        x = unwrap(a)
        return x['kind'] == 'CharacterLiteral' or I.ntype_s(x) in ('char', 'const char')
    def operator(self, it, name, args, n):
        if name in ('operator<<', 'operator>>'):
            try: lv = it.lv_or_temp(args[0])
            except Unsupported: return NotImplemented
            v = it.get(lv)
            if name == 'operator>>' and isinstance(v, InV): return self.read(it, lv, args[1], n)
            if name == 'operator<<' and isinstance(v, TextV):
                x = unwrap(args[1]) if not isinstance(args[1], LV) else None
                while x is not None and x['kind'] == 'ImplicitCastExpr' and x.get('castKind') in ('FunctionToPointerDecay', 'NoOp'): x = unwrap(x['inner'][0])
                if x is not None and x['kind'] == 'DeclRefExpr' and (x.get('referencedDecl') or {}).get('kind') in ('FunctionDecl', 'CXXMethodDecl'):
                    f = x['referencedDecl'].get('name')
                    if f == 'endl': it.set(lv, v + ('\n',))
                    elif f in ('flush', 'fixed', 'scientific', 'left', 'right'):
                        if f != 'flush': raise Unsupported('stream format ' + f, n)
                    else: raise Unsupported('manipulator ' + str(f), n)
                    return lv
                w = self.val(it, args[1])
                v = it.get(lv)
                if isinstance(w, (TStr, StrV)): seg = tuple(self.string(w).items)
                elif isinstance(w, Poly):
                    if self.is_char(args[1]): seg = (chr(int(w.const())),)
                    else: seg = (str(w.const()),) if w.const() is not None and isinstance(w.const(), int) else (('num', w, 'int' if w.sort() == 'int' else 'real'),)
                else: raise Unsupported('printing a %s' % type(w).__name__, n)
                it.set(lv, v + seg); return lv
            return NotImplemented
        if name in ('operator==', 'operator!=', 'operator=', 'operator+=', 'operator+', 'operator[]', 'operator!'):
            t = None if isinstance(args[0], LV) else I.ntype(unwrap(args[0]))
            if name == 'operator!' : 
                v = self.val(it, args[0])
                return (TRUE if v.fail else FALSE) if isinstance(v, InV) else NotImplemented
            if t != 'string' and not (len(args) > 1 and not isinstance(args[1], LV) and I.ntype(unwrap(args[1])) == 'string'): return NotImplemented
            if name == 'operator[]': raise Unsupported('string index', n)
            a, b = self.string(self.val(it, args[0])), self.val(it, args[1])
            if isinstance(b, Poly): raise Unsupported('string and character', n)
            b = self.string(b)
            if name == 'operator=': lv = it.lv(args[0]); it.set(lv, b); return lv
            if name == 'operator+': return TStr(a.items + b.items)
            if name == 'operator+=': lv = it.lv(args[0]); it.set(lv, TStr(a.items + b.items)); return lv
            if a.text() is None and b.text() is None: raise Unsupported('comparison of two texts with numbers', n)
            # a printed number never equals one of the words compared here (no keyword is a number)
            same = a.text() is not None and a.text() == b.text()
            if (a.text() is None or b.text() is None):
                w = a.text() if a.text() is not None else b.text()
                if NUM.fullmatch(w): raise Unsupported('number compared with ' + w, n)
            return (TRUE if same else FALSE) if name == 'operator==' else (FALSE if same else TRUE)
        return NotImplemented
    def call(self, it, name, args, n):
        if name == 'getline':
            lv = it.lv_or_temp(args[0]); s = it.get(lv)
            if not isinstance(s, InV): return NotImplemented
            d = '\n'
            if len(args) > 2: d = chr(int(scal(self.val(it, args[2])).const()))
            s2, v = self.getline(it, s, d)
            tgt = it.lv(args[1])
            it.set(lv, s2)
            if v is not None: it.set(tgt, v)
            return lv
        if name in ('stod', 'stoi', 'stof', 'atoi', 'atof', 'stol'):
            s = self.string(self.val(it, args[0])); t = 'int' if name in ('stoi', 'atoi', 'stol') else 'double'
            s2, v = self.number(InV(s.items, 0, False, False, True), t)
            if v is None or s2.fail: raise I.OutOfRange('%s of "%s" throws' % (name, s.text()))
            return v
        if name == 'setprecision' or name == 'setw': raise Unsupported('stream format', n)
        return NotImplemented

# ---- comparison of texts ---------------------------------------------------------------------------
def tokens(segs):
    """words, numbers, line ends and repetitions; blanks only separate; empty lines are not significant"""
    out = []; gap = True
    for s in glue(segs):
        if isinstance(s, str):
            for m in re.finditer(r'[ \t\r]+|\n+|[^ \t\r\n]+', s):
                x = m.group(0)
                if x[0] == '\n': out.append(('nl',)); gap = True
                elif x[0] in ' \t\r': gap = True
                else:
                    if not gap: out.append(('glue',))
                    out.append(('w', x)); gap = False
        elif s[0] == 'num':
            if not gap: out.append(('glue',))
            out.append(s); gap = False
        elif s[0] == 'rep':
            b, st, en = tokens(s[3])
            if not gap and not st: out.append(('glue',))
            if b and not st and not en: b = [('glue',)] + b     # items of the repetition touch each other
            out.append(('rep', s[1], s[2], b)); gap = gap and not b or en
        elif s[0] == 'if':
            a, sa, ea = tokens(s[2]); b, sb, eb = tokens(s[3])
            out.append(('if', s[1], a, b)); gap = ea and eb
        else: raise Unsupported('unknown text')
    fl = glue(segs)
    st = bool(fl) and isinstance(fl[0], str) and fl[0][0] in WS
    return out, st, gap and bool(out)
def ends_nl(t):
    if not t: return False
    if t[-1][0] == 'nl': return True
    return t[-1][0] == 'rep' and ends_nl(t[-1][3])
def squeeze(t, at_start=True):
    out = []
    for x in t:
        if x[0] == 'rep': x = ('rep', x[1], x[2], squeeze(x[3], False))
        if x[0] == 'if': x = ('if', x[1], squeeze(x[2], False), squeeze(x[3], False))
        if x[0] == 'nl' and (ends_nl(out) or (not out and at_start)): continue
        out.append(x)
    return out
def same_text(c, label, got, want):
    """obligation: the text written is the specified one"""
    it = c.it
    def resolve(t):
        out = []
        for x in t:
            if x[0] == 'if':
                d = it.decide(x[1])
                if d is None: out.append(x)
                else: out += resolve(x[2] if d else x[3])
            elif x[0] == 'rep':
                n = P(x[2]).const()
                out.append(('rep', x[1], x[2], resolve(x[3]))) if n is None else [out.extend(resolve([sub1(y, x[1], P(k)) for y in x[3]])) for k in range(int(n))]
            else: out.append(x)
        return out
    def sub1(x, v, e):
        m = {v: e}
        if x[0] == 'num': return ('num', subst(x[1], m), x[2])
        if x[0] == 'rep': return ('rep', x[1], subst(P(x[2]), m), [sub1(y, v, e) for y in x[3]])
        if x[0] == 'if': return ('if', f_subst(x[1], m), [sub1(y, v, e) for y in x[2]], [sub1(y, v, e) for y in x[3]])
        return x
    def show_(t): return ' '.join(x[1] if x[0] == 'w' else '\\n' if x[0] == 'nl' else show(x[1]) if x[0] == 'num' else 'for(%s)[%s]' % (show(P(x[2])), show_(x[3])) if x[0] == 'rep' else x[0] for x in t)
    bad = []
    def cmp(a, b, where):
        a = squeeze(resolve(a), where == ''); b = squeeze(resolve(b), where == '')
        if len(a) != len(b) or any(x[0] != y[0] and not {x[0], y[0]} == {'w', 'num'} for x, y in zip(a, b)):
            bad.append('written: %s; specified: %s' % (show_(a)[:300], show_(b)[:300])); return
        for k, (x, y) in enumerate(zip(a, b)):
            if x[0] == 'w' and y[0] == 'w':
                if x[1] != y[1]: bad.append('"%s" instead of "%s" after %s' % (x[1], y[1], show_(b[:k])[-80:]))
            elif x[0] == 'rep':
                c.ensure_eq('%s: %snumber of entries' % (label, where), P(x[2]), P(y[2]))
                v = fresh('i', 'int'); q = len(it.facts); it.assume(And(le(0, v), lt(v, P(y[2]))))
                try: cmp([sub1(z, x[1], v) for z in x[3]], [sub1(z, y[1], v) for z in y[3]], where + 'entry ')
                finally: del it.facts[q:]
            elif x[0] in ('num', 'w'):
                nv = lambda z: z[1] if z[0] == 'num' else P(Q(z[1])) if NUM.fullmatch(z[1]) else None
                p, r = nv(x), nv(y)
                if p is None or r is None: bad.append('%s instead of %s' % (show_([x]), show_([y])))
                else: c.ensure_eq('%s: %svalue %d' % (label, where, k), p, r)
            elif x[0] == 'if': bad.append('conditional text: ' + show_([x]))
    cmp(tokens(got.segs)[0], tokens(want)[0], '')
    c.ok(label + ': layout', False if bad and all('conditional' not in x for x in bad) else (None if bad else True), 'text equality', '; '.join(bad)[:600])
