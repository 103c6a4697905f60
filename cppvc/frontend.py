"""Frontend: real /repo headers -> clang AST (JSON) -> indexed instantiated function bodies.

The text that is verified is the text that is compiled: a translation unit of /verif that only #includes
/repo headers and requests template instantiations is handed to clang; the instantiated bodies of the functions
under contract are taken from clang's AST on every run.  Nothing of the code is rewritten by hand.
Dropped: declarations whose source file is not under /repo (the standard library; modelled in stdmodel.py),
comments, and the OpenMP directive wrappers (recorded, see interp.exec_omp).
"""
import json, os, re, subprocess, sys, tempfile

REPO = os.environ.get('CPPVC_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))

class FrontendError(Exception):
    pass

_file_re = re.compile(rb'"file": "((?:[^"\\]|\\.)*)"')
_line_re = re.compile(rb'"line": (\d+)')

class Unit:
    def __init__(self):
        self.byid = {}
        self.funcs = {}      # id -> node of function definitions (with body)
        self.records = {}    # id -> record node
        self.parent = {}     # id -> parent node
        self.byname = {}     # name -> [func node]
        self.roots = []
        self.src = {}

    def line_text(self, node):
        f, l = node.get('_file'), node.get('_line')
        if not f or not l:
            return ''
        if f not in self.src:
            try:
                self.src[f] = open(f, errors='replace').read().split('\n')
            except OSError:
                self.src[f] = []
        s = self.src[f]
        return s[l - 1].strip() if 0 < l <= len(s) else ''


def run_clang(tu_path, extra=()):
    cmd = ['clang++', '-std=c++17', '-O0', '-fopenmp', '-fsyntax-only', '-w', '-I', os.path.join(HERE, 'inc'),
           '-I', REPO + '/src', *extra, tu_path, '-Xclang', '-ast-dump=json']
    err = tempfile.TemporaryFile()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=err)
    return p, err


def load(tu_path, extra=()):
    p, err = run_clang(tu_path, extra)
    u = Unit()
    cur_file, cur_line = None, None
    buf = []
    keep = None
    prev_inc = False
    depth_open = False
    out = p.stdout
    for line in out:
        if line.startswith(b'    {'):
            buf = [line]; keep = None; depth_open = True
            start_file, start_line = cur_file, cur_line
            continue
        if not depth_open:
            continue
        if line.startswith(b'    }'):
            depth_open = False
            if keep is not False and keep is not None:
                buf.append(line)
                txt = b''.join(buf).rstrip()
                if txt.endswith(b','):
                    txt = txt[:-1]
                node = json.loads(txt)
                if node.get('kind') == 'LinkageSpecDecl': continue
                u.roots.append((node, start_file, start_line))
            buf = []
            continue
        st = line.lstrip()
        if prev_inc:
            prev_inc = False
            if keep is not False: buf.append(line)
            continue
        if st.startswith(b'"includedFrom"'):
            prev_inc = True
            if keep is not False: buf.append(line)
            continue
        if st.startswith(b'"file"'):
            m = _file_re.search(line); cur_file = m.group(1).decode()
            if keep is None:
                keep = relevant(cur_file, tu_path)
                if not keep: buf = []
        elif st.startswith(b'"line"'):
            cur_line = int(_line_re.search(line).group(1))
        elif keep is None and (st.startswith(b'"kind"') and not buf[-1].lstrip().startswith(b'"id"') or st.startswith(b'"range"')):
            # loc finished without a "file" entry: same file as before
            if len(buf) > 2:
                keep = relevant(cur_file, tu_path)
                if not keep: buf = []
        if keep is not False:
            buf.append(line)
    rc = p.wait()
    if rc != 0:
        err.seek(0)
        raise FrontendError(err.read().decode(errors='replace')[:4000])
    for node, f, l in u.roots:
        annotate(node, [f, l])
        index(u, node, None)
    return u


def relevant(f, tu):
    return f is not None and (os.path.abspath(f).startswith(REPO + '/') or os.path.abspath(f).startswith(os.path.join(os.path.dirname(HERE), 'tu')) or f == tu)


def annotate(node, st):
    """Resolve clang's delta-encoded file/line information (document order)."""
    stack = [node]
    def locwalk(d):
        for k, v in d.items():
            if k == 'file': st[0] = v
            elif k == 'line': st[1] = v
            elif isinstance(v, dict) and k in ('spellingLoc', 'expansionLoc', 'begin', 'end', 'includedFrom'):
                if k == 'includedFrom': continue
                locwalk(v)
    def walk(n):
        if 'loc' in n and isinstance(n['loc'], dict):
            locwalk(n['loc'])
            n['_file'], n['_line'] = st[0], st[1]
        if 'range' in n and isinstance(n['range'], dict):
            b = n['range'].get('begin')
            if isinstance(b, dict): locwalk(b)
            n['_file'] = st[0]
            n.setdefault('_line', st[1])
            if 'loc' not in n: n['_line'] = st[1]
            e = n['range'].get('end')
            if isinstance(e, dict): locwalk(e)
        n.pop('range', None)
        for c in n.get('inner', ()):
            if isinstance(c, dict): walk(c)
    walk(node)


def index(u, node, parent):
    i = node.get('id')
    if i:
        old = u.byid.get(i)
        if old is not None and old is not node and len(old.get('inner', ())) > len(node.get('inner', ())):
            return      # stub reference to an already indexed declaration
        u.byid[i] = node
        u.parent[i] = parent
    k = node.get('kind', '')
    if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
        node['_parent'] = parent
        body = None
        for c in node.get('inner', ()):
            if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
                body = c
        if body is not None:
            node['_body'] = body
        u.byname.setdefault(node.get('name'), []).append(node)
    if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
        u.records[i] = node
    node_parent = node
    for c in node.get('inner', ()):
        if isinstance(c, dict):
            index(u, c, node_parent)


def qualname(u, node):
    parts = [node.get('name', '?')]
    p = u.parent.get(node.get('id'))
    while p is not None:
        if p.get('kind') in ('NamespaceDecl', 'CXXRecordDecl', 'ClassTemplateSpecializationDecl') and p.get('name'):
            if p['kind'] == 'ClassTemplateSpecializationDecl':
                parts.append(p['name'] + '<>')
            else:
                parts.append(p['name'])
        p = u.parent.get(p.get('id'))
    return '::'.join(reversed(parts))

if __name__ == '__main__':
    import time
    t = time.time()
    u = load(sys.argv[1])
    print(time.time() - t, len(u.byid), [ (r[0]['kind'], r[0].get('name')) for r in u.roots][:40])
    import collections
    cnt = collections.Counter()
    for n, l in u.byname.items():
        for f in l:
            if '_body' in f: cnt[qualname(u, f)] += 1
    for q in sorted(cnt): print(q, cnt[q])
