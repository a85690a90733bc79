"""Loads clang's typed AST (JSON) of the current /repo sources: the mechanical extraction."""
import json, os, subprocess, glob, re
from concurrent.futures import ThreadPoolExecutor

CLANG = next((c for c in ('/usr/bin/clang-18', '/usr/bin/clang', 'clang-18', 'clang')
              if os.path.exists(c) or os.sep not in c), 'clang')


class N:
    """AST node"""
    __slots__ = ('k', 'j', 'inner', 'tu', 'par')

    def __init__(s, j, tu):
        s.j, s.tu = j, tu
        s.k = j.get('kind')
        s.inner = [N(c, tu) for c in j.get('inner', [])]

    def get(s, *a):
        return s.j.get(*a)

    @property
    def id(s):
        return (s.tu, s.j.get('id'))

    @property
    def name(s):
        return s.j.get('name')

    @property
    def ty(s):
        t = s.j.get('type', {})
        return t.get('desugaredQualType') or t.get('qualType') or ''

    def ref(s, key='referencedDecl'):
        r = s.j.get(key)
        return r

    def walk(s):
        yield s
        for c in s.inner:
            yield from c.walk()

    def line(s):
        r = s.j.get('range', {}).get('begin', {})
        r = r.get('expansionLoc', r)
        return r.get('line')


FUNCS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl')


class Fn:
    def __init__(s, node, cls):
        s.node, s.cls = node, cls
        s.name = node.name
        s.params = [c for c in node.inner if c.k == 'ParmVarDecl']
        s.body = next((c for c in node.inner if c.k == 'CompoundStmt'), None)
        s.inits = [c for c in node.inner if c.k == 'CXXCtorInitializer']
        s.virtual = bool(node.get('virtual'))
        s.mangled = node.get('mangledName')
        s.static = node.get('storageClass') == 'static'
        s.file = None

    @property
    def qual(s):
        return (s.cls + '::' if s.cls else '') + s.name


PRELUDE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'prelude.cpp')
_stdalg = None


def stdalg():
    """(name, number of parameters) -> Fn of the reference definitions in prelude.cpp"""
    global _stdalg
    if _stdalg is None:
        p = subprocess.run([CLANG, '-std=c++14', '-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang',
                            '-ast-dump-filter=stdalg', PRELUDE], capture_output=True, text=True)
        assert p.returncode == 0, p.stderr
        _stdalg = {}
        n, _ = json.JSONDecoder().raw_decode(p.stdout.lstrip())
        for t in N(n, 'prelude.cpp').inner:
            f = Fn(next(c for c in t.inner if c.k == 'FunctionDecl'), None)
            f.file = PRELUDE
            _stdalg[f.name, len(f.params)] = f
    return _stdalg


class Prog:
    def __init__(s, repo='/repo', files=None, omp=False, extra=()):
        s.repo = repo
        s.files = files or sorted(glob.glob(os.path.join(repo, 'src', '*.cpp')))
        s.defs = {}        # mangled -> Fn
        s.decl = {}        # (tu,id) -> mangled  (functions)
        s.classname = {}   # (tu,id) -> class name
        s.fields = {}      # (tu,id) -> 'Class::field'
        s.bases = {}       # class -> [base]
        s.methods = {}     # class -> {(name, nparams): mangled}
        s.fieldlist = {}   # class -> [names]
        s.enum = {}
        s.globals = {}
        s.src = {}
        s.errors = []
        s.nodes = {}
        s.omploops = {}
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(lambda f: s._dump(f, omp, extra), s.files))
        for f, (o, err) in zip(s.files, outs):
            s._load(f, o, err)
        s.stdalg = stdalg()

    def _dump(s, f, omp, extra=()):
        cmd = [CLANG, '-std=c++14', '-I' + os.path.join(s.repo, 'include'), '-fsyntax-only',
               '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=batoid'] + list(extra)
        if omp:
            cmd.append('-fopenmp')
        p = subprocess.run(cmd + [f], capture_output=True, text=True)
        return p.stdout, p.stderr if p.returncode else ''

    def source(s, f):
        if f not in s.src:
            try:
                s.src[f] = open(f, 'rb').read()
            except OSError:
                s.src[f] = b''
        return s.src[f]

    def _load(s, f, out, err):
        if err:
            s.errors.append((f, err[:500]))
        dec = json.JSONDecoder()
        i = 0
        n = len(out)
        tu = os.path.basename(f)
        while True:
            while i < n and out[i] in ' \n\r\t':
                i += 1
            if i >= n:
                break
            j, i = dec.raw_decode(out, i)
            s._curfile = f
            s._index(N(j, tu), None, f)

    def _index(s, n, cls, f):
        k = n.k
        if k in ('NamespaceDecl', 'LinkageSpecDecl'):
            for c in n.inner:
                s._index(c, None, f)
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            name = n.name
            if k == 'ClassTemplateSpecializationDecl':
                ta = [c.j.get('type', {}).get('qualType', '') for c in n.inner
                      if c.k == 'TemplateArgument']
                name = '%s<%s>' % (name, ','.join(ta))
            s.classname[n.id] = name
            prev = n.get('previousDecl')
            if n.get('completeDefinition') or n.inner:
                if n.get('bases') is not None:
                    s.bases[name] = [b['type'].get('desugaredQualType', b['type']['qualType']).split('::')[-1]
                                     for b in n.get('bases')]
                s.bases.setdefault(name, [])
                for c in n.inner:
                    s._index(c, name, f)
            return
        if k == 'ClassTemplateDecl':
            for c in n.inner:
                if c.k == 'ClassTemplateSpecializationDecl':
                    s._index(c, None, f)
            return
        if k == 'FunctionTemplateDecl':
            for c in n.inner[1:]:
                if c.k in FUNCS:
                    s._index(c, cls, f)
            return
        if k == 'FieldDecl':
            s.fields[n.id] = '%s::%s' % (cls, n.name)
            s.fieldlist.setdefault(cls, [])
            if n.name not in s.fieldlist[cls]:
                s.fieldlist[cls].append(n.name)
            s.nodes[n.id] = n
            return
        if k == 'EnumDecl':
            v = 0
            for c in n.inner:
                if c.k == 'EnumConstantDecl':
                    s.enum[c.id] = v
                    v += 1
            return
        if k == 'VarDecl':
            s.globals[n.id] = n
            return
        if k in FUNCS:
            p = n.get('parentDeclContextId')
            if cls is None and p is not None:
                cls = s.classname.get((n.tu, p))
            m = n.get('mangledName') or '%s::%s' % (cls, n.name)
            if n.get('storageClass') == 'static' and cls is None:
                m = n.tu + ':' + m
            s.decl[n.id] = m
            if cls:
                np_ = len([c for c in n.inner if c.k == 'ParmVarDecl'])
                s.methods.setdefault(cls, {}).setdefault((n.name, np_), m)
            if any(c.k == 'CompoundStmt' for c in n.inner):
                fn = Fn(n, cls)
                fn.file = f
                fn.mangled = m
                s.defs.setdefault(m, fn)
            return

    # ------------------------------------------------------------------
    def find(s, qual, nparams=None):
        r = [f for f in s.defs.values() if f.qual == qual and
             (nparams is None or len(f.params) == nparams)]
        return r[0] if r else None

    def supers(s, cls):
        out = [cls]
        for b in s.bases.get(cls, []):
            out += s.supers(b)
        return out

    def lookup(s, cls, name, nparams):
        """dynamic dispatch: most-derived definition"""
        for c in s.supers(cls):
            m = s.methods.get(c, {}).get((name, nparams))
            if m and m in s.defs:
                return s.defs[m]
        return None

    def text(s, node, fn_file):
        b = node.j['range']['begin']
        e = node.j['range']['end']
        b, e = b.get('spellingLoc', b), e.get('spellingLoc', e)
        if 'offset' not in b or 'offset' not in e:
            return ''
        src = s.source(fn_file)
        return src[b['offset']:e['offset'] + e.get('tokLen', 1)].decode('utf8', 'replace')


def omp_loops(repo, f):
    """file -> list of (first line of loop, clauses) for parallel-for directives"""
    out, _ = Prog._dump(type('X', (), {'repo': repo})(), f, True)
    dec = json.JSONDecoder()
    i = 0
    res = []
    line = [None]

    def walk(j):
        if not isinstance(j, dict):
            return
        k = j.get('kind', '')
        if k.startswith('OMP') and k.endswith('Directive'):
            red = []
            for c in j.get('inner', []):
                if c.get('kind') in ('OMPReductionClause', 'OMPPrivateClause', 'OMPFirstprivateClause',
                                     'OMPLastprivateClause'):
                    pass
            res.append((k, j))
            # do not descend: captured statements duplicate the loop
            return
        for c in j.get('inner', []):
            walk(c)
    n = len(out)
    while True:
        while i < n and out[i] in ' \n\r\t':
            i += 1
        if i >= n:
            break
        j, i = dec.raw_decode(out, i)
        walk(j)
    return res
