"""mutate.py N SEED [file-filter]: N random one-token mutants of batoid, each in a scratch copy of /repo,
through the checks of the properties its file serves; prints the mutants that no check reports.
(A survivor is either equivalent, out of every property's scope, or a gap in the checks.)"""
import ast, os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPP = {'src/batoid.cpp': None, 'src/sphere.cpp': 'P03 P04 P05', 'src/quadric.cpp': 'P03 P04 P05',
       'src/paraboloid.cpp': 'P03 P04 P05', 'src/asphere.cpp': 'P05 P04 P03', 'src/bicubic.cpp': 'P05 P04 P03',
       'src/plane.cpp': 'P03 P04 P05', 'src/polynomialSurface.cpp': 'P05 P04', 'src/sum.cpp': 'P05 P04 P03',
       'src/tilted.cpp': 'P03 P04 P05', 'src/table.cpp': 'P05 P04', 'src/surface.cpp': 'P03 P04',
       'src/medium.cpp': 'P14', 'src/coating.cpp': 'P11', 'src/obscuration.cpp': 'P12',
       'src/rayVector.cpp': 'P15 P18', 'src/dualView.cpp': 'P18 P21'}
FN = {'Transform': 'P01', 'finishParallel': 'P16', 'obscure': 'P13', 'intersect': 'P03 P11 P08',
      'reflect': 'P06 P11', 'refract(': 'P07 P11', 'rSplit': 'P09', 'refractScreen': 'P10'}
PY = {'batoid/coordSys.py': 'P02 P21 P01', 'batoid/coordTransform.py': 'P01 P21', 'batoid/lattice.py': 'P23 P21',
      'batoid/analysis.py': 'P25 P23', 'batoid/optic.py': 'P19 P20 P21 P13 P11 P22', 'batoid/parse.py': 'P22',
      'batoid/rayVector.py': 'P16 P18 P15 P21', 'batoid/surface.py': 'P21 P05 P04 P03 P10',
      'batoid/trace.py': 'P01 P03 P06 P07 P09 P10 P13', 'batoid/utils.py': 'P17 P16 P25',
      'batoid/medium.py': 'P14 P21', 'batoid/obscuration.py': 'P12 P21 P13', 'batoid/coating.py': 'P11 P21'}
SKIP = ('draw', 'get3dmesh', 'getXZSlice', 'getGlobalRays', 'fromYaml', '__repr__')


def cpp_sites(f, src):
    out = []
    fn, gpu, depth = '', 0, 0
    for i, l in enumerate(src.splitlines()):
        st = l.strip()
        m = re.match(r'\s{4,8}(?:static |inline )*[\w:<>&\*]+ [\w:<>~]*?(\w+)\(', l)
        if m and not st.endswith(';') and l.startswith('    ') and not l.startswith('         '):
            fn = st
        if st.startswith('#if defined(BATOID_GPU)'):
            gpu = 1
        if st.startswith('#else') or st.startswith('#endif'):
            gpu = 0
        if gpu or st.startswith(('//', '#', 'printf')) or 'getDevPtr' in fn or 'syncTo' in l:
            continue
        code = l.split('//')[0]
        for pat, reps in ((r'(?<=[\w\)\]]) ?\+ ?(?=[\w\(])', ['-']), (r'(?<=[\w\)\]]) ?- ?(?=[\w\(])', ['+']),
                          (r'\*(?=[\w\(])', ['/']), (r'/(?=[\w\(])', ['*']), (r'<(?![=<\w])', ['<=', '>']),
                          (r'<=', ['<']), (r' > ', [' >= ', ' < ']), (r'>=', ['>']), (r'&&', ['||']), (r'\|\|', ['&&']),
                          (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'==', ['!=']),
                          (r'(?<![\w.\[])([2-9])(?![\w.])', ['1']), (r'\[(\d)\]', None),
                          (r'\bstd::min\b', ['std::max']), (r'\bstd::max\b', ['std::min']),
                          (r'\bvx\b', ['vy']), (r'\bnx\b', ['ny']), (r'(?<![\w_])x(?![\w])', ['y']),
                          (r'\b_x0\b', ['_y0']), (r'\bdPdx\b', ['dPdy']), (r'=-', ['=']), (r'\+=', ['-=']), (r'-=', ['+='])):
            for m in re.finditer(pat, code):
                if 'for(' in l or 'for (' in l or '#include' in l or 'const double' in l and '(' not in l:
                    continue
                if reps is None:
                    rr = ['[%d]' % ((int(m.group(1))+1) % 9)]
                else:
                    rr = reps
                for r in rr:
                    out.append((i, m.start(), m.end(), r, fn))
        if st.endswith(';') and re.match(r'\w[\w\[\]\.]* ?[-+*/]?= ', st):
            out.append((i, 0, len(l), '// deleted', fn))
    return out


class Mut(ast.NodeTransformer):
    def __init__(s, k=-1):
        s.n, s.k, s.what = 0, k, ''

    def hit(s, what, ln):
        s.n += 1
        if s.n - 1 == s.k:
            s.what = '%d: %s' % (ln, what)
            return True
        return False

    def visit_FunctionDef(s, n):
        if n.name.startswith(SKIP):
            return n
        return s.generic_visit(n)

    def visit_BinOp(s, n):
        s.generic_visit(n)
        sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div,
              ast.Mod: ast.Mult, ast.Pow: ast.Mult, ast.BitAnd: ast.BitOr}
        if type(n.op) in sw and s.hit(ast.unparse(n), n.lineno):
            n.op = sw[type(n.op)]()
        return n

    def visit_Compare(s, n):
        s.generic_visit(n)
        sw = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
              ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
        if type(n.ops[0]) in sw and s.hit(ast.unparse(n), n.lineno):
            n.ops[0] = sw[type(n.ops[0])]()
        return n

    def visit_BoolOp(s, n):
        s.generic_visit(n)
        if s.hit(ast.unparse(n), n.lineno):
            n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        return n

    def visit_UnaryOp(s, n):
        s.generic_visit(n)
        if isinstance(n.op, (ast.USub, ast.Not, ast.Invert)) and s.hit(ast.unparse(n), n.lineno):
            return n.operand
        return n

    def visit_Constant(s, n):
        if isinstance(n.value, bool):
            if s.hit(repr(n.value), n.lineno):
                return ast.Constant(not n.value)
        elif isinstance(n.value, (int, float)) and s.hit(repr(n.value), n.lineno):
            return ast.Constant(n.value + 1)
        return n

    def visit_Attribute(s, n):
        s.generic_visit(n)
        sw = {'x': 'y', 'y': 'x', 'vx': 'vy', 'inMedium': 'outMedium', 'outMedium': 'inMedium', 'shiftGlobal': 'shiftLocal',
              'rotateGlobal': 'rotateLocal', 'vignetted': 'failed', 'failed': 'vignetted', 'sin': 'cos', 'cos': 'sin',
              'forwardCoating': 'reverseCoating', 'applyForwardArray': 'applyReverseArray', 'T': None, 'vz': 'vx',
              'items': None, 'rot': None, 'copy': None, 'inner': 'outer', 'z': 'x'}
        r = sw.get(n.attr)
        if r and s.hit(ast.unparse(n), n.lineno):
            n.attr = r
        elif n.attr == 'T' and s.hit(ast.unparse(n), n.lineno):
            return n.value
        return n

    def visit_Call(s, n):
        s.generic_visit(n)
        if n.keywords and s.hit('drop keyword ' + ast.unparse(n.keywords[-1]), n.lineno):
            n.keywords = n.keywords[:-1]
        return n

    def visit_stmt(s, n):
        return n

    def generic_visit(s, n):
        if hasattr(n, 'body') and isinstance(getattr(n, 'body'), list) and not isinstance(n, (ast.Module, ast.ClassDef)):
            for j, st in enumerate(list(n.body)):
                if isinstance(st, (ast.Assign, ast.AugAssign, ast.If)) and s.hit('delete ' + ast.unparse(st)[:80], st.lineno):
                    n.body[j] = ast.Pass()
        if hasattr(n, 'body') and isinstance(n.body, list) and n.body and isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Constant):
            rest = n.body[1:]
            keep = n.body[0]
            n.body = rest
            super().generic_visit(n)
            n.body = [keep] + n.body
            return n
        return super().generic_visit(n)


def main():
    N, seed = int(sys.argv[1]), int(sys.argv[2])
    flt = sys.argv[3] if len(sys.argv) > 3 else ''
    rng = random.Random(seed)
    files = [f for f in list(CPP) + list(PY) if flt in f]
    wt = [3 if f in ('src/batoid.cpp', 'batoid/optic.py', 'batoid/rayVector.py', 'batoid/analysis.py') else 1 for f in files]
    d = '/tmp/mutant-%d' % os.getpid()
    for _ in range(N):
        f = rng.choices(files, wt)[0]
        src = open('/repo/' + f).read()
        if f.endswith('.cpp'):
            c = cpp_sites(f, src)
            i, a, b, r, fn = rng.choice(c)
            L = src.splitlines(True)
            what = '%d: %s  -> %r at %d' % (i+1, L[i].strip(), r, a)
            nl = L[i][:a] + r + L[i][b:]
            if not nl.endswith('\n'):
                nl += '\n'
            L[i] = nl
            new = ''.join(L)
            props = CPP[f]
            if props is None:
                props = next((p for k, p in reversed(list(FN.items())) if k in fn), 'P03')
        else:
            t = ast.parse(src)
            m = Mut()
            m.visit(t)
            k = rng.randrange(m.n)
            t = ast.parse(src)
            m = Mut(k)
            t = m.visit(t)
            new = ast.unparse(ast.fix_missing_locations(t))
            what = m.what
            props = PY[f]
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(['cp', '-a', '/repo', d], check=True)
        open(os.path.join(d, f), 'w').write(new)
        t0 = time.time()
        hit = None
        for q in props.split():
            r = subprocess.run(['python3-vt', 'check.py', q], cwd=V, env=dict(os.environ, VERIF_REPO=d),
                               capture_output=True, text=True)
            if r.returncode:
                v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
                hit = q if v else q + '?'
                if v and 'no-failing' in v[-1]:
                    hit += '(no input)'
                break
        print('%s %s %s %s  (%.0fs)' % ('caught  ' if hit else 'SURVIVED', hit or '', f, what, time.time()-t0), flush=True)
    shutil.rmtree(d, ignore_errors=True)


main()
