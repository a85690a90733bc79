"""Symbolic executor for the C++ subset, with contracts and loop rules."""
from fractions import Fraction
import re
import terms as tm
from terms import T, R, I, B
import fp
from fp import NAN, PINF, NINF, POISON
from engine import Engine, PathEnd, Unsupported
from cxxast import Prog, N, Fn


class Return(Exception):
    def __init__(s, v):
        s.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Cell:
    __slots__ = ('v', 'ty')

    def __init__(s, v, ty=''):
        s.v, s.ty = v, ty


class Arr:
    """array object: symbolic length, base contents, write log; ghost cells for per-index proofs"""

    def __init__(s, name, length, ty='double', base=None, const=False):
        s.name, s.length, s.ty, s.const = name, length, ty, const
        s.base = base
        s.log = []
        s.ghost = None     # list of callables I->index term when under the per-index rule
        s.written = False
        s.onread = None    # callable(index): facts about the contents (preconditions)

    def initial(s, i):
        if s.base is not None:
            return s.base(i)
        so = R if s.ty == 'double' else (B if s.ty == 'bool' else I)
        return tm.app(s.name, (i,), so)


class Ptr:
    __slots__ = ('arr', 'off')

    def __init__(s, arr, off=tm.IZERO):
        s.arr, s.off = arr, off


class Null:
    pass


NULL = Null()


class Elem:
    """lvalue arr[idx]"""
    __slots__ = ('x', 'arr', 'idx')

    def __init__(s, x, arr, idx):
        s.x, s.arr, s.idx = x, arr, idx

    @property
    def v(s):
        return s.x.read(s.arr, s.idx)

    @v.setter
    def v(s, val):
        s.x.write(s.arr, s.idx, val)


class Obj:
    def __init__(s, cls):
        s.cls = cls
        s.f = {}

    def field(s, k):
        c = s.f.get(k)
        if c is None:
            c = s.f[k] = Cell(POISON)
            if getattr(s, 'frozen', None) is not None:
                c = s.f[k] = FCell(c, s.frozen, k)
        return c


class FCell(Cell):
    """field of an object that a const operation must leave alone"""
    __slots__ = ('e', 'nm', 'w')

    def __init__(s, c, e, nm):
        s.e, s.nm = e, nm
        object.__setattr__(s, 'w', c.v)
        s.ty = c.ty

    @property
    def v(s):
        return s.w

    @v.setter
    def v(s, val):
        s.e.oblige('%s is not modified by evaluating (no hidden state, no race)' % s.nm, tm.FALSE, kind='frame')
        s.w = val


def freeze(e, o, seen=None):
    """from now on writing a field of o (or of the objects it owns) is a failed obligation"""
    seen = set() if seen is None else seen
    if isinstance(o, ObjPtr):
        o = o.o
    if not isinstance(o, Obj) or id(o) in seen:
        return
    seen.add(id(o))
    o.frozen = e
    for k, c in list(o.f.items()):
        freeze(e, c.v, seen)
        if isinstance(c.v, Vec):
            for q in c.v.items:
                freeze(e, q, seen)
        o.f[k] = FCell(c, e, k)


class Abs:
    """abstract object known only through the contract of its class"""

    def __init__(s, cls, ident):
        s.cls, s.ident = cls, ident


class ObjPtr:
    __slots__ = ('o',)

    def __init__(s, o):
        s.o = o


class Vec:
    """std::vector with concrete length"""

    def __init__(s, items=None):
        s.items = items or []


class It:
    def __init__(s, v, i):
        s.vec, s.i = v, i


class Cplx:
    def __init__(s, re, im):
        s.re, s.im = re, im


# library functions that only read what they are given
READERS = {'min', 'max', 'fmin', 'fmax', 'abs', 'fabs', 'sqrt', 'pow', 'fma', 'hypot', 'clamp', 'make_pair',
           'make_tuple', 'minmax', 'distance', 'next', 'prev', 'sin', 'cos', 'tan', 'atan', 'atan2', 'floor', 'ceil',
           'isnan', 'isfinite', 'isinf', 'signbit', 'copysign', 'any_of', 'all_of', 'none_of', 'find_if', 'find',
           'count_if', 'accumulate', 'inner_product', 'equal', 'upper_bound', 'lower_bound'}


class Tup:
    """std::pair / std::tuple: items are cells (references when tied)"""

    def __init__(s, items, tied=False):
        s.items = [c if isinstance(c, (Cell, Elem)) else Cell(c) for c in items]
        s.tied = tied

    def copy(s):
        return Tup([c if s.tied else c.v for c in s.items], s.tied)


class StdOp:
    def __init__(s, op):
        s.op = op


class Lambda:
    def __init__(s, fnnode, env):
        s.node, s.env = fnnode, env


INTS = ('int', 'unsigned int', 'long', 'unsigned long', 'size_t', 'std::size_t', 'char', 'short',
        'unsigned', 'long long', 'unsigned long long', 'ptrdiff_t', 'unsigned char', 'ssize_t',
        'std::ptrdiff_t', 'int64_t', 'uint64_t', 'int32_t', 'uint32_t')
UNS = {'unsigned int': 32, 'unsigned': 32, 'unsigned long': 64, 'size_t': 64, 'std::size_t': 64,
       'unsigned long long': 64, 'uint64_t': 64, 'uint32_t': 32}


def base_ty(t):
    t = t.replace('const ', '').replace(' const', '').replace('volatile ', '').strip()
    return t.rstrip('&').strip()


def is_int(t):
    return base_ty(t) in INTS


def is_f(t):
    return base_ty(t) in ('double', 'float', 'long double')


def is_bool(t):
    return base_ty(t) in ('bool', '_Bool')


class Fold:
    """candidate values for variables carried by a loop.
    exprs(x, k, t, entry) -> list of candidate values for double/bool/int carried variables;
    needs_t: candidates depend on one free carried variable t."""

    def __init__(s, exprs=None, needs_t=False, preds=None):
        s.exprs, s.needs_t = exprs or (lambda x, k, t, en: []), needs_t
        s.preds = preds        # preds(x, ints) -> candidate predicates over the integer loop variables


class Exec:
    """symbolic execution of one function under contract"""

    def __init__(s, prog, eng, contracts=None, fold=None, ghost=None, mode=None):
        s.p, s.e = prog, eng
        s.contracts = contracts or {}
        s.fold = fold
        s.ghost = ghost          # ghost index term
        s.depth = 0
        s.fnstack = []
        s.unroll = 64
        s.loopno = 0
        s.lambda_arrays = mode == 'lambda'
        s.inlined = eng.inlined
        s.omp = None
        s.cuts = None            # normal-form key -> variable: generalised subterms
        s.nloops = 0
        s.kvars = []
        s.matching = False

    def cut(s, v):
        """a subterm the proof generalises is replaced by a variable (its definition is in e.defs)"""
        if s.cuts and isinstance(v, T) and v.sort == R and v.op in ('+', '*'):
            try:
                return s.cuts.get(tm.nf(v).key(), v)
            except tm.Unsup:
                pass
        return v

    # ------------------------------------------------------------ memory
    def _inb(s, arr, idx, what):
        if arr.onread is not None:
            arr.onread(idx)
        if arr.length is not None:
            s.e.oblige('%s of %s in bounds' % (what, arr.name),
                       tm.land(tm.le(tm.IZERO, idx), tm.lt(idx, arr.length)), kind='bounds')

    def _gcell(s, arr, idx):
        for c in arr.ghost:
            if tm.same(idx, c):
                return True
        return False

    def read(s, arr, idx):
        s._inb(arr, idx, 'read')
        if arr.ghost is not None and not s._gcell(arr, idx):
            if arr.written or s.e.meta.get('strict', True):
                s.e.oblige('%s read only at the ray being processed' % arr.name, tm.FALSE, kind='frame')
        for (kind, i, v) in reversed(arr.log):
            if kind == 'w':
                if tm.same(i, idx):
                    return v
                d = tm.constdiff(i, idx)
                if d is not None:
                    continue
                if s.e.branch(tm.eq(i, idx)):
                    return v
            else:           # summarised range: i=(lo,hi), v=callable
                lo, hi = i
                if s.e.branch(tm.land(tm.le(lo, idx), tm.lt(idx, hi))):
                    return v(idx)
        return arr.initial(idx)

    def write(s, arr, idx, v):
        s._inb(arr, idx, 'write')
        if arr.const:
            s.e.oblige('%s not modified' % arr.name, tm.FALSE, kind='frame')
        if arr.ghost is not None and not s._gcell(arr, idx):
            s.e.oblige('%s written only at the ray being processed' % arr.name, tm.FALSE, kind='frame')
        arr.written = True
        if s.cuts:
            v = s.cut(v)
        arr.log.append(('w', idx, v))

    # ------------------------------------------------------------ calls
    def call(s, fn, args, this=None):
        """execute fn's body (inline)"""
        key = fn.qual
        if s.depth > 40:
            raise Unsupported('recursion in ' + key)
        env = {}
        for prm, a in zip(fn.params, args):
            env[prm.id] = s._bind(prm, a)
        s.depth += 1
        s.fnstack.append((fn, env, this))
        try:
            for ini in fn.inits:
                s._init(fn, ini, env, this)
            try:
                if fn.body is None:
                    raise Unsupported('no body: ' + key)
                s.stmt(fn.body)
                r = None
            except Return as r_:
                r = r_.v
            return r
        finally:
            s.fnstack.pop()
            s.depth -= 1

    def _bind(s, prm, a):
        t = prm.ty
        if t.endswith('&'):
            if isinstance(a, (Cell, Elem)):
                return a
            return Cell(a, t)
        if isinstance(a, (Cell, Elem)):
            a = a.v
        a = s.copyval(a)            # passed by value
        return Cell(s.cut(a) if s.cuts else a, t)

    def copyarr(s, a):
        b = Arr(a.name, a.length, a.ty, a.base, False)
        b.log = list(a.log)
        return b

    def _init(s, fn, ini, env, this):
        t = ini.get('anyInit')
        if t:
            key = '%s::%s' % (fn.cls, t['name'])
            fid = (ini.tu, t['id'])
            key = s.p.fields.get(fid, key)
            e = ini.inner[0]
            if e.k == 'CXXConstructExpr' and not is_f(e.ty) and not is_int(e.ty):
                this.f[key] = Cell(s.ev(e))
            else:
                v = s.rv(e)
                this.f[key] = Cell(v)
        else:
            b = ini.get('baseInit') or {}
            e = ini.inner[0]
            if e.k == 'CXXConstructExpr':
                s.construct(e, this)
            else:
                raise Unsupported('base init ' + str(e.k))

    def construct(s, e, this):
        """run the constructor named by a CXXConstructExpr on object `this`"""
        cls = base_ty(e.ty).split('::')[-1]
        args = [s.ev(a) for a in e.inner]
        f = next((f for f in s.p.defs.values() if f.cls == cls and f.node.k == 'CXXConstructorDecl'
                  and len(f.params) == len(args)), None)
        if f is None:
            if args:
                raise Unsupported('constructor ' + cls)
            return
        s.call(f, args, this)

    def newobj(s, cls, args):
        o = Obj(cls)
        f = next((f for f in s.p.defs.values() if f.cls == cls and f.node.k == 'CXXConstructorDecl'
                  and len(f.params) == len(args)), None)
        if f is None:
            raise Unsupported('constructor %s/%d' % (cls, len(args)))
        s.call(f, args, o)
        return o

    def method(s, o, name, args, static_fn=None):
        """call method by name with dynamic dispatch"""
        if isinstance(o, ObjPtr):
            o = o.o
        if isinstance(o, Abs):
            c = s.contracts.get((o.cls, name))
            if c is None:
                if name == 'getDevPtr':
                    return ObjPtr(o)
                raise Unsupported('no contract for %s::%s' % (o.cls, name))
            s.e.callees.add('%s::%s' % (o.cls, name))
            return c(s, o, *args)
        f = s.p.lookup(o.cls, name, len(args))
        if f is None:
            c = s.contracts.get((o.cls, name))
            if c:
                return c(s, o, *args)
            raise Unsupported('method %s::%s' % (o.cls, name))
        return s.callfn(f, args, o)

    def callfn(s, f, args, this=None):
        if name_ok(f.name) and f.name == 'getDevPtr' and this is not None:
            return ObjPtr(this)
        c = s.contracts.get(f.qual)
        if c is not None and not (s.depth == 0):
            s.e.callees.add(f.qual)
            return c(s, this, *args)
        if s.depth:
            s.inlined.add(f.qual)
        return s.call(f, args, this)

    # ------------------------------------------------------------ statements
    def stmt(s, n):
        k = n.k
        m = getattr(s, 'st_' + str(k), None)
        if m is not None:
            return m(n)
        s.ev(n)

    def st_CompoundStmt(s, n):
        for c in n.inner:
            s.stmt(c)

    def st_NullStmt(s, n):
        pass

    def st_DeclStmt(s, n):
        for d in n.inner:
            if d.k == 'DecompositionDecl':
                s.decomposition(d)
                continue
            if d.k != 'VarDecl':
                if d.k in ('TypedefDecl', 'UsingDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'CXXRecordDecl',
                           'UsingDirectiveDecl'):
                    continue
                raise Unsupported(d.k)
            s.vardecl(d)

    def env(s):
        return s.fnstack[-1][1]

    def decomposition(s, d):
        ini = next(c for c in d.inner if c.k not in ('BindingDecl', 'FullComment'))
        names = [c for c in d.inner if c.k == 'BindingDecl']
        v = s.ev(ini)
        w = v.v if isinstance(v, (Cell, Elem)) else v
        if not d.ty.endswith('&'):
            w = s.copyval(w)
        if isinstance(w, Tup):
            cs = list(w.items)
        elif isinstance(w, Obj):
            fl = s.p.fieldlist.get(w.cls, [])
            cs = [w.field('%s::%s' % (w.cls, nm)) for nm in fl]
        elif isinstance(w, Arr) and tm.isc(w.length):
            cs = [Elem(s, w, tm.lit(i, I)) for i in range(int(tm.cval(w.length)))]
        else:
            raise Unsupported('structured binding of %r' % (w,))
        if len(cs) != len(names):
            raise Unsupported('structured binding')
        for b, c in zip(names, cs):
            s.env()[b.id] = c

    def copyval(s, v):
        if isinstance(v, Arr):
            return s.copyarr(v)
        if isinstance(v, Tup):
            return v.copy()
        if isinstance(v, Obj) and s.aggregate(v.cls):
            o = Obj(v.cls)
            for k, c in v.f.items():
                o.f[k] = Cell(s.copyval(c.v), c.ty)
            return o
        return v

    def aggregate(s, cls):
        return cls in s.p.fieldlist and not any(f.cls == cls and f.node.k == 'CXXConstructorDecl'
                                                for f in s.p.defs.values())

    def vardecl(s, d):
        env = s.env()
        t = d.ty
        if (d.get('storageClass') == 'static' or d.get('tls')) and not t.startswith('const ') and \
                not d.get('constexpr'):
            raise Unsupported('static variable %s: hidden state' % d.name)
        ini = [c for c in d.inner if c.k not in ('FullComment',) and c.k is not None]
        if not ini:
            env[d.id] = Cell(POISON, t)
            if t.endswith(']'):
                env[d.id] = Cell(Arr(d.name, tm.lit(int(re.search(r'\[(\d+)\]', t).group(1)), I),
                                     base_ty(t.split('[')[0])), t)
                env[d.id].v.base = lambda i: POISON
            return
        e = ini[0]
        if t.endswith('&'):
            v = s.ev(e)
            env[d.id] = v if isinstance(v, (Cell, Elem)) else Cell(v, t)
            return
        if t.endswith(']'):
            nlen = int(re.search(r'\[(\d+)\]', t).group(1))
            a = Arr(d.name, tm.lit(nlen, I), base_ty(t.split('[')[0]))
            a.base = lambda i: tm.ZERO
            vals = [s.rv(c) for c in e.inner if c.k != 'ImplicitValueInitExpr']
            for i, v in enumerate(vals):
                a.log.append(('w', tm.lit(i, I), v))
            env[d.id] = Cell(a, t)
            return
        v = s.copyval(s.rv(e))
        env[d.id] = Cell(s.cut(v) if s.cuts else v, t)

    def st_IfStmt(s, n):
        inner = list(n.inner)
        if n.get('hasInit'):
            s.stmt(inner.pop(0))
        if n.get('hasVar'):
            raise Unsupported('if with variable')
        c = s.cond(inner[0])
        if c:
            s.stmt(inner[1])
        elif len(inner) > 2:
            s.stmt(inner[2])

    def cond(s, e):
        v = s.rv(e)
        return s.truth(v)

    def truth(s, v):
        if v is POISON:
            s.e.oblige('no use of an unset value', tm.FALSE, kind='frame')
            raise PathEnd()
        if isinstance(v, bool):
            return v
        if isinstance(v, T):
            if v.sort == B:
                return s.e.branch(v)
            return s.e.branch(tm.ne(v, tm.lit(0, v.sort)))
        if v is NULL:
            return False
        if isinstance(v, (Ptr, ObjPtr)):
            return True
        if isinstance(v, fp.Spec):
            return True
        raise Unsupported('truth of %r' % (v,))

    def st_ReturnStmt(s, n):
        if not n.inner:
            raise Return(None)
        fn = s.fnstack[-1][0]
        v = s.ev(n.inner[0])
        if isinstance(v, (Cell, Elem)):
            rt = fn.node.ty.split('(')[0].strip() if hasattr(fn, 'node') else ''
            if not rt.endswith('&'):
                v = v.v
        raise Return(v)

    def st_BreakStmt(s, n):
        raise Break()

    def st_ContinueStmt(s, n):
        raise Continue()

    def st_SwitchStmt(s, n):
        v = s.rv(n.inner[0])
        body = n.inner[-1]
        items = []
        run = False

        def flat(c):
            # (labels, stmt)
            if c.k == 'CaseStmt':
                return [('case', s.rv(c.inner[0]))] + flat(c.inner[-1])
            if c.k == 'DefaultStmt':
                return [('default', None)] + flat(c.inner[-1])
            return [('st', c)]
        for c in body.inner:
            items += flat(c)
        start = None
        for i, (a, b) in enumerate(items):
            if a == 'case' and s.e.branch(tm.eq(v, b)):
                start = i
                break
        if start is None:
            start = next((i for i, (a, b) in enumerate(items) if a == 'default'), None)
        if start is None:
            return
        try:
            for a, b in items[start:]:
                if a == 'st':
                    s.stmt(b)
        except Break:
            pass

    def st_ForStmt(s, n):
        # inner: init, condvar, cond, inc, body  (missing ones are {} nodes with k None)
        init, cv, cond, inc, body = n.inner
        if init.k:
            s.stmt(init)
        s.loop(n, cond if cond.k else None, inc if inc.k else None, body)

    def st_WhileStmt(s, n):
        s.loop(n, n.inner[0], None, n.inner[-1])

    def st_DoStmt(s, n):
        try:
            s.stmt(n.inner[0])
        except Break:
            return
        except Continue:
            pass
        s.loop(n, n.inner[1], None, n.inner[0])

    def st_CXXForRangeStmt(s, n):
        # inner: init?, rangeDecl, begin, end, cond, inc, loopvar, body
        inner = [c for c in n.inner if c.k]
        decls = [c for c in inner if c.k == 'DeclStmt']
        body = inner[-1]
        for d in decls[:-1]:
            s.stmt(d)
        cond = next(c for c in inner if c.k not in ('DeclStmt',))
        inc = [c for c in inner if c.k not in ('DeclStmt',)][1]
        var_ = decls[-1]

        class Both(N):
            def __init__(b):
                b.k = 'CompoundStmt'
                b.inner = [var_, body]
                b.j = {'range': body.j.get('range', {})}
                b.tu = body.tu
        s.loop(n, cond, inc, Both())

    # ---- loops
    def body_once(s, body, inc):
        """returns False when the loop was left by break"""
        try:
            s.stmt(body)
        except Break:
            return False
        except Continue:
            pass
        if inc is not None:
            s.ev(inc)
        return True

    def loop(s, n, cond, inc, body):
        s.nloops += 1
        mut = cond is not None and s.mutates(cond)
        for it in range(s.unroll + 1):
            if mut:        # a condition that changes variables: undone when the loop turns out to be symbolic
                cs = [(c, c.v) for c in (s.env().get(d) for d in s.modified([cond])) if isinstance(c, Cell)]
            v = s.rv(cond) if cond is not None else tm.TRUE
            if isinstance(v, T) and v.sort != B:
                v = tm.ne(v, tm.lit(0, v.sort))
            if isinstance(v, T) and not tm.isc(v):
                dv = s.decided(v) if s.fold is None else None
                if dv is None:
                    for c, old in cs if mut else ():
                        c.v = old
                    break
                v = tm.const(dv)
            if isinstance(v, bool):
                v = tm.const(v)
            if not isinstance(v, T):
                v = tm.const(s.truth(v))
            if not tm.cval(v):
                return
            if not s.body_once(body, inc):
                return
        else:
            raise Unsupported('loop not bounded by a constant (%s)' % s.where(n))
        s.peeled = it       # iterations already executed explicitly
        s.symloop(n, cond, inc, body)

    def mutates(s, e):
        return any(x.k == 'CompoundAssignOperator' or (x.k == 'UnaryOperator' and x.get('opcode') in ('++', '--')) or
                   (x.k == 'BinaryOperator' and x.get('opcode') == '=') for x in e.walk())

    def decided(s, v):
        if v in s.e.pc:
            return True
        if tm.lnot(v) in s.e.pc:
            return False
        return None

    def where(s, n):
        return '%s line %s' % (s.fnstack[-1][0].qual, n.line())

    def modified(s, nodes):
        """syntactic over-approximation of variables (cells) modified by the loop, and whether
        arrays/fields may be modified"""
        env = s.env()
        env2 = s.cellsof = {}
        out = {}

        def lval_root(e):
            while e.k in ('ParenExpr', 'ImplicitCastExpr') and e.inner:
                if e.k == 'ImplicitCastExpr' and e.get('castKind') == 'LValueToRValue':
                    return None
                e = e.inner[0]
            return e

        def note(e):
            r = lval_root(e)
            if r is None:
                return
            if r.k == 'DeclRefExpr':
                d = (r.tu, r.ref()['id'])
                if d in env or isinstance(env2.get(d), Cell):
                    out[d] = r.ref().get('name')
            elif r.k == 'MemberExpr':
                note(r.inner[0])
                if r.inner[0].k == 'CXXThisExpr':
                    out.setdefault('member', set()).add(r.name)
            elif r.k == 'ConditionalOperator':
                note(r.inner[1]); note(r.inner[2])
        nodes = list(nodes)
        seen = set()
        for nd in nodes:
            for x in nd.walk():
                if x.k == 'DeclRefExpr':      # a lambda used here: its body may write what it captures
                    d = (x.tu, x.ref()['id'])
                    c = env.get(d)
                    if isinstance(c, Cell) and isinstance(c.v, Lambda) and d not in seen:
                        seen.add(d)
                        nodes.append(c.v.node)
                        for d2, c2 in c.v.env.items():
                            env2.setdefault(d2, c2)
                if x.k == 'BinaryOperator' and x.get('opcode') == '=':
                    note(x.inner[0])
                elif x.k == 'CompoundAssignOperator':
                    note(x.inner[0])
                elif x.k == 'UnaryOperator' and x.get('opcode') in ('++', '--', '&'):
                    note(x.inner[0])
                elif x.k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr'):
                    if x.k == 'CXXMemberCallExpr':     # the object a method is called on
                        me = x.inner[0]
                        while me.k in ('ParenExpr', 'ImplicitCastExpr'):
                            me = me.inner[0]
                        ob = me.inner[0] if me.inner else None
                        if ob is not None and ob.get('valueCategory') == 'lvalue' and \
                                not me.get('isArrow') and not ob.ty.startswith('const ') and \
                                ob.k != 'MemberExpr':
                            note(ob)
                    wargs = x.inner[1:] if x.k != 'CXXConstructExpr' else x.inner
                    if x.k == 'CallExpr':
                        c = x.inner[0]
                        while c.k in ('ImplicitCastExpr', 'ParenExpr') and c.inner:
                            c = c.inner[0]
                        r = c.ref() if c.k == 'DeclRefExpr' else None
                        if r is not None and s.p.decl.get((c.tu, r['id'])) not in s.p.defs:
                            if r.get('name') in READERS:
                                wargs = []
                            elif r.get('name') in ('exchange', 'advance'):
                                wargs = x.inner[1:2]
                    for a in wargs:
                        if a.get('valueCategory') == 'lvalue' and not a.ty.startswith('const '):
                            note(a)
                elif x.k == 'VarDecl' and x.ty.endswith('&') and not x.ty.startswith('const '):
                    for c in x.inner:
                        note(c)
        return out

    def symloop(s, n, cond, inc, body):
        e = s.e
        env = s.env()
        nodes = [x for x in (cond, inc, body) if x is not None]
        mod = s.modified(nodes)
        members = mod.pop('member', set())
        if members and s.ghost is None:
            raise Unsupported('loop writes the members %s (%s)' % (sorted(members), s.where(n)))
        cells = {d: env[d] if d in env else s.cellsof[d] for d in mod}
        # every iteration-carried scalar
        entry = {d: c.v for d, c in cells.items()}
        ints = [d for d in cells if isinstance(entry[d], T) and entry[d].sort == I]
        ptrs = [d for d in cells if isinstance(entry[d], Ptr)]
        others = [d for d in cells if d not in ints and d not in ptrs]
        omp = s.ompclauses(n)
        if omp is not None:
            own = set()
            for x in n.inner[0].walk() if n.k == 'ForStmt' and n.inner[0].k else []:
                if x.k == 'VarDecl':
                    own.add(x.id)
            bad = [nm for d, nm in mod.items() if d not in own and nm not in omp]
            if n.k == 'ForStmt' and bad and not own:     # the loop variable itself is private
                iv = {nm for d, nm in mod.items() if d in ints and inc is not None and
                      any(x.k == 'DeclRefExpr' and (x.tu, x.ref()['id']) == d for x in inc.walk())}
                bad = [b for b in bad if b not in iv]
            bad += sorted(members_this(nodes))
            e.oblige('no variable shared by the parallel iterations is written (%s)%s' % (
                s.where(n), ': ' + ', '.join(map(str, bad)) if bad else ''), tm.const(not bad), kind='frame')
            if n.k == 'ForStmt':
                brk = any(x.k in ('BreakStmt', 'ReturnStmt') for x in jumps(body))
                if brk:
                    raise Unsupported('jump out of a parallel loop')
        if s.ghost is not None:
            return s.mapghost(n, cond, inc, body, cells, entry, ints, ptrs, others, mod)
        if s.lambda_arrays:
            return s.maplambda(n, cond, inc, body, cells, entry, ints, ptrs, others)
        return s.induct(n, cond, inc, body, cells, entry, ints, ptrs, others, mod)

    def ompclauses(s, n):
        """names a parallel-for directive in front of this loop makes private or reduces over
        (None: the loop is not parallel)"""
        b = n.j.get('range', {}).get('begin', {})
        b = b.get('spellingLoc', b)
        off = b.get('offset')
        if off is None:
            return None
        src = s.p.source(s.fnstack[-1][0].file)[:off].decode('utf8', 'replace')
        src = re.sub(r'\\\n', '  ', src)
        src = re.sub(r'/\*.*?\*/', ' ', src, flags=re.S)
        lines = src.split('\n')
        if lines and lines[-1].strip():
            return None
        out = None
        for ln in reversed(lines[:-1]):
            t = ln.split('//')[0].strip()
            if not t:
                continue
            if t.startswith('#pragma') and 'omp' in t:
                if 'simd' in t or 'for' in t or 'parallel' in t or 'sections' in t:
                    out = set() if out is None else out
                    for m in re.finditer(r'(private|firstprivate|lastprivate|linear)\s*\(([^)]*)\)', t):
                        out |= {w.strip() for w in m.group(2).split(',')}
                    for m in re.finditer(r'reduction\s*\(([^:]*):([^)]*)\)', t):
                        if m.group(1).strip() not in ('+', '-', '&', '|', '&&', '||'):
                            raise Unsupported('reduction ' + m.group(1))
                        out |= {w.strip() for w in m.group(2).split(',')}
                continue
            if t.startswith('#'):
                continue
            break
        return out

    def _arrs(s):
        """arrays reachable from the environment"""
        out = []
        seen = set()

        def visit(v):
            if id(v) in seen:
                return
            seen.add(id(v))
            if isinstance(v, Arr):
                out.append(v)
            elif isinstance(v, Ptr):
                visit(v.arr)
            elif isinstance(v, Cell):
                visit(v.v)
            elif isinstance(v, Elem):
                visit(v.arr)
            elif isinstance(v, Obj):
                for c in v.f.values():
                    visit(c)
            elif isinstance(v, ObjPtr):
                visit(v.o)
            elif isinstance(v, Vec):
                for x in v.items:
                    visit(x)
        for fn, env, this in s.fnstack:
            for c in env.values():
                visit(c)
            if this is not None:
                visit(this)
        return out

    # -- per-index rule for loops over independent elements
    def mapghost(s, n, cond, inc, body, cells, entry, ints, ptrs, others, mod):
        e = s.e
        if not ints:
            raise Unsupported('loop without an integer index (%s)' % s.where(n))
        condvars = [d for d in ints if cond is not None and any(
            x.k == 'DeclRefExpr' and (x.tu, x.ref()['id']) == d for x in cond.walk())]
        lv = (condvars or ints)[0]
        v0 = entry[lv]
        # one abstract iteration decides the step of every affine variable
        steps = s.affine_steps(cond, inc, body, cells, entry, ints, ptrs)
        st = steps.get(lv)
        if st not in (1, -1):
            raise Unsupported('index step (%s)' % s.where(n))
        # the index the body sees: a condition like i-- > 0 has already moved it
        head = s.ghost
        if cond is not None and s.mutates(cond):
            dl = s.affine_steps(cond, None, None, cells, entry, [lv], []).get(lv)
            if dl is None:
                raise Unsupported('loop condition (%s)' % s.where(n))
            head = tm.sub(s.ghost, tm.lit(dl, I))
        k = tm.sub(head, v0) if st == 1 else tm.sub(v0, head)

        def setstate(kk):
            for d in ints:
                if d in steps:
                    cells[d].v = tm.add(entry[d], tm.mul(tm.lit(steps[d], I), kk)) if d is not lv else \
                        tm.add(v0, tm.mul(tm.lit(st, I), kk))
                else:
                    cells[d].v = POISON
            for d in ptrs:
                if d in steps:
                    p = entry[d]
                    cells[d].v = Ptr(p.arr, tm.add(p.off, tm.mul(tm.lit(steps[d], I), kk)))
                else:
                    cells[d].v = POISON
            for d in others:
                cells[d].v = POISON
        # termination / domain: the condition is monotone in k
        facts, kf = [], None
        if cond is not None:
            kf = tm.fresh('k', I)
            save = list(e.pc)
            setstate(kf)
            facts = s.terminates(cond, kf, s.where(n)) or []
            for w in facts:      # next to the condition, in the next state
                e.assume(tm.subst(w, {kf: tm.add(kf, tm.IONE)}))
            setstate(tm.add(kf, tm.IONE))
            c1 = s._pure(cond)
            setstate(kf)
            c0 = s._pure(cond)
            if c1 is not None and c0 is not None:
                e.oblige('loop condition is monotone (%s)' % s.where(n),
                         tm.implies(tm.land(tm.le(tm.IZERO, kf), c1), c0), kind='loop')
            e.pc[:] = save
        if e.choose(2) == 0:
            # the ghost index is visited
            e.assume(tm.le(tm.IZERO, k))
            for w in facts:
                e.assume(tm.subst(w, {kf: k}))
            setstate(k)
            cells[lv].v = head
            if cond is not None:
                if not s.cond(cond):
                    raise PathEnd()
            if e.infeasible():
                raise PathEnd()
            s.ghost_visits = getattr(s, 'ghost_visits', 0) + 1
            depth_ghost = s.ghost
            try:
                ok = s.body_once(body, inc)
            except fp.Poisoned:
                e.oblige('iterations do not depend on each other (%s)' % s.where(n), tm.FALSE, kind='frame')
                raise PathEnd()
            if not ok:
                e.oblige('no early exit from the loop over rays (%s)' % s.where(n), tm.FALSE, kind='frame')
                raise PathEnd()
            for d in list(ints) + list(ptrs):
                if d in steps:
                    want = tm.add(entry[d] if d in ints else entry[d].off,
                                  tm.mul(tm.lit(steps[d], I), tm.add(k, tm.IONE)))
                    got = cells[d].v if d in ints else cells[d].v.off
                    e.oblige('loop variable advances by a constant (%s)' % s.where(n), tm.eq(got, want),
                             kind='loop')
        else:
            # the ghost index is never visited
            setstate(k)
            cells[lv].v = head
            if cond is not None:
                c = s._pure(cond)
                if c is None:
                    raise Unsupported('loop condition (%s)' % s.where(n))
                e.assume(tm.lor(tm.lt(k, tm.IZERO), tm.lnot(c), *[tm.lnot(tm.subst(w, {kf: k})) for w in facts]))
            else:
                e.assume(tm.lt(k, tm.IZERO))
            if e.infeasible():
                raise PathEnd()
        # after the loop: loop variables unknown
        for d in list(ints):
            cells[d].v = tm.fresh('after_' + str(mod.get(d)), I)
        for d in ptrs + others:
            cells[d].v = POISON

    def _pure(s, cond):
        """value of a side-effect free condition as a term (no path forking), or None"""
        cs = [(c, c.v) for c in (s.env().get(d) for d in s.modified([cond])) if isinstance(c, Cell)]
        try:
            v = s.rv(cond)
            if isinstance(v, T):
                return v if v.sort == B else tm.ne(v, tm.lit(0, v.sort))
        except (fp.Poisoned, Unsupported):
            pass
        finally:
            for c, old in cs:
                c.v = old
        return None

    def affine_steps(s, cond, inc, body, cells, entry, ints, ptrs):
        """syntactic guess of constant increments of integer/pointer loop variables (verified by
        an obligation after the body has been executed)"""
        env = s.env()
        steps = {}
        for d in list(ints) + list(ptrs):
            tot = 0
            ok = True
            for nd in [x for x in (cond, inc, body) if x is not None]:
                for x in nd.walk():
                    tgt = None
                    if x.k == 'UnaryOperator' and x.get('opcode') in ('++', '--'):
                        tgt, c = x.inner[0], 1 if x.get('opcode') == '++' else -1
                    elif x.k == 'CompoundAssignOperator' and x.get('opcode') in ('+=', '-='):
                        tgt = x.inner[0]
                        c = s.intlit(x.inner[1])
                        if c is not None and x.get('opcode') == '-=':
                            c = -c
                    elif x.k == 'BinaryOperator' and x.get('opcode') == '=':
                        tgt, c = x.inner[0], None
                        # i = i + c
                        rhs = strip(x.inner[1])
                        if rhs.k == 'BinaryOperator' and rhs.get('opcode') in ('+', '-'):
                            a, b = strip(rhs.inner[0]), rhs.inner[1]
                            if a.k == 'DeclRefExpr' and (a.tu, a.ref()['id']) == d:
                                c = s.intlit(b)
                                if c is not None and rhs.get('opcode') == '-':
                                    c = -c
                    else:
                        continue
                    t = strip(tgt)
                    if t.k == 'DeclRefExpr' and (t.tu, t.ref()['id']) == d:
                        if c is None:
                            ok = False
                        else:
                            tot += c
            if ok:
                steps[d] = tot
        return steps

    def intlit(s, e):
        e = strip(e)
        if e.k == 'IntegerLiteral':
            return int(e.get('value'))
        if e.k == 'UnaryOperator' and e.get('opcode') == '-':
            v = s.intlit(e.inner[0])
            return None if v is None else -v
        return None

    # -- single-path loops writing one element per iteration, summarised as a comprehension
    def maplambda(s, n, cond, inc, body, cells, entry, ints, ptrs, others):
        e = s.e
        steps = s.affine_steps(cond, inc, body, cells, entry, ints, ptrs)
        if any(d not in steps for d in ints + ptrs) or not ints or (cond is not None and s.mutates(cond)):
            raise Unsupported('loop shape (%s)' % s.where(n))
        arrs = s._arrs()
        marks = {id(a): len(a.log) for a in arrs}
        kv = tm.fresh('k', I)

        def setstate(kk):
            for d in ints:
                cells[d].v = tm.add(entry[d], tm.mul(tm.lit(steps[d], I), kk))
            for d in ptrs:
                cells[d].v = Ptr(entry[d].arr, tm.add(entry[d].off, tm.mul(tm.lit(steps[d], I), kk)))
            for d in others:
                cells[d].v = POISON
        save = list(e.pc)
        e.assume(tm.le(tm.IZERO, kv))
        setstate(kv)
        s.terminates(cond, kv, s.where(n))
        c = s._pure(cond)
        if c is None:
            raise Unsupported('loop condition (%s)' % s.where(n))
        e.assume(c)
        npos = e.pos
        ok = s.body_once(body, inc)
        if not ok:
            raise Unsupported('early exit (%s)' % s.where(n))
        writes = []
        for a in arrs:
            new = a.log[marks[id(a)]:]
            del a.log[marks[id(a)]:]
            for w in new:
                writes.append((a,) + w)
        e.pc[:] = save
        # number of iterations: smallest kk with cond false; needs cond of the form kk < hi
        hi = tm.IZERO
        if e.choose(2):
            m = tm.fresh('niter', I)
            hi = tm.add(m, tm.IONE)
            e.assume(tm.le(tm.IZERO, m))
            setstate(m)
            e.assume(s._pure(cond))
        setstate(hi)
        e.assume(tm.lnot(s._pure(cond)))
        if e.infeasible():
            raise PathEnd()
        for (a, kind, idx, v) in writes:
            if kind != 'w' or not tm.same(idx, tm.add(kv, tm.subst(idx, {kv: tm.IZERO}))):
                raise Unsupported('write pattern (%s)' % s.where(n))
            i0 = tm.subst(idx, {kv: tm.IZERO})

            def content(t, v=v, i0=i0):
                return tm.subst(v, {kv: tm.sub(t, i0)}) if isinstance(v, T) else v
            a.log.append(('range', (i0, tm.add(i0, hi)), content))
        setstate(hi)
        for d in others:
            cells[d].v = POISON

    # -- general induction with candidate invariants
    def induct(s, n, cond, inc, body, cells, entry, ints, ptrs, others, mod):
        e = s.e
        steps = s.affine_steps(cond, inc, body, cells, entry, ints, ptrs)
        arrs = s._arrs()
        marks = {id(a): len(a.log) for a in arrs}
        s.loopno += 1
        k0 = tm.lit(s.peeled, I)
        tag = '%s loop%d' % (s.fnstack[-1][0].qual, s.loopno)
        choice = {}
        fold = s.fold
        tvar = None
        dbl = [d for d in others if isinstance(entry[d], (T, fp.Spec)) and entry[d] is not POISON]
        assign = {}
        if fold is not None:
            # choose the definitional invariant of every carried variable that matches on entry
            best = None
            for tv in ([None] if not fold.needs_t else list(dbl)):
                t0 = entry[tv] if tv is not None else None
                s.matching = True
                try:
                    cands = fold.exprs(s, k0, t0, entry)
                except KeyError:
                    continue
                finally:
                    s.matching = False
                a = {}
                for d in list(dbl) + [i for i in ints if i not in steps]:
                    if d == tv:
                        continue
                    for ci, cv in enumerate(cands):
                        if cv is None:
                            continue
                        if eqv(cv, entry[d]):
                            a.setdefault(d, []).append(ci)
                if best is None or len(a) > len(best[1]):
                    best = (tv, a)
            tvar, assign = best if best else (None, {})
        # the Houdini choice among matching candidates is made by the caller (s.e.meta)
        pick = s.e.cands if hasattr(s.e, 'cands') else {}
        dead = s.e.dead if hasattr(s.e, 'dead') else set()
        inv = {}
        for d, cs in assign.items():
            for ci in cs:
                if (tag, mod.get(d), ci) not in dead:
                    inv[d] = ci
                    break

        def setstate(kk, tval):
            for d in ints:
                if d in steps:
                    cells[d].v = tm.add(entry[d], tm.mul(tm.lit(steps[d], I), kk))
                elif d not in inv:
                    cells[d].v = tm.fresh('hv_' + str(mod.get(d)), I)
            for d in ptrs:
                cells[d].v = Ptr(entry[d].arr, tm.add(entry[d].off, tm.mul(tm.lit(steps[d], I), kk))) \
                    if d in steps else POISON
            if tvar is not None:
                cells[tvar].v = tval
            cands = fold.exprs(s, tm.add(kk, k0), tval, entry) if (fold is not None and inv) else None
            for d in list(others) + [i for i in ints if i not in steps]:
                if d == tvar:
                    continue
                if d in inv:
                    cells[d].v = cands[inv[d]]
                elif d in others:
                    cells[d].v = s.havoc(entry[d], mod.get(d))
        def preds(kind):
            """candidate predicates in the current state (those that survived)"""
            out = []
            for i, p in enumerate(fold.preds(s, [cells[d].v for d in ints] + [
                    cells[d].v.off for d in ptrs if d in steps and steps[d]])):
                if (tag, 'pred', i) not in dead:
                    out.append((i, p))
            return out
        hp = fold is not None and fold.preds is not None
        zero = e.choose(2) == 0
        if zero:
            if hp:
                for i, p in preds('entry'):
                    e.oblige('predicate #%d holds on entry (%s)' % (i, tag), p, kind='inv', cand=(tag, 'pred', i))
            c = s.cond(cond) if cond is not None else True
            if c:
                raise PathEnd()
            return
        K = tm.fresh('k', I)
        e.assume(tm.le(tm.IZERO, K))
        tval = s.havoc(entry[tvar], 't') if tvar is not None else None
        s.kvars.append(K)
        setstate(K, tval)
        if hp:
            for i, p in preds('head'):
                e.assume(p)
        # arrays written by the loop are unknown at the loop head
        wr = s.array_written(body, inc)
        for a in arrs:
            if a.name in wr or ('*' in wr and not a.const):
                raise Unsupported('array written in an accumulating loop (%s)' % s.where(n))
        s.terminates(cond, K, tag)
        if cond is not None:
            if not s.cond(cond):
                raise PathEnd()
        if e.infeasible():
            raise PathEnd()
        pre = {d: cells[d].v for d in cells}
        before = [len(a.log) for a in arrs]
        try:
            s.stmt(body)
            brk = False
        except Break:
            brk = True
        except Continue:
            brk = False
        for a, b in zip(arrs, before):
            if len(a.log) != b:
                raise Unsupported('array written in an accumulating loop (%s)' % s.where(n))
        if brk:
            return
        if inc is not None:
            s.ev(inc)
        K1 = tm.add(K, tm.IONE)
        for d in list(ints) + list(ptrs):
            if d in steps:
                want = tm.add(entry[d] if d in ints else entry[d].off,
                              tm.mul(tm.lit(steps[d], I), K1))
                got = cells[d].v if d in ints else cells[d].v.off
                e.oblige('loop variable advances by a constant (%s)' % tag, tm.eq(got, want), kind='loop')
        if fold is not None and inv:
            t1 = cells[tvar].v if tvar is not None else None
            cands = fold.exprs(s, tm.add(K1, k0), t1, entry)
            for d, ci in inv.items():
                got, want = cells[d].v, cands[ci]
                if isinstance(got, T) and isinstance(want, T):
                    g = tm.eq(got, want)
                else:
                    g = tm.const(fp.within(got, want))
                e.oblige('invariant %s#%d preserved (%s)' % (mod.get(d), ci, tag), g, kind='inv',
                         cand=(tag, mod.get(d), ci))
        if hp:
            for i, p in preds('again'):
                e.oblige('predicate #%d preserved (%s)' % (i, tag), p, kind='inv', cand=(tag, 'pred', i))
                e.assume(p)
        # head again: leave, or covered by induction
        c = s.cond(cond) if cond is not None else True
        if c:
            raise PathEnd()

    def terminates(s, cond, K, tag):
        """some conjunct of the loop condition moves to false by a constant amount per iteration"""
        def conjuncts(c):
            c = strip(c)
            if c.k == 'BinaryOperator' and c.get('opcode') in ('&&', 'and'):
                return conjuncts(c.inner[0]) + conjuncts(c.inner[1])
            return [c]
        ok = False
        facts = []
        save = list(s.e.pc)
        parts = conjuncts(cond) if cond is not None else []
        for j, part in enumerate(parts):
            v = s._pure(part)
            ok = False
            for c in (v.args if v.op == 'and' else (v,)) if v is not None else ():
                w = s.variant(c, K)
                if isinstance(w, T):         # a != b, approached one step at a time from the right side
                    facts.append(w)
                ok = ok or bool(w)
            if ok or j == len(parts) - 1:
                break
            if v is not None:                    # the later conjuncts are evaluated when this one holds
                s.e.assume(v)
            elif not s.cond(part):
                s.e.pc[:] = save
                return
        s.e.pc[:] = save
        for w in facts if ok else ():
            s.e.oblige('loop starts before its end (%s)' % tag, tm.subst(w, {K: tm.IZERO}), kind='term')
            s.e.assume(w)
        s.e.oblige('loop terminates (%s)' % tag, tm.const(ok), kind='term')
        return facts if ok else []

    def variant(s, c, K):
        """the conjunct c moves to false by a constant amount per iteration K"""
        a = tm.atom(('var', K.args[0], I))
        sign = 1
        if c.op == 'not':
            c, sign = c.args[0], -1
        if c.op not in ('<', '<=') and not (c.op == '=' and sign < 0 and c.args[0].sort == I):
            return False
        try:
            p = tm.radd(tm.nf(c.args[0]), tm.nf(c.args[1]), -1)
        except tm.Unsup:
            return False
        if c.op == '=':
            k = p.n.get(((a, 1),), 0)
            if p.d or any(m != ((a, 1),) and a in dict(m) for m in p.n) or k not in (1, -1):
                return False
            return tm.le(c.args[0], c.args[1]) if k == 1 else tm.le(c.args[1], c.args[0])
        return not p.d and all(m == ((a, 1),) or a not in dict(m) for m in p.n) and \
            sign * p.n.get(((a, 1),), 0) > 0

    def array_written(s, body, inc):
        return set()

    def havoc(s, v, nm):
        """an unknown value of the same kind: any double is finite or not"""
        if isinstance(v, T) and v.sort != R:
            return tm.fresh('hv_' + str(nm), v.sort)
        if v is POISON:
            return POISON
        if isinstance(v, (T, fp.Spec)):
            if s.e.meta.get('nan_havoc', True) and s.e.choose(2):
                return fp.XNF
            return tm.fresh('hv_' + str(nm))
        return POISON

    # ------------------------------------------------------------ expressions
    def rv(s, n):
        v = s.ev(n)
        if isinstance(v, (Cell, Elem)):
            v = v.v
        return v

    def ev(s, n):
        m = getattr(s, 'ex_' + str(n.k), None)
        if m is None:
            raise Unsupported('expression %s (%s)' % (n.k, s.where(n) if s.fnstack else ''))
        return m(n)

    def ex_ParenExpr(s, n):
        return s.ev(n.inner[0])

    def ex_ExprWithCleanups(s, n):
        return s.ev(n.inner[0])

    ex_ConstantExpr = ex_ExprWithCleanups
    ex_MaterializeTemporaryExpr = ex_ExprWithCleanups
    ex_CXXBindTemporaryExpr = ex_ExprWithCleanups
    ex_SubstNonTypeTemplateParmExpr = ex_ExprWithCleanups
    ex_CXXDefaultInitExpr = ex_ExprWithCleanups

    def ex_IntegerLiteral(s, n):
        return tm.lit(int(n.get('value')), I)

    def ex_CharacterLiteral(s, n):
        return tm.lit(int(n.get('value')), I)

    def ex_FloatingLiteral(s, n):
        txt = ''
        try:
            txt = s.p.text(n, s.fnstack[-1][0].file)
        except Exception:
            pass
        txt = txt.strip().rstrip('fFlL').replace("'", '')
        if not re.fullmatch(r'[0-9.]+([eE][+-]?\d+)?', txt or 'x'):
            txt = n.get('value')
        q = Fraction(txt)
        import math
        for k in range(-3, 4):          # pi to double precision is one constant
            if float(q) == math.pi * 2.0 ** k:
                return tm.lit(Fraction(math.pi) * Fraction(2) ** k)
        return tm.lit(q)

    def ex_CXXBoolLiteralExpr(s, n):
        return tm.const(bool(n.get('value')))

    def ex_CXXNullPtrLiteralExpr(s, n):
        return NULL

    def ex_GNUNullExpr(s, n):
        return NULL

    def ex_StringLiteral(s, n):
        return None

    def ex_ImplicitValueInitExpr(s, n):
        return tm.ZERO if is_f(n.ty) else (tm.FALSE if is_bool(n.ty) else tm.IZERO)

    ex_CXXScalarValueInitExpr = ex_ImplicitValueInitExpr

    def ex_CXXThisExpr(s, n):
        t = s.fnstack[-1][2]
        return ObjPtr(t)

    def ex_DeclRefExpr(s, n):
        r = n.ref()
        d = (n.tu, r['id'])
        for fn, env, this in reversed(s.fnstack):
            if d in env:
                return env[d]
            break
        # captured variables of enclosing frames (lambdas)
        for fn, env, this in reversed(s.fnstack[:-1]):
            if d in env:
                return env[d]
        if r['kind'] == 'EnumConstantDecl':
            return tm.lit(s.p.enum.get(d, 0), I)
        if r['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return ('fn', d, r.get('name'))
        g = s.p.globals.get(d)
        if g is not None:
            if not g.ty.startswith('const ') and not g.get('constexpr'):
                raise Unsupported('global variable %s: hidden state' % r.get('name'))
            ini = [c for c in g.inner if c.k]
            if ini:
                s.fnstack.append((Fn_stub(g, s.p), {}, None))
                try:
                    return Cell(s.rv(ini[0]))
                finally:
                    s.fnstack.pop()
        raise Unsupported('reference to %s' % r.get('name'))

    def ex_MemberExpr(s, n):
        md = n.get('referencedMemberDecl')
        base = s.ev(n.inner[0])
        if isinstance(base, (Cell, Elem)):
            base = base.v
        fid = (n.tu, md)
        key = s.p.fields.get(fid)
        if key is None:
            # method reference, or instantiated template field
            if isinstance(base, ObjPtr):
                base = base.o
            if isinstance(base, Obj):
                ks = [k for k in base.f if k.split('::')[-1] == n.name]
                if ks and n.ty != '<bound member function type>':
                    return base.f[ks[0]]
            return ('bound', base, n)
        if isinstance(base, ObjPtr):
            base = base.o
        if isinstance(base, Cell):
            base = base.v
        if isinstance(base, Obj):
            c = base.f.get(key)
            if c is None:
                # template specialisations index fields under their instantiated name
                nm = key.split('::')[-1]
                ks = [k for k in base.f if k.split('::')[-1] == nm]
                if len(ks) == 1:
                    return base.f[ks[0]]
                return base.field(key)
            return c
        if isinstance(base, Abs) and key.split('::')[-1] == '_devPtr':
            return Cell(NULL)
        raise Unsupported('member %s of %r' % (key, base))

    def ex_ArraySubscriptExpr(s, n):
        b = s.rv(n.inner[0])
        i = s.rv(n.inner[1])
        if isinstance(i, Ptr):
            b, i = i, b
        if isinstance(b, Arr):
            b = Ptr(b)
        if b is NULL or b is POISON or not isinstance(b, Ptr):
            s.e.oblige('no null or unset pointer dereferenced', tm.FALSE, kind='bounds')
            raise PathEnd()
        if i is POISON:
            raise fp.Poisoned()
        return Elem(s, b.arr, tm.add(b.off, i))

    def conv(s, v, frm, to):
        """value conversion by type names"""
        if v is POISON or v is None:
            return v
        if is_f(to):
            if isinstance(v, T):
                if v.sort == B:
                    return tm.ite(v, tm.ONE, tm.ZERO)
                return tm.toreal(v)
            return v
        if is_bool(to):
            if isinstance(v, T):
                if v.sort == B:
                    return v
                return tm.ne(v, tm.lit(0, v.sort))
            if isinstance(v, fp.Spec):
                return tm.TRUE
            return tm.const(v is not NULL)
        if is_int(to):
            if isinstance(v, T):
                if v.sort == B:
                    v = tm.ite(v, tm.IONE, tm.IZERO)
                if v.sort == R:
                    return s.ftoi(v)
                t, f = base_ty(to), base_ty(frm)
                if t in UNS and f not in UNS:
                    if tm.isc(v):
                        return v if tm.cval(v) >= 0 else tm.lit(tm.cval(v) + 2 ** UNS[t], I)
                    if s.e.branch(tm.lt(v, tm.IZERO)):
                        return tm.add(v, tm.lit(2 ** UNS[t], I))
                    return v
                if t not in UNS and f in UNS:
                    # a wrapped unsigned value becomes the negative number it stands for
                    w = 2 ** UNS[f]
                    try:
                        c = tm.nf(v).n.get((), 0)
                    except tm.Unsup:
                        c = 0
                    if c > w // 2:
                        return tm.sub(v, tm.lit(w, I)) if not tm.isc(v) else tm.lit(tm.cval(v) - w, I)
                return v
            if isinstance(v, fp.Spec):
                # out-of-range conversion: x86 gives INT_MIN; any value is explored as undefined
                s.e.oblige('conversion of a non-finite value to an integer', tm.FALSE, kind='intconv')
                return tm.fresh('intconv', I)
            if isinstance(v, (Ptr, Arr)):
                return v
        return v

    def ftoi(s, v):
        if v.op == 'toreal':
            return v.args[0]
        if v.op == 'const' and v.args[0].denominator == 1:
            return tm.lit(v.args[0], I)
        # truncation toward zero
        if s.e.branch(tm.le(tm.ZERO, v)):
            return tm.floor(v)
        return tm.neg(tm.floor(tm.neg(v)))

    def ex_ImplicitCastExpr(s, n):
        ck = n.get('castKind')
        e = n.inner[0]
        if ck == 'LValueToRValue':
            v = s.ev(e)
            if isinstance(v, (Cell, Elem)):
                v = v.v
            return v
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return s.ev(e)
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'BitCast',
                  'ConstructorConversion', 'UserDefinedConversion', 'Dynamic'):
            return s.ev(e)
        if ck == 'ArrayToPointerDecay':
            v = s.ev(e)
            if isinstance(v, Cell):
                v = v.v
            return Ptr(v) if isinstance(v, Arr) else v
        if ck == 'NullToPointer':
            return NULL
        if ck == 'PointerToBoolean':
            return tm.const(s.rv(e) is not NULL)
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingCast', 'FloatingToIntegral',
                  'IntegralToBoolean', 'FloatingToBoolean', 'BooleanToSignedIntegral'):
            return s.conv(s.rv(e), e.ty, n.ty)
        if ck in ('IntegralToPointer', 'PointerToIntegral', 'ToVoid'):
            return s.ev(e)
        raise Unsupported('cast ' + str(ck))

    ex_CXXStaticCastExpr = ex_ImplicitCastExpr
    ex_CStyleCastExpr = ex_ImplicitCastExpr
    ex_CXXReinterpretCastExpr = ex_ImplicitCastExpr
    ex_CXXConstCastExpr = ex_ImplicitCastExpr

    def ex_CXXFunctionalCastExpr(s, n):
        return s.ex_ImplicitCastExpr(n)

    def ex_UnaryOperator(s, n):
        op = n.get('opcode')
        e = n.inner[0]
        if op in ('++', '--'):
            lv = s.ev(e)
            old = lv.v
            if old is POISON:
                raise fp.Poisoned()
            if isinstance(old, It):
                new = It(old.vec, old.i + (1 if op == '++' else -1))
            elif isinstance(old, Ptr):
                new = Ptr(old.arr, tm.add(old.off, tm.lit(1 if op == '++' else -1, I)))
            elif isinstance(old, T) and old.sort == R:
                new = tm.add(old, tm.lit(1 if op == '++' else -1))
            else:
                new = tm.add(old, tm.lit(1 if op == '++' else -1, I))
                if op == '--' and base_ty(e.ty) in UNS:
                    new = s.unsub(new, e.ty)
            lv.v = new
            return old if n.get('isPostfix') else lv
        if op == '&':
            lv = s.ev(e)
            if isinstance(lv, Elem):
                return Ptr(lv.arr, lv.idx)
            v = lv.v if isinstance(lv, Cell) else lv
            if isinstance(v, (Obj, Abs)):
                return ObjPtr(v)
            return ('addr', lv)
        if op == '*':
            p = s.rv(e)
            if isinstance(p, ObjPtr):
                return Cell(p.o)
            if isinstance(p, Ptr):
                return Elem(s, p.arr, p.off)
            if isinstance(p, tuple) and p[0] == 'addr':
                return p[1]
            if isinstance(p, It):
                return Cell(p.vec.items[p.i])
            raise Unsupported('dereference')
        v = s.rv(e)
        if op == '!':
            if isinstance(v, T) and v.sort == B:
                return tm.lnot(v)
            return tm.const(not s.truth(v))
        if op == '-':
            if isinstance(v, T) and v.sort == I:
                return tm.neg(v)
            return fp.neg(s.e, v)
        if op == '+':
            return v
        raise Unsupported('unary ' + op)

    def unsub(s, v, ty):
        """unsigned result that might wrap below zero"""
        if tm.isc(v):
            return v if tm.cval(v) >= 0 else tm.lit(tm.cval(v) + 2 ** UNS[base_ty(ty)], I)
        if s.e.branch(tm.lt(v, tm.IZERO)):
            return tm.add(v, tm.lit(2 ** UNS[base_ty(ty)], I))
        return v

    def ex_BinaryOperator(s, n):
        op = n.get('opcode')
        a, b = n.inner
        if op == ',':
            s.ev(a)
            return s.ev(b)
        if op == '=':
            v = s.rv(b)
            lv = s.ev(a)
            v = s.copyval(v)
            lv.v = s.cut(v) if s.cuts else v
            return lv
        if op == '&&':
            x = s.rv(a)
            if isinstance(x, T) and x.sort == B and s.simple(b):
                y = s.rv(b)
                if isinstance(y, T) and y.sort == B:
                    return tm.land(x, y)
                return tm.land(x, tm.const(s.truth(y)))
            if not s.truth(x):
                return tm.FALSE
            return s.tobool(s.rv(b))
        if op == '||':
            x = s.rv(a)
            if isinstance(x, T) and x.sort == B and s.simple(b):
                y = s.rv(b)
                if isinstance(y, T) and y.sort == B:
                    return tm.lor(x, y)
                return tm.lor(x, tm.const(s.truth(y)))
            if s.truth(x):
                return tm.TRUE
            return s.tobool(s.rv(b))
        x, y = s.rv(a), s.rv(b)
        return s.binop(op, x, y, n.ty, a.ty)

    def tobool(s, v):
        if isinstance(v, T) and v.sort == B:
            return v
        return tm.const(s.truth(v))

    def simple(s, n):
        """side-effect free and total (safe to evaluate unconditionally)"""
        for x in n.walk():
            if x.k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'ArraySubscriptExpr',
                       'CompoundAssignOperator', 'LambdaExpr', 'CXXConstructExpr'):
                return False
            if x.k == 'BinaryOperator' and x.get('opcode') in ('/', '%', '=', '-'):
                if x.get('opcode') == '-' and not (base_ty(x.ty) in UNS):
                    continue
                return False
            if x.k == 'UnaryOperator' and x.get('opcode') in ('++', '--', '*'):
                return False
            if x.k == 'ImplicitCastExpr' and x.get('castKind') in ('IntegralCast', 'FloatingToIntegral'):
                return False
        return True

    def binop(s, op, x, y, ty, opty):
        e = s.e
        if x is POISON or y is POISON:
            raise fp.Poisoned()
        if isinstance(x, It) or isinstance(y, It):
            if op in ('==', '!='):
                r = x.i == y.i
                return tm.const(r if op == '==' else not r)
            if op in ('+', '-') and isinstance(y, T):
                return It(x.vec, x.i + (1 if op == '+' else -1) * int(tm.cval(y)))
            if op == '-':
                return tm.lit(x.i - y.i, I)
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if op == '+':
                p, i = (x, y) if isinstance(x, Ptr) else (y, x)
                return Ptr(p.arr, tm.add(p.off, i))
            if op == '-' and isinstance(y, T):
                return Ptr(x.arr, tm.sub(x.off, y))
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.arr is y.arr:
                o = {'==': tm.eq, '!=': tm.ne, '<': tm.lt, '<=': tm.le, '>': lambda p, q: tm.lt(q, p),
                     '>=': lambda p, q: tm.le(q, p), '-': tm.sub}.get(op)
                if o:
                    return o(x.off, y.off)
            if op in ('==', '!='):
                same = isinstance(x, Ptr) and isinstance(y, Ptr) and x.arr is y.arr
                return tm.const(same if op == '==' else not same)
            raise Unsupported('pointer operation ' + op)
        if isinstance(x, (ObjPtr, Null)) or isinstance(y, (ObjPtr, Null)):
            same = (x is y) or (isinstance(x, ObjPtr) and isinstance(y, ObjPtr) and x.o is y.o)
            if op == '==':
                return tm.const(same)
            if op == '!=':
                return tm.const(not same)
            raise Unsupported('pointer operation')
        if op in ('==', '!=') and isinstance(x, T) and isinstance(y, T) and (x.op == 'ite' or y.op == 'ite'):
            a, b = asbool(x), asbool(y)
            if a is not None and b is not None:
                x, y = a, b
        isint = all(isinstance(v, T) and v.sort == I for v in (x, y))
        isbool = all(isinstance(v, T) and v.sort == B for v in (x, y))
        if isbool:
            if op == '==':
                return tm.iff(x, y)
            if op == '!=':
                return tm.lnot(tm.iff(x, y))
            if op == '&':
                return tm.land(x, y)
            if op == '|':
                return tm.lor(x, y)
            if op == '^':
                return tm.lnot(tm.iff(x, y))
        if isinstance(x, T) and x.sort == B and isinstance(y, T) and y.sort != B:
            x = tm.ite(x, tm.lit(1, y.sort), tm.lit(0, y.sort))
            isint = y.sort == I
        if isinstance(y, T) and y.sort == B and isinstance(x, T) and x.sort != B:
            y = tm.ite(y, tm.lit(1, x.sort), tm.lit(0, x.sort))
            isint = x.sort == I
        if op in ('<', '>', '<=', '>=', '==', '!='):
            if isint:
                return {'<': tm.lt, '<=': tm.le, '>': lambda a, b: tm.lt(b, a),
                        '>=': lambda a, b: tm.le(b, a), '==': tm.eq, '!=': tm.ne}[op](x, y)
            if op == '<':
                return fp.lt(e, x, y)
            if op == '>':
                return fp.lt(e, y, x)
            if op == '<=':
                return fp.le(e, x, y)
            if op == '>=':
                return fp.le(e, y, x)
            r = fp.eq(e, x, y)
            return r if op == '==' else tm.lnot(r)
        if isint:
            if op == '+':
                return tm.add(x, y)
            if op == '-':
                r = tm.sub(x, y)
                return s.unsub(r, ty) if base_ty(ty) in UNS else r
            if op == '*':
                return tm.mul(x, y)
            if op in ('/', '%'):
                return s.idivmod(op, x, y)
            if op in ('&', '|', '^', '<<', '>>'):
                if tm.isc(x) and tm.isc(y):
                    a, b = int(tm.cval(x)), int(tm.cval(y))
                    return tm.lit({'&': a & b, '|': a | b, '^': a ^ b, '<<': a << b if b < 64 else 0,
                                   '>>': a >> b}[op], I)
                if op in ('&', '|') and False:
                    pass
                raise Unsupported('bit operation')
        else:
            if op == '+':
                return fp.add(e, x, y)
            if op == '-':
                return fp.sub(e, x, y)
            if op == '*':
                return fp.mul(e, x, y)
            if op == '/':
                return fp.div(e, x, y)
        raise Unsupported('operator %s' % op)

    def idivmod(s, op, x, y):
        e = s.e
        if tm.isc(x) and tm.isc(y) and tm.cval(y) != 0:
            a, b = int(tm.cval(x)), int(tm.cval(y))
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return tm.lit(q if op == '/' else a - q * b, I)
        e.oblige('no integer division by zero', tm.ne(y, tm.IZERO), kind='bounds')
        # special case i % n with 0 <= i <= n, frequent in wrap-around loops
        if op == '%':
            if e.branch(tm.land(tm.le(tm.IZERO, x), tm.lt(x, y))):
                return x
            if e.branch(tm.eq(x, y)):
                return tm.IZERO
        q = tm.fresh('quot', I)
        r = tm.sub(x, tm.mul(q, y))
        if e.branch(tm.land(tm.le(tm.IZERO, x), tm.lt(tm.IZERO, y))):
            e.assume(tm.le(tm.IZERO, r))
            e.assume(tm.lt(r, y))
            return q if op == '/' else r
        raise Unsupported('integer division of negative values')

    def ex_CompoundAssignOperator(s, n):
        op = n.get('opcode')[:-1]
        b = s.rv(n.inner[1])
        lv = s.ev(n.inner[0])
        old = lv.v
        lt, rt = n.inner[0].ty, n.inner[1].ty
        cty = (n.get('computeResultType') or {}).get('qualType', lt)
        if old is POISON:
            raise fp.Poisoned()
        if is_f(cty):
            old2, b2 = s.conv(old, lt, 'double'), s.conv(b, rt, 'double')
        else:
            old2, b2 = old, b
        if op in ('|', '&', '^') and isinstance(old2, T) and old2.sort == I and isinstance(b2, T):
            # bool |= bool is computed in int: keep booleans
            ob, bb = asbool(old2), asbool(b2)
            if ob is not None and bb is not None:
                old2, b2 = ob, bb
        if is_bool(lt) and op in ('|', '&', '^'):
            old2 = s.conv(old2, lt, 'bool')
            b2 = asbool(b2) if asbool(b2) is not None else s.conv(b2, rt, 'bool')
        v = s.binop(op, old2, b2, cty, lt)
        v = s.conv(v, cty, lt) if not isinstance(v, (Ptr, It)) else v
        lv = s.ev(n.inner[0]) if not isinstance(lv, (Cell, Elem)) else lv
        lv.v = s.cut(v) if s.cuts else v
        return lv

    def ex_ConditionalOperator(s, n):
        c = s.rv(n.inner[0])
        if s.truth(c):
            return s.ev(n.inner[1])
        return s.ev(n.inner[2])

    def ex_CXXNewExpr(s, n):
        if n.get('isArray'):
            ln = s.rv(n.inner[0])
            t = base_ty(n.ty.rstrip('*').strip())
            a = Arr('new%d' % id(n), ln, t)
            a.name = 'newarray'
            a.base = lambda i: POISON
            return Ptr(a)
        e = n.inner[0]
        cls = base_ty(e.ty).split('::')[-1]
        o = Obj(cls)
        s.construct(e, o)
        return ObjPtr(o)

    def ex_CXXDeleteExpr(s, n):
        return None

    def ex_CXXConstructExpr(s, n):
        t = base_ty(n.ty)
        args = [a for a in n.inner if a.k != 'CXXDefaultArgExpr']
        short = t.split('::')[-1]
        m = re.match(r'(?:std::)?(pair|tuple|plus|minus|multiplies|divides|less|greater|negate|less_equal|'
                     r'greater_equal|logical_or|logical_and|bit_or|bit_and)<', t)
        if m and m.group(1) in ('pair', 'tuple'):
            vs = [s.ev(a) for a in args]
            if len(vs) == 1:
                w = vs[0].v if isinstance(vs[0], (Cell, Elem)) else vs[0]
                if isinstance(w, Tup):
                    return w.copy()
            return s.tup(t, vs)
        if m:
            return StdOp({'plus': '+', 'minus': '-', 'multiplies': '*', 'divides': '/', 'less': '<',
                          'greater': '>', 'negate': '-', 'less_equal': '<=', 'greater_equal': '>=',
                          'logical_or': '||', 'logical_and': '&&', 'bit_or': '|', 'bit_and': '&'}[m.group(1)])
        if t.startswith('std::vector') or t.startswith('vector<'):
            if not args:
                return Vec()
            v = s.rv(args[0])
            if isinstance(v, Vec):
                return Vec(list(v.items))
            raise Unsupported('vector constructor')
        if 'complex<' in t:
            vs = [s.rv(a) for a in args]
            if len(vs) == 1 and isinstance(vs[0], Cplx):
                return vs[0]
            vs += [tm.ZERO] * (2 - len(vs))
            return Cplx(vs[0], vs[1])
        if len(args) == 1:
            v = s.ev(args[0])
            w = v.v if isinstance(v, (Cell, Elem)) else v
            if isinstance(w, (Arr, Obj, It, Cplx, Abs, Lambda)) or isinstance(w, T):
                if isinstance(w, Arr):
                    return s.copyarr(w)
                if isinstance(w, Obj) and w.cls == short:
                    return w
                if not isinstance(w, (Ptr,)) and not isinstance(w, T):
                    return w
        if 'array<' in t and not args:
            return s.zarr(3)
        o = Obj(short)
        n2 = n
        cls = short
        if cls not in s.p.bases and '<' in t:
            cls = t.replace('batoid::', '')
            o.cls = cls
        vals = [s.ev(a) for a in args]
        f = next((f for f in s.p.defs.values() if f.cls == cls and f.node.k == 'CXXConstructorDecl'
                  and len(f.params) == len(vals)
                  and all(compat(pr.ty, v) for pr, v in zip(f.params, vals))), None)
        if f is None:
            f = next((f for f in s.p.defs.values() if f.cls == cls and f.node.k == 'CXXConstructorDecl'
                      and len(f.params) > len(vals) and
                      all(compat(pr.ty, v) for pr, v in zip(f.params, vals))), None)
            raise Unsupported('constructor %s/%d' % (t, len(vals)))
        s.call(f, vals, o)
        return o

    ex_CXXTemporaryObjectExpr = ex_CXXConstructExpr

    def tup(s, t, vs):
        """a pair or tuple of type t from the given values, each copied to its item type"""
        inner = t[t.index('<') + 1:t.rindex('>')]
        ts, depth, cur = [], 0, ''
        for ch in inner:
            depth += (ch in '<(') - (ch in '>)')
            if ch == ',' and depth == 0:
                ts.append(cur.strip())
                cur = ''
            else:
                cur += ch
        ts.append(cur.strip())
        if not vs:
            vs = [tm.ZERO if is_f(q) else tm.IZERO if is_int(q) else tm.FALSE if is_bool(q) else POISON for q in ts]
        if len(vs) != len(ts):
            raise Unsupported('constructor of ' + t)
        out = []
        for q, v in zip(ts, vs):
            if q.endswith('&'):
                out.append(v if isinstance(v, (Cell, Elem)) else Cell(v, q))
                continue
            w = s.copyval(v.v if isinstance(v, (Cell, Elem)) else v)
            if is_f(q) and isinstance(w, T) and w.sort == I:
                w = tm.toreal(w)
            elif is_int(q) and not (isinstance(w, T) and w.sort == I):
                raise Unsupported('narrowing into ' + t)
            out.append(Cell(w, q))
        return Tup(out, any(q.endswith('&') for q in ts))

    def zarr(s, k):
        a = Arr('array', tm.lit(k, I))
        a.base = lambda i: tm.ZERO
        return a

    def ex_InitListExpr(s, n):
        t = base_ty(n.ty)
        if is_f(t) or is_int(t) or is_bool(t):
            return s.rv(n.inner[0]) if n.inner else (tm.ZERO if is_f(t) else tm.IZERO)
        if 'array<' in t or t.endswith(']'):
            inner = n.inner
            while len(inner) == 1 and inner[0].k == 'InitListExpr':
                inner = inner[0].inner
            a = s.zarr(len(inner))
            for i, c in enumerate(inner):
                a.log.append(('w', tm.lit(i, I), s.rv(c)))
            return a
        # aggregate
        o = Obj(t.split('::')[-1])
        fl = s.p.fieldlist.get(o.cls, [])
        for nm, c in zip(fl, n.inner):
            o.f['%s::%s' % (o.cls, nm)] = Cell(s.rv(c))
        return o

    def ex_CXXDefaultArgExpr(s, n):
        raise Unsupported('default argument')

    def ex_LambdaExpr(s, n):
        # find operator() body
        op = None
        for c in n.walk():
            if c.k == 'CXXMethodDecl' and c.name == 'operator()':
                op = c
                break
        env = s.fnstack[-1][1]
        rec = n.inner[0] if n.inner and n.inner[0].k == 'CXXRecordDecl' else None
        fl = [c for c in rec.inner if c.k == 'FieldDecl'] if rec is not None else []
        caps = n.inner[1:1 + len(fl)]
        copies = [c for f, c in zip(fl, caps) if not f.ty.endswith('&')]
        if copies:
            env = dict(env)
            for c in copies:
                x = c
                while x.k in ('ImplicitCastExpr', 'ParenExpr', 'CXXConstructExpr') and x.inner:
                    x = x.inner[0]
                if x.k == 'CXXThisExpr':
                    continue
                if x.k != 'DeclRefExpr':
                    raise Unsupported('init capture')
                v = s.rv(c)
                env[(x.tu, x.ref()['id'])] = Cell(s.copyarr(v) if isinstance(v, Arr) else v, x.ty)
        return Lambda(op, env)

    # ---- calls
    def args_of(s, f, nodes):
        out = []
        for i, a in enumerate(nodes):
            if a.k == 'CXXDefaultArgExpr':
                # default value from the declaration
                d = f.params[i] if f is not None and i < len(f.params) else None
                ini = [c for c in d.inner if c.k] if d is not None else []
                if not ini:
                    ini = [c for c in a.inner if c.k]
                if not ini:
                    raise Unsupported('default argument')
                out.append(s.rv(ini[0]))
            else:
                out.append(s.ev(a))
        return out

    def ex_CallExpr(s, n):
        callee = n.inner[0]
        c = s.ev(callee)
        if isinstance(c, (Cell, Elem)):
            c = c.v
        if isinstance(c, tuple) and c[0] == 'fn':
            _, d, name = c
            m = s.p.decl.get(d)
            if m in s.p.defs:
                f = s.p.defs[m]
                return s.callfn(f, s.args_of(f, n.inner[1:]), None)
            return s.builtin(name, n.inner[1:], n)
        return s.callany(c, [s.ev(a) for a in n.inner[1:]])

    def callany(s, c, args):
        if isinstance(c, Lambda):
            return s.calllambda(c, args)
        if isinstance(c, tuple) and c[0] == 'fn' and s.p.decl.get(c[1]) in s.p.defs:
            return s.callfn(s.p.defs[s.p.decl.get(c[1])], args, None)
        if isinstance(c, StdOp):
            vs = [a.v if isinstance(a, (Cell, Elem)) else a for a in args]
            ty = 'double' if any(not (isinstance(v, T) and v.sort != R) for v in vs) else 'long'
            if len(vs) == 1:
                return fp.neg(s.e, vs[0]) if c.op == '-' and ty == 'double' else tm.neg(vs[0])
            return s.binop(c.op, vs[0], vs[1], ty, ty)
        raise Unsupported('call')

    def calllambda(s, c, args):
        fn = Fn(c.node, None)
        fn.file = s.fnstack[-1][0].file
        env = dict(c.env)
        for prm, a in zip(fn.params, args):
            env[prm.id] = s._bind(prm, a)
        # the frame shares captured cells
        s.fnstack.append((fn, env, s.fnstack[-1][2]))
        s.depth += 1
        try:
            try:
                s.stmt(fn.body)
                return None
            except Return as r:
                return r.v
        finally:
            s.depth -= 1
            s.fnstack.pop()

    def ex_CXXMemberCallExpr(s, n):
        me = n.inner[0]
        while me.k in ('ParenExpr', 'ImplicitCastExpr'):
            me = me.inner[0]
        name = me.name
        base = s.ev(me.inner[0])
        if isinstance(base, (Cell, Elem)) and not isinstance(base, Elem):
            lv = base
            base = base.v
        elif isinstance(base, Elem):
            base = base.v
        if isinstance(base, ObjPtr):
            base = base.o
        if isinstance(base, Cell):
            base = base.v
        argn = n.inner[1:]
        if isinstance(base, Arr):
            if name == 'data' or name == 'begin':
                return Ptr(base)
            if name == 'end':
                return Ptr(base, base.length)
            if name == 'size':
                return base.length
            if name in ('at', 'operator[]'):
                return Elem(s, base, s.rv(argn[0]))
        if isinstance(base, Vec):
            return s.vecmethod(base, name, argn)
        if isinstance(base, Cplx):
            if name == 'real':
                return base.re
            if name == 'imag':
                return base.im
        if isinstance(base, Abs):
            return s.method(base, name, [s.ev(a) for a in argn])
        if isinstance(base, Obj):
            md = (me.tu, me.get('referencedMemberDecl'))
            m = s.p.decl.get(md)
            f = s.p.defs.get(m)
            qualified = '::' in s.p.text(me, s.fnstack[-1][0].file).split('->')[-1].split('.')[-1] or \
                '::' in s.p.text(me, s.fnstack[-1][0].file)
            if not qualified:
                g = s.p.lookup(base.cls, name, len(argn))
                f = g or f
            if name in ('syncToDevice', 'syncToHost') and base.cls.startswith('DualView'):
                return None
            if f is None:
                c = s.contracts.get((base.cls, name))
                if c:
                    return c(s, base, *[s.ev(a) for a in argn])
                if name == 'getDevPtr':
                    return ObjPtr(base)
                raise Unsupported('method %s::%s' % (base.cls, name))
            return s.callfn(f, s.args_of(f, argn), base)
        if base is NULL or base is POISON:
            s.e.oblige('no null or unset pointer dereferenced', tm.FALSE, kind='bounds')
            raise PathEnd()
        raise Unsupported('method %s' % name)

    def vecmethod(s, v, name, argn):
        if name in ('push_back', 'emplace_back'):
            v.items.append(s.rv(argn[0]))
            return None
        if name in ('reserve', 'shrink_to_fit'):
            return None
        if name == 'clear':
            v.items = []
            return None
        if name == 'size':
            return tm.lit(len(v.items), I)
        if name == 'empty':
            return tm.const(not v.items)
        if name in ('begin', 'cbegin'):
            return It(v, 0)
        if name in ('end', 'cend'):
            return It(v, len(v.items))
        raise Unsupported('vector::' + name)

    def ex_CXXOperatorCallExpr(s, n):
        opn = n.inner[0]
        r = None
        x = opn
        while x.k in ('ImplicitCastExpr', 'ParenExpr'):
            x = x.inner[0]
        name = x.ref()['name']
        a0 = s.ev(n.inner[1])
        v0 = a0.v if isinstance(a0, (Cell, Elem)) else a0
        if name == 'operator[]':
            i = s.rv(n.inner[2])
            if isinstance(v0, Arr):
                return Elem(s, v0, i)
            if isinstance(v0, Vec):
                c = int(tm.cval(i))
                vv = v0

                class VE(Cell):
                    pass
                return Cell(v0.items[c])
            raise Unsupported('operator[]')
        if isinstance(v0, It):
            if name == 'operator*':
                return Cell(v0.vec.items[v0.i])
            if name in ('operator++', 'operator--'):
                a0.v = It(v0.vec, v0.i + (1 if name == 'operator++' else -1))
                return v0 if len(n.inner) > 2 else a0
            if name in ('operator!=', 'operator==', 'operator+', 'operator-', 'operator<'):
                v1 = s.rv(n.inner[2])
                if name == 'operator<':
                    return tm.const(v0.i < v1.i)
                return s.binop(name[8:], v0, v1, '', '')
        if isinstance(v0, StdOp) and name == 'operator()':
            return s.callany(v0, [s.ev(a) for a in n.inner[2:]])
        if isinstance(v0, Lambda) and name == 'operator()':
            return s.calllambda(v0, [s.ev(a) for a in n.inner[2:]])
        if name == 'operator=':
            v = s.copyval(s.rv(n.inner[2]))
            if isinstance(v0, Tup):
                if not isinstance(v, Tup) or len(v.items) != len(v0.items):
                    raise Unsupported('tuple assignment')
                for c, w in zip(v0.items, [w.v for w in v.items]):
                    c.v = w
                return a0
            a0.v = v
            return a0
        f = s.p.defs.get(s.p.decl.get((x.tu, x.ref()['id'])))
        if f is not None and f.cls is None:
            return s.callfn(f, [a0] + [s.ev(a) for a in n.inner[2:]])
        if isinstance(v0, (Obj, ObjPtr)):
            o = v0.o if isinstance(v0, ObjPtr) else v0
            if f is None:
                f = s.p.lookup(o.cls, name, len(n.inner) - 2)
            if f is not None:
                return s.callfn(f, [s.ev(a) for a in n.inner[2:]], o)
        if isinstance(v0, Cplx) or any(isinstance(s_, Cplx) for s_ in [v0]):
            v1 = s.rv(n.inner[2])
            if name in ('operator+=', 'operator+'):
                w = Cplx(fp.add(s.e, v0.re, v1.re), fp.add(s.e, v0.im, v1.im)) if isinstance(v1, Cplx) \
                    else Cplx(fp.add(s.e, v0.re, v1), v0.im)
            elif name in ('operator*', 'operator*='):
                if isinstance(v1, Cplx):
                    raise Unsupported('complex product')
                w = Cplx(fp.mul(s.e, v0.re, v1), fp.mul(s.e, v0.im, v1))
            else:
                raise Unsupported('complex ' + name)
            if name.endswith('='):
                a0.v = w
                return a0
            return w
        raise Unsupported('operator call %s on %r' % (name, v0))

    def builtin(s, name, argn, n):
        e = s.e
        if name in ('sqrt', 'sqrtf'):
            return fp.sqrt(e, s.conv(s.rv(argn[0]), argn[0].ty, 'double'))
        if name in ('sin', 'cos', 'tan'):
            return fp.fn1(e, name, s.conv(s.rv(argn[0]), argn[0].ty, 'double'))
        if name in ('atan', 'asin', 'acos', 'exp', 'log'):
            return fp.fn1(e, {'atan': 'arctan', 'asin': 'arcsin', 'acos': 'arccos'}.get(name, name),
                          s.conv(s.rv(argn[0]), argn[0].ty, 'double'))
        if name in ('abs', 'fabs'):
            v = s.rv(argn[0])
            if isinstance(v, T) and v.sort == I:
                return v if e.branch(tm.le(tm.IZERO, v)) else tm.neg(v)
            return fp.fabs(e, v)
        if name in ('min', 'max', 'fmin', 'fmax'):
            a, b = s.rv(argn[0]), s.rv(argn[1])
            if name in ('fmin', 'fmax'):
                if a is NAN:
                    return b
                if b is NAN:
                    return a
            isint = isinstance(a, T) and a.sort == I
            c = tm.lt(b, a) if isint else fp.lt(e, b, a)
            d = tm.lt(a, b) if isint else fp.lt(e, a, b)
            if name.endswith('min'):
                return b if e.branch(c) else a
            return b if e.branch(d) else a
        if name in ('floor', 'ceil', 'trunc'):
            v = s.conv(s.rv(argn[0]), argn[0].ty, 'double')
            if not isinstance(v, T):
                return v
            if name == 'floor':
                return tm.toreal(tm.floor(v))
            if name == 'ceil':
                return tm.neg(tm.toreal(tm.floor(tm.neg(v))))
            return tm.toreal(s.ftoi(v))
        if name == 'hypot':
            a, b = s.rv(argn[0]), s.rv(argn[1])
            if not (isinstance(a, T) and isinstance(b, T)):
                return NAN
            return tm.sqrt(tm.add(tm.mul(a, a), tm.mul(b, b)))
        if name == 'pow':
            a, b = s.rv(argn[0]), s.rv(argn[1])
            if isinstance(b, T) and tm.isc(b) and tm.cval(b).denominator == 1:
                k = int(tm.cval(b))
                if not isinstance(a, T):
                    return a
                if k < 0:
                    return fp.div(e, tm.ONE, tm.powi(a, -k))
                return tm.powi(a, k)
            if isinstance(b, T) and tm.isc(b) and tm.cval(b) == Fraction(1, 2):
                return fp.sqrt(e, a)
            raise Unsupported('pow')
        if name == 'fma':
            a, b, c = [s.rv(x) for x in argn]
            return fp.add(e, fp.mul(e, a, b), c)
        if name in ('isnan', '__builtin_isnan'):
            v = s.rv(argn[0])
            if v is POISON:
                raise fp.Poisoned()
            return fp.isnan(e, v)
        if name in ('isfinite', '__builtin_isfinite'):
            v = s.rv(argn[0])
            return tm.const(isinstance(v, T)) if v is not fp.ANY else fp._ub()
        if name in ('isinf',):
            v = s.rv(argn[0])
            return fp.isinf(e, v)
        if name in ('__builtin_nan', '__builtin_nanf', 'quiet_NaN', 'nan', 'signaling_NaN'):
            return NAN
        if name in ('infinity', '__builtin_huge_val', '__builtin_inff', '__builtin_huge_valf'):
            return PINF
        if name == 'signbit':
            v = s.rv(argn[0])
            if isinstance(v, T):
                return tm.lt(v, tm.ZERO)
        if name == 'copysign':
            a, b = s.rv(argn[0]), s.rv(argn[1])
            if isinstance(a, T) and isinstance(b, T):
                aa = a if e.branch(tm.le(tm.ZERO, a)) else tm.neg(a)
                return tm.neg(aa) if e.branch(tm.lt(b, tm.ZERO)) else aa
        if name == 'swap':
            a, b = s.ev(argn[0]), s.ev(argn[1])
            a.v, b.v = b.v, a.v
            return None
        if name == 'move' or name == 'forward' or name == 'as_const':
            return s.ev(argn[0])
        if name == 'sort':
            a, b = s.rv(argn[0]), s.rv(argn[1])
            v = a.vec
            items = v.items[a.i:b.i]
            # insertion sort, forking on comparisons
            for i in range(1, len(items)):
                j = i
                while j > 0 and e.branch(fp.lt(e, items[j], items[j - 1])):
                    items[j], items[j - 1] = items[j - 1], items[j]
                    j -= 1
            v.items[a.i:b.i] = items
            return None
        if name in ('make_pair', 'make_tuple'):
            vs = [s.ev(a) for a in argn]
            return Tup([s.copyval(v.v if isinstance(v, (Cell, Elem)) else v) for v in vs])
        if name == 'tie':
            return Tup([s.ev(a) for a in argn], True)
        if name == 'get':
            m = re.search(r'get<(\d+)', s.p.text(n, s.fnstack[-1][0].file))
            v = s.rv(argn[0])
            if m and isinstance(v, Tup):
                return v.items[int(m.group(1))]
            if m and isinstance(v, Arr):
                return Elem(s, v, tm.lit(int(m.group(1)), I))
        if name == 'exchange':
            a = s.ev(argn[0])
            old = a.v
            w = s.copyval(s.rv(argn[1]))
            if isinstance(old, T) and isinstance(w, T) and old.sort == R and w.sort == I:
                w = tm.toreal(w)
            a.v = w
            return old
        if name == 'minmax' and len(argn) == 2:
            a, b = s.rv(argn[0]), s.rv(argn[1])
            isint = isinstance(a, T) and a.sort == I
            return Tup([b, a] if e.branch(tm.lt(b, a) if isint else fp.lt(e, b, a)) else [a, b])
        if name == 'clamp':
            a, lo, hi = [s.rv(q) for q in argn]
            lt = (lambda p, q: tm.lt(p, q)) if isinstance(a, T) and a.sort == I else (lambda p, q: fp.lt(e, p, q))
            return lo if e.branch(lt(a, lo)) else hi if e.branch(lt(hi, a)) else a
        if name == 'advance' and len(argn) == 2:
            a, k = s.ev(argn[0]), s.rv(argn[1])
            if isinstance(a.v, Ptr):
                a.v = Ptr(a.v.arr, tm.add(a.v.off, k))
                return None
        if name == 'distance' and len(argn) == 2:
            return s.binop('-', s.rv(argn[1]), s.rv(argn[0]), 'long', '')
        if name in ('next', 'prev'):
            a = s.rv(argn[0])
            k = s.rv(argn[1]) if len(argn) > 1 and argn[1].k != 'CXXDefaultArgExpr' else tm.IONE
            if isinstance(a, Ptr):
                return Ptr(a.arr, tm.add(a.off, k) if name == 'next' else tm.sub(a.off, k))
        if name in ('begin', 'cbegin', 'end', 'cend', 'size') and len(argn) == 1:
            a = s.rv(argn[0])
            if isinstance(a, Arr):
                return a.length if name == 'size' else Ptr(a) if 'begin' in name else Ptr(a, a.length)
            if isinstance(a, Vec):
                return tm.lit(len(a.items), I) if name == 'size' else It(a, 0 if 'begin' in name else len(a.items))
        f = s.p.stdalg.get((name, len(argn)))
        if f is not None:
            args = [s.ev(a) for a in argn]
            if name == 'accumulate' or name == 'inner_product':
                i0 = args[2 if name == 'accumulate' else 3]
                i0 = i0.v if isinstance(i0, (Cell, Elem)) else i0
                it = args[0].v if isinstance(args[0], (Cell, Elem)) else args[0]
                if isinstance(i0, T) and i0.sort == I and not (isinstance(it, Ptr) and it.arr.ty != 'double'):
                    raise Unsupported('integer accumulation')
            if name in ('upper_bound', 'lower_bound'):
                a, b = [q.v if isinstance(q, (Cell, Elem)) else q for q in args[:2]]
                if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.arr is b.arr):
                    raise Unsupported(name)
                if e.choose(2) == 0:
                    i = tm.fresh('i', I)
                    e.assume(tm.le(a.off, i))
                    e.assume(tm.lt(tm.add(i, tm.IONE), b.off))
                    e.oblige('the range searched by %s is sorted' % name,
                             tm.lnot(fp.lt(e, s.read(a.arr, tm.add(i, tm.IONE)), s.read(a.arr, i))), kind='pre')
                    raise PathEnd()
            return s.callfn(f, args)
        if name in ('printf', 'fprintf', 'abort', 'assert', '__assert_fail'):
            return None
        raise Unsupported('function %s' % name)


def jumps(body):
    """break/return statements that leave the loop with this body"""
    st = [body]
    while st:
        x = st.pop()
        yield x
        if x.k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt', 'SwitchStmt'):
            st.extend(c for c in x.walk() if c.k == 'ReturnStmt')
        elif x.k != 'LambdaExpr':
            st.extend(x.inner)


def members_this(nodes):
    out = set()
    for nd in nodes:
        for x in nd.walk():
            tgt = None
            if x.k == 'BinaryOperator' and x.get('opcode') == '=' or x.k == 'CompoundAssignOperator' or \
                    x.k == 'UnaryOperator' and x.get('opcode') in ('++', '--'):
                tgt = strip(x.inner[0])
            if tgt is not None and tgt.k == 'MemberExpr' and strip(tgt.inner[0]).k == 'CXXThisExpr':
                out.add('this->%s' % tgt.name)
    return out


def name_ok(x):
    return isinstance(x, str)


class Fn_stub:
    def __init__(s, node, p):
        s.node = node
        s.qual = 'global ' + str(node.name)
        s.file = next((f for f in p.files if f.endswith(node.tu)), p.files[0])


def strip(e):
    while e.k in ('ParenExpr', 'ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr',
                  'CXXFunctionalCastExpr') and e.inner:
        e = e.inner[0]
    return e


def asbool(t):
    """recover the boolean from its int image"""
    if isinstance(t, T):
        if t.sort == B:
            return t
        if t.op == 'ite' and tm.isc(t.args[1]) and tm.isc(t.args[2]) and \
                tm.cval(t.args[1]) == 1 and tm.cval(t.args[2]) == 0:
            return t.args[0]
        if tm.isc(t):
            return tm.const(tm.cval(t) != 0)
    return None


def eqv(a, b):
    if isinstance(a, T) and isinstance(b, T):
        if a.sort == B or b.sort == B:
            return a is b
        return tm.same(a, b)
    return a is b


def compat(ty, v):
    if isinstance(v, (Cell, Elem)):
        v = v.v
    if isinstance(v, T):
        return not ty.rstrip('&').strip().endswith('*')
    if isinstance(v, (Ptr, Null, ObjPtr)):
        return ty.rstrip('& ').rstrip('const').strip().endswith('*') or isinstance(v, ObjPtr)
    return True
