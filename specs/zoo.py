"""Specification of every surface class: constructor preconditions, domain, height (the documented
formula), its mechanically derived partial derivatives, and loop invariant candidates."""
import terms as tm
from terms import T, R, I, B, ZERO, ONE, IZERO, IONE
import fp, cxx
from cxx import Arr, Ptr, Cell, ObjPtr, Abs, Fold, Obj
from fp import NAN

add, sub, mul, div, neg, lit = tm.add, tm.sub, tm.mul, tm.div, tm.neg, tm.lit


def v(n):
    return tm.var(n)


def iv(n):
    return tm.var(n, I)


def sq(a):
    return mul(a, a)


def sm(*a):
    r = a[0]
    for x in a[1:]:
        r = add(r, x)
    return r


# ---------------------------------------------------------------- recursive spec functions
def rec(name, base, step):
    tm.RECUR[name] = (base, step)


def ap(f, *a):
    return tm.app(f, a)


# pow(k,a) = a^k, powd = its derivative by the product rule
rec('pow', lambda a: ONE, lambda k, a: mul(ap('pow', k, a), a))
rec('powd', lambda a: ZERO, lambda k, a: add(mul(ap('powd', k, a), a), ap('pow', k, a)))
# even polynomial  asp(k, r2) = sum_{i<k} c_i r2^(i+1), and d/d(r2) of each step (product rule)
CO = 'asphere_coefs'
rec('asp', lambda a: ZERO,
    lambda k, a: add(ap('asp', k, a), mul(ap(CO, k), mul(ap('pow', k, a), a))))
rec('aspd', lambda a: ZERO,
    lambda k, a: add(ap('aspd', k, a), mul(ap(CO, k), add(mul(ap('powd', k, a), a), ap('pow', k, a)))))
# what the code's gradient loop accumulates, as a function of r
rec('aspr', lambda a: ZERO,
    lambda k, a: add(ap('aspr', k, a), mul(mul(ap(CO, k), tm.toreal(add(mul(lit(2, I), k), lit(2, I)))),
                                           ap('pow', k, a))))
# the same sums accumulated from the highest coefficient down (Horner), over n coefficients:
# inner multiplies before adding, outer after; Horner lemma: h(k) q^(n-k) + sum(n-k) = sum(n)
_cd = lambda i: mul(ap(CO, i), tm.toreal(add(mul(lit(2, I), i), lit(2, I))))
_top = lambda n, k: sub(sub(n, IONE), k)
rec('asph', lambda a, n: ZERO, lambda k, a, n: add(mul(ap('asph', k, a, n), a), ap(CO, _top(n, k))))
rec('aspo', lambda a, n: ZERO, lambda k, a, n: mul(add(ap('aspo', k, a, n), ap(CO, _top(n, k))), a))
rec('asprh', lambda a, n: ZERO, lambda k, a, n: add(mul(ap('asprh', k, a, n), a), _cd(_top(n, k))))
rec('aspro', lambda a, n: ZERO, lambda k, a, n: mul(add(ap('aspro', k, a, n), _cd(_top(n, k))), a))
# polynomial in one variable: p1_<arr>(k, x, o) = sum_{i<k} arr[o+i] x^i ; Horner partial results
POLYARRS = ('coefs', 'gradx', 'grady')
for _a in POLYARRS:
    def _mk(a):
        rec('p1_' + a, lambda x, o: ZERO,
            lambda k, x, o: add(ap('p1_' + a, k, x, o), mul(ap(a, add(o, k)), ap('pow', k, x))))
        rec('h1_' + a, lambda x, o, n: ZERO,
            lambda k, x, o, n: add(mul(ap('h1_' + a, k, x, o, n), x),
                                   ap(a, add(o, sub(sub(n, IONE), k)))))
        # two variables: p2(k, x, y, nx) = sum_{i<k} x^i * p1(nx, y, i*nx)
        rec('p2_' + a, lambda x, y, nx: ZERO,
            lambda k, x, y, nx: add(ap('p2_' + a, k, x, y, nx),
                                    mul(ap('pow', k, x), ap('p1_' + a, nx, y, mul(k, nx)))))
        rec('h2_' + a, lambda x, y, nx, ny: ZERO,
            lambda k, x, y, nx, ny: add(mul(ap('h2_' + a, k, x, y, nx, ny), x),
                                        ap('p1_' + a, nx, y, mul(sub(sub(ny, IONE), k), nx))))
    _mk(_a)
# sums over parts
rec('sumsag', lambda x, y: ZERO, lambda k, x, y: add(ap('sumsag', k, x, y), ap('part_sag', k, x, y)))
rec('sumzx', lambda x, y: ZERO, lambda k, x, y: add(ap('sumzx', k, x, y), ap('part_zx', k, x, y)))
rec('sumzy', lambda x, y: ZERO, lambda k, x, y: add(ap('sumzy', k, x, y), ap('part_zy', k, x, y)))


# ---------------------------------------------------------------- differentiation of spec terms
def diff(t, x, memo=None):
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    o = t.op
    if t is x:
        r = ONE
    elif o in ('const', 'var'):
        r = ZERO
    elif o == '+':
        r = add(diff(t.args[0], x, memo), diff(t.args[1], x, memo))
    elif o == '*':
        a, b = t.args
        r = add(mul(diff(a, x, memo), b), mul(a, diff(b, x, memo)))
    elif o == '/':
        a, b = t.args
        r = div(sub(mul(diff(a, x, memo), b), mul(a, diff(b, x, memo))), mul(b, b))
    elif o == 'sqrt':
        d = diff(t.args[0], x, memo)
        r = d if d is ZERO else div(d, mul(lit(2), t))
    elif o == 'toreal':
        r = ZERO
    elif o == 'app' and t.args[0] in DAPP:
        r = DAPP[t.args[0]](t, lambda a: diff(a, x, memo))
    elif o == 'app' and x not in tm.subterms(t):
        r = ZERO
    else:
        raise NotImplementedError('diff ' + tm.show(t))
    memo[t] = r
    return r


# chain rule for the recursive spec functions (argument 1 is the count)
DAPP = {
    'asp': lambda t, d: mul(ap('aspd', *t.args[1:]), d(t.args[2])),
    'part_sag': None, 'sumsag': lambda t, d: add(mul(ap('sumzx', *t.args[1:]), d(t.args[2])),
                                               mul(ap('sumzy', *t.args[1:]), d(t.args[3]))),
}


# ---------------------------------------------------------------- classes
class Spec:
    """symbolic instance: obj (executor object) plus specification closures"""
    fold = None
    contracts = None
    inst = None     # extra instances of lemmas to assume


def darr(name, n):
    return Arr(name, n, const=True)


def nonneg(e, *a):
    for x in a:
        e.assume(tm.le(IZERO, x))


class Zoo:
    name = None

    def pre(s, e):
        """constructor preconditions; sets symbolic parameters"""

    def make(s, x):
        raise NotImplementedError

    def build(s, x):
        o = s.make(x)
        cxx.freeze(x.e, o)
        return o

    def sag(s, X, Y):
        raise NotImplementedError

    def dom(s, X, Y):
        return []

    def domn(s, X, Y):
        """where the normal is defined"""
        return s.dom(X, Y)

    def dsag(s, X, Y):
        t = s.sag(X, Y)
        return diff(t, X), diff(t, Y)

    def fold(s):
        return None

    def contracts(s):
        return {}

    def lemmas(s, X, Y):
        """instances of separately proved lemmas"""
        return []


def r2(X, Y):
    return add(sq(X), sq(Y))


class Plane(Zoo):
    name = 'Plane'

    def make(s, x):
        return x.newobj('Plane', [])

    def sag(s, X, Y):
        return ZERO


class Tilted(Zoo):
    name = 'Tilted'

    def make(s, x):
        s.tx, s.ty = v('tanx'), v('tany')
        return x.newobj('Tilted', [s.tx, s.ty])

    def sag(s, X, Y):
        return add(mul(X, s.tx), mul(Y, s.ty))


class Paraboloid(Zoo):
    name = 'Paraboloid'

    def make(s, x):
        s.R = v('R')
        x.e.assume(tm.ne(s.R, ZERO))
        return x.newobj('Paraboloid', [s.R])

    def sag(s, X, Y):
        return div(r2(X, Y), mul(lit(2), s.R))


class Sphere(Zoo):
    name = 'Sphere'

    def make(s, x):
        s.R = v('R')
        x.e.assume(tm.ne(s.R, ZERO))
        return x.newobj('Sphere', [s.R])

    def sag(s, X, Y):
        return mul(s.R, sub(ONE, tm.sqrt(sub(ONE, div(r2(X, Y), sq(s.R))))))

    def dom(s, X, Y):
        return [tm.le(ZERO, sub(ONE, div(r2(X, Y), sq(s.R))))]

    def domn(s, X, Y):
        return [tm.lt(ZERO, sub(ONE, div(r2(X, Y), sq(s.R))))]


class Quadric(Zoo):
    name = 'Quadric'

    def pars(s, e):
        s.R, s.k = v('R'), v('conic')
        e.assume(tm.ne(s.R, ZERO))

    def make(s, x):
        s.pars(x.e)
        return x.newobj('Quadric', [s.R, s.k])

    def rad(s, X, Y):
        return sub(ONE, mul(add(ONE, s.k), div(r2(X, Y), sq(s.R))))

    def sag(s, X, Y):
        return div(r2(X, Y), mul(s.R, add(ONE, tm.sqrt(s.rad(X, Y)))))

    def dom(s, X, Y):
        return [tm.le(ZERO, s.rad(X, Y))]

    def domn(s, X, Y):
        return [tm.lt(ZERO, s.rad(X, Y))]


class Asphere(Quadric):
    name = 'Asphere'

    def make(s, x):
        s.pars(x.e)
        s.n = iv('size')
        nonneg(x.e, s.n)
        s.arr = darr(CO, s.n)
        old = x.lambda_arrays, x.fold
        x.lambda_arrays = True
        try:
            return x.newobj('Asphere', [s.R, s.k, Ptr(s.arr), s.n])
        finally:
            x.lambda_arrays, x.fold = old

    def sag(s, X, Y):
        return add(Quadric.sag(s, X, Y), ap('asp', s.n, r2(X, Y)))

    def fold_sag(s, X, Y):
        q = r2(X, Y)

        def ex(x, k, t, entry):
            p = ap('pow', k, q)
            b = Quadric.sag(s, X, Y)
            return [add(b, ap('asp', k, q)), p, mul(p, q), ap('asp', k, q), ap('asph', k, q, s.n), ap('aspo', k, q, s.n)]
        return Fold(ex)

    def horner(s, q):
        """Horner's scheme gives the same sums (proved in 'asphere Horner lemma')"""
        a, d = ap('asp', s.n, q), ap('aspr', s.n, q)
        return [tm.eq(mul(ap('asph', s.n, q, s.n), q), a), tm.eq(ap('aspo', s.n, q, s.n), a),
                tm.eq(ap('asprh', s.n, q, s.n), d), tm.eq(ap('aspro', s.n, q, s.n), mul(d, q))]

    def fold_grad(s, r, qd):
        q = sq(r)

        def ex(x, k, t, entry):
            p = ap('pow', k, q)
            g = mul(r, ap('aspr', k, q))
            return [add(qd, g), mul(r, p), p, mul(p, q), mul(mul(r, p), q), g, ap('aspr', k, q),
                    ap('asprh', k, q, s.n), ap('aspro', k, q, s.n)]
        return Fold(ex)


class Poly(Zoo):
    name = 'PolynomialSurface'

    def make(s, x):
        s.x0, s.y0 = v('xorigin'), v('yorigin')
        s.nx, s.ny = iv('xsize'), iv('ysize')
        x.e.assume(tm.le(IONE, s.nx))
        x.e.assume(tm.le(IONE, s.ny))
        gx = mul(sub(s.nx, IONE), sub(s.ny, IONE))
        s.arrs = [darr('coefs', mul(s.nx, s.ny)), darr('gradx', gx), darr('grady', gx)]
        return x.newobj('PolynomialSurface', [Ptr(a) for a in s.arrs] + [s.x0, s.y0, s.nx, s.ny])

    def val(s, a, X, Y, m):
        nx, ny = (s.nx, s.ny) if m == 0 else (sub(s.nx, IONE), sub(s.ny, IONE))
        return ap('p2_' + a, ny, sub(X, s.x0), sub(Y, s.y0), nx)

    def sag(s, X, Y):
        return s.val('coefs', X, Y, 0)

    def dsag(s, X, Y):
        # the gradient arrays given to the constructor are the derivatives' coefficients
        return s.val('gradx', X, Y, 1), s.val('grady', X, Y, 1)

    def contracts(s):
        return {'horner2d': c_horner2d}


def arr_of(p):
    return p.arr.name, p.off


def c_horner2d(x, this, X, Y, p, nx, ny):
    X, Y, p, nx, ny = [getattr(a, 'v', a) if isinstance(a, (Cell, cxx.Elem)) else a for a in (X, Y, p, nx, ny)]
    name, off = arr_of(p)
    x.e.oblige('horner2d: array large enough', tm.land(
        tm.le(IZERO, nx), tm.le(IZERO, ny), tm.eq(off, IZERO),
        tm.le(mul(nx, ny), p.arr.length)), kind='pre')
    return ap('p2_' + name, ny, X, Y, nx)


def c_horner(x, this, X, p, n):
    X, p, n = [getattr(a, 'v', a) if isinstance(a, (Cell, cxx.Elem)) else a for a in (X, p, n)]
    name, off = arr_of(p)
    x.e.oblige('horner: array large enough', tm.land(
        tm.le(IZERO, n), tm.le(IZERO, off), tm.le(add(off, n), p.arr.length)), kind='pre')
    return ap('p1_' + name, n, X, off)


class Sum(Zoo):
    name = 'Sum'

    def make(s, x):
        s.n = iv('nsurf')
        x.e.assume(tm.le(IONE, s.n))
        s.arr = Arr('surfaces', s.n, 'Surface*', base=lambda i: ObjPtr(Abs('Surface', i)), const=True)
        return x.newobj('Sum', [Ptr(s.arr), s.n])

    def sag(s, X, Y):
        return ap('sumsag', s.n, X, Y)

    def contracts(s):
        return {('Surface', 'sag'): part_sag, ('Surface', 'normal'): part_normal,
                ('Surface', 'timeToIntersect'): part_tti}

    def fold_sag(s, X, Y):
        return Fold(lambda x, k, t, en: [ap('sumsag', k, X, Y)])

    def fold_grad(s, X, Y):
        return Fold(lambda x, k, t, en: [neg(ap('sumzx', k, X, Y)), neg(ap('sumzy', k, X, Y)),
                                         ap('sumzx', k, X, Y), ap('sumzy', k, X, Y)])


def val(a):
    return a.v if isinstance(a, (Cell, cxx.Elem)) else a


def part_sag(x, o, X, Y):
    return ap('part_sag', o.ident, val(X), val(Y))


def part_normal(x, o, X, Y, nx, ny, nz):
    """contract of Surface::normal: upward unit normal"""
    X, Y = val(X), val(Y)
    z = ap('part_nz', o.ident, X, Y)
    x.e.assume(tm.lt(ZERO, z))
    nx.v = neg(mul(ap('part_zx', o.ident, X, Y), z))
    ny.v = neg(mul(ap('part_zy', o.ident, X, Y), z))
    nz.v = z


def part_tti(x, o, X, Y, Z, VX, VY, VZ, dt, niter):
    if x.e.choose(2) == 0:
        return tm.FALSE
    dt.v = tm.fresh('guess')
    return tm.TRUE


class Bicubic(Zoo):
    name = 'Bicubic'
    NODE = {'z': 'zs', 'x': 'dzdx', 'y': 'dzdy', 'xy': 'd2zdxdy'}

    def make(s, x):
        s.x0, s.y0, s.dx, s.dy = v('x0'), v('y0'), v('dx'), v('dy')
        s.nx, s.ny = iv('nx'), iv('ny')
        s.nan = tm.var('use_nan', B)
        e = x.e
        e.assume(tm.ne(s.dx, ZERO))
        e.assume(tm.ne(s.dy, ZERO))
        e.assume(tm.le(IONE, s.nx))
        e.assume(tm.le(IONE, s.ny))
        n = mul(s.nx, s.ny)
        s.arrs = [darr(s.NODE[k], n) for k in ('z', 'x', 'y', 'xy')]
        t = x.newobj('Table', [s.x0, s.y0, s.dx, s.dy] + [Ptr(a) for a in s.arrs] + [s.nx, s.ny, s.nan])
        s.table = t
        return x.newobj('Bicubic', [ObjPtr(t)])

    # the documented patch: tensor-product cubic Hermite interpolation of node data
    def cell(s, X, Y):
        return tm.floor(div(sub(X, s.x0), s.dx)), tm.floor(div(sub(Y, s.y0), s.dy))

    def node(s, k, ix, iy):
        return ap(s.NODE[k], add(mul(s.nx, iy), ix))

    def inside(s, ix, iy):
        return tm.land(tm.le(IZERO, ix), tm.lt(ix, sub(s.nx, IONE)), tm.le(IZERO, iy), tm.lt(iy, sub(s.ny, IONE)))

    def patch(s, X, Y, ix, iy):
        u = div(sub(X, add(s.x0, mul(tm.toreal(ix), s.dx))), s.dx)
        w = div(sub(Y, add(s.y0, mul(tm.toreal(iy), s.dy))), s.dy)
        return s.patch_uv(u, w, ix, iy)

    def patch_uv(s, u, w, ix, iy):
        def basis(t):
            t2, t3 = sq(t), mul(t, sq(t))
            H1 = sub(mul(lit(3), t2), mul(lit(2), t3))
            return ((sub(ONE, H1), H1), (add(sub(t, mul(lit(2), t2)), t3), sub(t3, t2)))
        (Hu, Ku), (Hw, Kw) = basis(u), basis(w)
        r = ZERO
        for a in (0, 1):
            for b in (0, 1):
                i, j = add(ix, lit(a, I)), add(iy, lit(b, I))
                r = sm(r, mul(mul(Hu[a], Hw[b]), s.node('z', i, j)),
                       mul(mul(mul(Ku[a], Hw[b]), s.dx), s.node('x', i, j)),
                       mul(mul(mul(Hu[a], Kw[b]), s.dy), s.node('y', i, j)),
                       mul(mul(mul(Ku[a], Kw[b]), mul(s.dx, s.dy)), s.node('xy', i, j)))
        return r


ALL = [Plane, Tilted, Paraboloid, Sphere, Quadric, Asphere, Poly, Sum, Bicubic]
