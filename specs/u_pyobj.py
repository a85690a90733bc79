"""The value classes of the Python part (surfaces, media, coatings, obscurations, CoordSys, Lattice, CoordTransform):
constructors against the constructors of the C++ part, and equality / hash / pickle / printed form (P21)."""
import copy, copyreg, types, itertools
from pw import *

SU, ME, CO, OB = 'batoid/surface.py::', 'batoid/medium.py::', 'batoid/coating.py::', 'batoid/obscuration.py::'


class Galsim:
    """contract of galsim.zernike.Zernike: the polynomial in x, y and its derivatives, as arrays that are functions of the
    coefficients and the radii"""

    class _Z:
        def __init__(s, coef, R_outer=1.0, R_inner=0.0, d=''):
            s.a, s.d = (coef, R_outer, R_inner), d

        @property
        def _coef_array_xy(s):
            c, ro, ri = s.a
            l = [term(x) for x in pysym.oarr(c)] + [term(ro), term(ri)]
            return NP.array([[mk(tm.app('zxy%s_%d_%d%d' % (s.d, len(l), i, j), tuple(l))) for j in range(2)] for i in range(3)])

        @property
        def gradX(s):
            return Galsim._Z(*s.a, d='x')

        @property
        def gradY(s):
            return Galsim._Z(*s.a, d='y')

    class zernike:
        pass


Galsim.zernike.Zernike = Galsim._Z
Galsim.zernike.zernikeBasis = None


def galsim():
    m = types.ModuleType('galsim')
    m.zernike = Galsim.zernike
    return m


def start(u, world=World):
    return begin(u, world, dict(galsim=galsim()))


LAZY = {'R_outer', 'R_inner', 'coords', 'Z'}


def same(u, what, a, b):
    """a and b are the same object up to identity: kinds, parameters, and what was given to the C++ part"""
    if a is b:
        return
    if isinstance(a, PtrTo) and isinstance(b, PtrTo):
        return same(u, what + ', array', a.a, b.a)
    if isinstance(a, CObj) and isinstance(b, CObj):
        u.post(what + ': same class of the C++ part', tm.const(a.cls == b.cls))
        if a.cls == b.cls:
            x, y = list(a.args), list(b.args)
            if a.cls in ('CPPObscUnion', 'CPPObscIntersection') and len(x) == len(y) == 1:
                k = lambda o: getattr(o, 'cls', '')
                x, y = [sorted(x[0], key=k)], [sorted(y[0], key=k)]
            same(u, what + ' %s' % a.cls, x, y)
        return
    if isinstance(a, A) or isinstance(b, A):
        a, b = pysym.toA(a), pysym.toA(b)
        if len(a.dims) != len(b.dims):
            u.post(what + ': as many axes', tm.FALSE)
            return
        for p, q in zip(a.dims, b.dims):
            posts_true(u, what + ': shape', pysym.cmp('==', pysym.dimnum(p), pysym.dimnum(q)))
        ix = []
        for d in a.dims:
            k = intv('ix%d' % len(ix))
            u.assume(tm.le(tm.IZERO, k.v), tm.lt(k.v, tm.wrap(val(pysym.dimnum(d)), I)))
            ix.append(k.v)
        peq(u, what, a.get(*ix), b.get(*ix))
        return
    if isinstance(a, SArr) or isinstance(b, SArr):
        if not (isinstance(a, (SArr, list)) and isinstance(b, (SArr, list))):
            u.post(what + ': an array', tm.FALSE)
            return
        return peq(u, what, a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        u.post(what + ': length', tm.const(len(a) == len(b)))
        for i, (x, y) in enumerate(zip(a, b)):
            same(u, what + '[%d]' % i, x, y)
        return
    if isinstance(a, dict) and isinstance(b, dict):
        u.post(what + ': keys', tm.const(set(a) == set(b)))
        for k in a:
            if k in b:
                same(u, what + '[%r]' % k, a[k], b[k])
        return
    if isinstance(a, (bool, NumB)) or isinstance(b, (bool, NumB)):
        p, q = pysym.boolterm(a), pysym.boolterm(b)
        u.post(what, tm.FALSE if p is None or q is None else tm.iff(p, q))
        return
    if val(a) is not None or val(b) is not None:
        return peq(u, what, a, b)
    if isinstance(a, (str, bytes)) or a is None or b is None or callable(a):
        u.post(what, tm.const(type(a) is type(b) and a == b))
        return
    u.post(what + ': of the same kind', tm.const(type(a) is type(b)))
    if type(a) is not type(b):
        return
    if not hasattr(a, '__dict__'):
        u.post(what, tm.FALSE)
        return
    for k in sorted(set(a.__dict__) | set(b.__dict__)):
        if k in LAZY and not (k in a.__dict__ and k in b.__dict__):
            continue
        if k == 'Z':
            continue
        if (k in a.__dict__) != (k in b.__dict__):
            only = a.__dict__[k] if k in a.__dict__ else b.__dict__[k]
            if k.startswith('_') and not isinstance(only, CObj):
                continue            # a cached value
            u.post(what + '.%s: present in both' % k, tm.FALSE)
            continue
        same(u, what + '.' + k, a.__dict__[k], b.__dict__[k])


def alive(o, p):
    """the memory p points to is held by the object o"""
    import numpy as np
    a = p.a

    def go(x, d=0):
        if isinstance(x, A) or isinstance(a, A):
            if isinstance(x, A) and isinstance(a, A) and x.buf is a.buf:
                return True
        elif isinstance(x, SArr) and isinstance(a, SArr) and (x is a or np.shares_memory(x.view(np.ndarray), a.view(np.ndarray))):
            return True
        if isinstance(x, (list, tuple, dict)) and d < 4:
            return any(go(y, d + 1) for y in (x.values() if isinstance(x, dict) else x))
        return False
    return go(list(o.__dict__.values()))


def reals(*names):
    return [real(n) for n in names]


# ------------------------------------------------------------------ constructors
def ctor(cls, attr, names, cpp=None, call=None):
    """the constructor keeps its parameters under their names and hands them to the C++ constructor in its order"""
    def go(u):
        w, b = start(u)
        p = {n: real('p_' + n) for n in names}
        ways = [lambda: getattr(b, cls)(*p.values()), lambda: getattr(b, cls)(**dict(reversed(list(p.items()))))]
        for f in call(b, p) if call else ways:
            o = f()
            c = o.__dict__[attr]
            u.post('built in the C++ part', tm.const(isinstance(c, CObj) and c.cls == 'CPP' + cls and len(c.args) == len(names)))
            if not (isinstance(c, CObj) and len(c.args) == len(names)):
                raise PathEnd()
            for n, x in zip(cpp or names, c.args):
                peq(u, 'parameter %s is handed over' % n, x, p[n])
            for n in names:
                if n in o.__dict__:
                    peq(u, 'parameter %s is kept' % n, o.__dict__[n], p[n])
    return go


def defaults(cls, attr, given, full):
    def go(u):
        w, b = start(u)
        p = {n: real('p_' + n) for n in given}
        o = getattr(b, cls)(**p)
        c = o.__dict__[attr]
        for x, d in zip(c.args, full):
            peq(u, 'default', x, p[d] if isinstance(d, str) else d)
        u.post('as many parameters', tm.const(len(c.args) == len(full)))
    return go


def six(names, cls):
    def go(u):
        w, b = start(u)
        p = {n: real('p_' + n) for n in names}
        v = list(p.values())
        for f in (lambda: getattr(b, cls)(*v), lambda: getattr(b, cls)(v), lambda: getattr(b, cls)(tuple(v)),
                  lambda: getattr(b, cls)(NP.array(v)), lambda: getattr(b, cls)(**dict(reversed(list(p.items()))))):
            o = f()
            peq(u, 'coefficients are handed over in order', list(o._medium.args), v)
            u.post('built in the C++ part', tm.const(o._medium.cls == 'CPP' + cls))
        u.post('five coefficients are refused', tm.const(isfail(lambda: getattr(b, cls)(*v[:5]), Exception)))
        u.post('no coefficients are refused', tm.const(isfail(lambda: getattr(b, cls)(), ValueError)))
    return go


def u_table(u):
    w, b = start(u)
    n, k = intv('n'), intv('k')
    u.assume(tm.le(tm.IZERO, k.v), tm.lt(k.v, n.v))
    ws, ns = arr('ws', n, lay='any'), arr('ns', n, lay='any')
    o = b.TableMedium(ws, ns)
    c = o._medium
    ok = isinstance(c, CObj) and c.cls == 'CPPTableMedium' and len(c.args) == 3 and all(isinstance(x, PtrTo) for x in c.args[:2])
    u.post('built in the C++ part', tm.const(ok))
    if not ok:
        raise PathEnd()
    peq(u, 'wavelengths are handed over', c.args[0].a.get(k.v), mk(tm.app('ws', (k.v,))))
    peq(u, 'indices are handed over', c.args[1].a.get(k.v), mk(tm.app('ns', (k.v,))))
    peq(u, 'with their number', c.args[2], n)
    u.post('the arrays stay alive', tm.const(alive(o, c.args[0]) and alive(o, c.args[1])))
    ws[k] = real('q')
    peq(u, 'changing the given array later changes nothing', c.args[0].a.get(k.v), mk(tm.app('ws', (k.v,))))


def u_polygon(u):
    w, b = start(u)
    n, k = intv('n'), intv('k')
    u.assume(tm.le(tm.IZERO, k.v), tm.lt(k.v, n.v))
    o = b.ObscPolygon(arr('xs', n, lay='any'), arr('ys', n, lay='any'))
    c = o._obsc
    ok = isinstance(c, CObj) and c.cls == 'CPPObscPolygon' and len(c.args) == 3 and all(isinstance(x, PtrTo) for x in c.args[:2])
    u.post('built in the C++ part', tm.const(ok))
    if not ok:
        raise PathEnd()
    peq(u, 'x vertices are handed over', c.args[0].a.get(k.v), mk(tm.app('xs', (k.v,))))
    peq(u, 'y vertices are handed over', c.args[1].a.get(k.v), mk(tm.app('ys', (k.v,))))
    peq(u, 'with their number', c.args[2], n)
    u.post('the arrays stay alive', tm.const(alive(o, c.args[0]) and alive(o, c.args[1])))


def vectorized(f, *xs):
    """pybind11's py::vectorize: f element by element over the broadcast arguments"""
    xs = [pysym.NP.asarray(x) if isinstance(x, (list, tuple)) else x for x in xs]
    if any(pysym.hasA(x) for x in xs):
        return A.lazy_op(f, [pysym.toA(x) for x in xs], 'b')
    if not any(pysym.isarr(x) and x.ndim for x in xs):
        return f(*[x[()] if pysym.isarr(x) else x for x in xs])
    bs = pysym.NP.broadcast_arrays(*[pysym.NP.asarray(x) for x in xs])
    return pysym.mkarr([f(*[z[ix] for z in bs]) for ix in pysym.RN.ndindex(*bs[0].shape)], bs[0].shape)


def u_contains(u):
    """Obscuration.contains and containsGrid are the C++ ones"""
    class W(World):
        def m_contains(s, o, x, y):             # py::vectorize
            s.seen.append(o)
            f = lambda a, b: pysym.mkb(tm.app('inside', (pysym.lift(a).v, pysym.lift(b).v), B))
            return vectorized(f, x, y)

        def m_CPPObscPolygon_containsGrid(s, o, x, y, out, nx, ny):
            s.grid = (x.a, y.a, out.a, nx, ny)
            oa = out.a
            oa._store(lambda ix: mk(tm.app('inside', (tm.wrap(ix[0], I), tm.wrap(ix[1], I)), B)), None)
    w, b = start(u, W)
    x, y = real('x'), real('y')
    npt, q = intv('npt'), intv('q')
    u.assume(tm.le(tm.IZERO, q.v), tm.lt(q.v, npt.v))
    px, py_ = arr('px', npt, lay='any'), arr('py', npt, lay='any')
    for o in (b.ObscCircle(real('r')), b.ObscAnnulus(real('i'), real('r')), b.ObscRectangle(real('w'), real('h')), b.ObscRay(real('w'), real('t')),
              b.ObscPolygon(arr('xs', 4), arr('ys', 4)), b.ObscNegation(b.ObscCircle(real('r'))), b.ObscUnion([b.ObscCircle(real('r'))]),
              b.ObscIntersection([b.ObscCircle(real('r'))])):
        w.seen = []
        r = o.contains(x, y)
        ok = not pysym.isarr(r) and len(w.seen) > 0 and all(z is o._obsc for z in w.seen)
        u.post('contains asks the C++ part', tm.const(ok))
        if not ok:
            raise PathEnd()
        u.post('about the same point', tm.iff(pysym.boolterm(r), tm.app('inside', (x.v, y.v), B)))
        r = o.contains(px, py_)
        ok = isinstance(r, A) and len(r.dims) == 1 and all(z is o._obsc for z in w.seen)
        u.post('contains takes arrays of points', tm.const(ok))
        if not ok:
            raise PathEnd()
        u.post('about the same points', tm.iff(pysym.boolterm(r.get(q.v)),
                                               tm.app('inside', (tm.app('px', (q.v,)), tm.app('py', (q.v,))), B)))
    nx, ny = intv('nx'), intv('ny')
    i, j = intv('i'), intv('j')
    u.assume(tm.le(tm.IZERO, i.v), tm.lt(i.v, nx.v), tm.le(tm.IZERO, j.v), tm.lt(j.v, ny.v))
    o = b.ObscPolygon(arr('xs', 4), arr('ys', 4))
    out = o.containsGrid(arr('gx', nx, lay='any'), arr('gy', ny, lay='any'))
    gx, gy, ga, n, m = w.grid
    peq(u, 'grid abscissae are handed over', gx.get(i.v), mk(tm.app('gx', (i.v,))))
    peq(u, 'grid ordinates are handed over', gy.get(j.v), mk(tm.app('gy', (j.v,))))
    peq(u, 'number of abscissae', n, nx)
    peq(u, 'number of ordinates', m, ny)
    ok = isinstance(out, A) and len(out.dims) == 2
    u.post('a two-dimensional answer', tm.const(ok))
    if not ok:
        raise PathEnd()
    posts_true(u, 'one row per ordinate', pysym.cmp('==', pysym.dimnum(out.dims[0]), ny))
    posts_true(u, 'one column per abscissa', pysym.cmp('==', pysym.dimnum(out.dims[1]), nx))
    posts_true(u, 'the answer is what the C++ part wrote', tm.iff(pysym.boolterm(out.get(j.v, i.v)), tm.app('inside', (j.v, i.v), B)))


def u_setops(u):
    w, b = start(u)
    o1, o2, o3 = b.ObscCircle(real('r')), b.ObscRay(real('w'), real('t')), b.ObscRectangle(real('a'), real('h'))
    n = b.ObscNegation(o1)
    u.post('negation: of the original', tm.const(n._obsc.cls == 'CPPObscNegation' and len(n._obsc.args) == 1 and n._obsc.args[0] is o1._obsc and n.original is o1))
    for cl in ('ObscUnion', 'ObscIntersection'):
        for its in itertools.permutations((o1, o2, o3), 2):
            for f in (lambda: getattr(b, cl)(list(its)), lambda: getattr(b, cl)(*its), lambda: getattr(b, cl)(tuple(its))):
                o = f()
                l = list(o._obsc.args[0]) if len(o._obsc.args) == 1 else []
                u.post(cl + ': of all the parts', tm.const(o._obsc.cls == 'CPP' + cl and len(l) == 2 and {id(x) for x in l} == {id(x._obsc) for x in its}))
                u.post(cl + ': keeps the parts', tm.const(len(o.items) == 2 and {id(x) for x in o.items} == {id(x) for x in its}))
        o = getattr(b, cl)(o1)
        u.post(cl + ': of one part', tm.const(list(o._obsc.args[0]) == [o1._obsc]))
        u.post(cl + ': of no parts is refused', tm.const(isfail(lambda: getattr(b, cl)(), ValueError)))
        u.post(cl + ': of something else is refused', tm.const(isfail(lambda: getattr(b, cl)(3), TypeError) and isfail(lambda: getattr(b, cl)([o1, 3]), TypeError)))


def u_asphere(imin, nc):
    def go(u):
        w, b = start(u)
        R_, k = real('R'), real('k')
        cs = [real('c%d' % i) for i in range(nc)]
        for given in ((cs, NP.array(cs)) if nc else (cs,)):
            o = b.Asphere(R_, k, given) if imin == 2 else b.Asphere(R_, k, given, imin=imin)
            c = o._surface
            ok = isinstance(c, CObj) and c.cls == 'CPPAsphere' and len(c.args) == 4 and isinstance(c.args[2], PtrTo)
            u.post('built in the C++ part', tm.const(ok))
            if not ok:
                raise PathEnd()
            peq(u, 'radius', c.args[0], R_)
            peq(u, 'conic', c.args[1], k)
            # the polynomial is the sum over i of C[i] r^(2 i + 4), C starting at power 4 of the documented alpha_i r^(2 i) with i from imin
            peq(u, 'coefficients, lower ones zero', c.args[2].a, [0.0] * (imin - 1) + cs)
            peq(u, 'their number', c.args[3], imin - 1 + nc)
            u.post('the coefficient array stays alive', tm.const(alive(o, c.args[2])))
            peq(u, 'kept: R', o.R, R_)
            peq(u, 'kept: conic', o.conic, k)
        for bad, e in ((lambda: b.Asphere(R_, k, cs, imin=0), ValueError), (lambda: b.Asphere(R_, k, cs, imin=-1), ValueError),
                       (lambda: b.Asphere(R_, k, cs, imin=1.5), TypeError), (lambda: b.Asphere(R_, k, ['a']), TypeError)):
            u.post('malformed parameters are refused', tm.const(isfail(bad, e)))
    return go


def u_sum(u):
    w, b = start(u)
    s1, s2 = b.Sphere(real('R')), b.Tilted(real('a'), real('c'))
    for f in (lambda: b.Sum([s1, s2]), lambda: b.Sum(s1, s2), lambda: s1 + s2, lambda: b.Sum((s1, s2))):
        o = f()
        c = o._surface
        u.post('the sum of the surfaces given', tm.const(isinstance(c, CObj) and c.cls == 'CPPSum' and len(c.args) == 1 and len(c.args[0]) == 2
                                                         and c.args[0][0] is s1._surface and c.args[0][1] is s2._surface))
        u.post('keeps them', tm.const(len(o.surfaces) == 2 and o.surfaces[0] is s1 and o.surfaces[1] is s2))


def u_zernike(u):
    w, b = start(u)
    cs = [real('c%d' % i) for i in range(3)]
    ro, ri, x0, y0 = reals('ro', 'ri', 'x0', 'y0')
    for o, (a, r, x, y) in ((b.Zernike(cs, ro, ri, x0, y0), (ro, ri, x0, y0)), (b.Zernike(NP.array(cs), R_inner=ri, R_outer=ro), (ro, ri, 0, 0)),
                            (b.Zernike(cs), (1, 0, 0, 0))):
        c = o._surface
        ok = isinstance(c, CObj) and c.cls == 'CPPPolynomialSurface' and len(c.args) == 7 and all(isinstance(q, PtrTo) for q in c.args[:3])
        u.post('built in the C++ part', tm.const(ok))
        if not ok:
            raise PathEnd()
        Z = Galsim._Z(cs, a, r)
        for nm, q, z in zip(('sag', 'slope in x', 'slope in y'), c.args, (Z, Z.gradX, Z.gradY)):
            peq(u, 'the polynomial of the ' + nm, q.a, z._coef_array_xy)
            u.post('the array stays alive', tm.const(alive(o, q)))
        peq(u, 'x origin', c.args[3], x)
        peq(u, 'y origin', c.args[4], y)
        peq(u, 'rows', c.args[5], 3)
        peq(u, 'columns', c.args[6], 2)


def u_bicubic(pol, der):
    def go(u):
        w, b = start(u)
        nx, ny = intv('nx'), intv('ny')
        u.assume(tm.le(tm.lit(3, I), nx.v), tm.le(tm.lit(3, I), ny.v))
        i, j = intv('i'), intv('j')
        u.assume(tm.le(tm.IZERO, i.v), tm.lt(i.v, nx.v), tm.le(tm.IZERO, j.v), tm.lt(j.v, ny.v))
        X = lambda k: mk(tm.app('xs', (tm.wrap(k, I),)))
        Y = lambda k: mk(tm.app('ys', (tm.wrap(k, I),)))
        last = lambda n: tm.sub(n.v, tm.IONE)
        u.assume(tm.lt(term(X(0)), term(X(last(nx)))), tm.lt(term(Y(0)), term(Y(last(ny)))))
        kw = dict(nanpolicy=pol) if pol else {}
        if der:
            kw.update(dzdxs=arr('zx', ny, nx, lay='F'), dzdys=arr('zy', ny, nx, lay='any'), d2zdxdys=arr('zxy', ny, nx, lay='any'))
        o = b.Bicubic(arr('xs', nx, lay='any'), arr('ys', ny, lay='any'), arr('zs', ny, nx, lay='any'), **kw)
        sf = o._surface
        ok = sf.cls == 'CPPBicubic' and len(sf.args) == 1 and isinstance(sf.args[0], CObj) and sf.args[0].cls == 'CPPTable' and len(sf.args[0].args) == 11
        t = sf.args[0] if ok else None
        u.post('built in the C++ part', tm.const(ok))
        if not ok:
            raise PathEnd()
        a = t.args
        peq(u, 'first x', a[0], X(0))
        peq(u, 'first y', a[1], Y(0))
        peq(u, 'step in x', mul(a[2], sub(nx, 1)), sub(X(last(nx)), X(0)))
        peq(u, 'step in y', mul(a[3], sub(ny, 1)), sub(Y(last(ny)), Y(0)))
        z = lambda n: mk(tm.app(n, (j.v, i.v)))
        peq(u, 'grid values', a[4].a.get(j.v, i.v), z('zs'))
        if der:
            for q, n in zip(a[5:8], ('zx', 'zy', 'zxy')):
                peq(u, 'derivatives given: ' + n, q.a.get(j.v, i.v), z(n))
        else:
            # central differences inside, one-sided at the ends
            Zs = lambda r, c: mk(tm.app('zs', (r, c)))

            def diff(f, k, n, h):
                k0 = tm.IZERO
                if u.e.branch(tm.eq(k, k0)):
                    return div(sub(f(tm.IONE), f(k0)), h)
                if u.e.branch(tm.eq(k, last(n))):
                    return div(sub(f(k), f(tm.sub(k, tm.IONE))), h)
                return div(sub(f(tm.add(k, tm.IONE)), f(tm.sub(k, tm.IONE))), mul(2, h))
            dx, dy = a[2], a[3]
            peq(u, 'slope in x', a[5].a.get(j.v, i.v), diff(lambda c: Zs(j.v, c), i.v, nx, dx))
            peq(u, 'slope in y', a[6].a.get(j.v, i.v), diff(lambda r: Zs(r, i.v), j.v, ny, dy))
            peq(u, 'twist', a[7].a.get(j.v, i.v), diff(lambda c: a[6].a.get(j.v, c), i.v, nx, dx))
        peq(u, 'columns', a[8], nx)
        peq(u, 'rows', a[9], ny)
        u.post('outside: not a number or zero, as chosen', tm.const(a[10] is ((pol or 'nan').upper() == 'NAN')))
        for q in a[4:8]:
            u.post('the grids are handed over row by row', tm.const(q.a.lay == 'C'))
            u.post('the arrays stay alive', tm.const(alive(o, q)))
    return go


def u_plane(u):
    w, b = start(u)
    o = b.Plane()
    u.post('built in the C++ part', tm.const(isinstance(o._surface, CObj) and o._surface.cls == 'CPPPlane' and o._surface.args == ()))
    u.post('no other policies', tm.const(isfail(lambda: b.Bicubic(arr('x', 3), arr('y', 3), arr('z', 3, 3), nanpolicy='other'), Exception)))


def bounded(d, t):
    d.bounded = t
    return d


def surfaces():
    S = lambda c: [SU + c + '.__init__']
    us = [punit('construction of ' + c, S(c), ctor(c, '_surface', n)) for c, n in (
        ('Tilted', ['tanx', 'tany']), ('Paraboloid', ['R']), ('Sphere', ['R']), ('Quadric', ['R', 'conic']))]
    us.append(punit('construction of Plane', S('Plane'), u_plane))
    us.append(punit('construction of Sum', S('Sum') + [SU + 'Surface.__add__'], u_sum))
    us += [bounded(punit('construction of Asphere (imin %d, %d coefficients)' % (i, n), S('Asphere'), u_asphere(i, n)), '%d coefficients' % n)
           for i, n in ((2, 3), (2, 0), (1, 2), (3, 1))]
    us.append(bounded(punit('construction of Zernike', S('Zernike'), u_zernike), '3 coefficients'))
    for pol in (None, 'zero', 'NaN'):
        us.append(punit('construction of Bicubic%s' % (', policy %s' % pol if pol else ''), S('Bicubic'), u_bicubic(pol, pol is not None)))
    return us


def every(b):
    s1, s2 = b.Sphere(real('R')), b.Tilted(real('a'), real('c'))
    return [b.Plane(), s2, b.Paraboloid(real('R')), s1, b.Quadric(real('R'), real('k')), b.Asphere(real('R'), real('k'), [real('c0')]),
            b.Zernike([real('c0'), real('c1')]), b.Sum([s1, s2])]


def u_sagpy(u):
    class W(World):
        def m_sag(s, o, x, y):
            s.seen = (o, x, y)
            return 'answer'
    w, b = start(u, W)
    x, y = real('x'), real('y')
    n = intv('n')
    for o in every(b):
        for p, q in ((x, y), (arr('x', n), arr('y', n))):
            r = o.sag(p, q)
            u.post('the sag is the C++ one at the points given', tm.const(r == 'answer' and w.seen[0] is o._surface and w.seen[1] is p and w.seen[2] is q))


class NWorld(World):
    """contract of CPPSurface.normal: for i < size, out[i], out[i + size], out[i + 2 size] become the normal at x[i], y[i]
    (positions in memory)"""

    def m_normal(s, o, x, y, size, out):
        u, w = s.u, s
        x, y, out = x.a, y.a, out.a
        xa, ya, oa = pysym.toA(x), pysym.toA(y), pysym.toA(out)
        posts_true(u, 'as many points as the arrays have', pysym.cmp('==', size, xa.size))
        n = len(xa.dims)
        lay = lambda a, l: tm.const(len(a.dims) == 1 or not isinstance(a, A) or a.lay == l)
        last = len(oa.dims) == n + 1 and oa.dims[-1] == 3 and (oa.lay == 'F' or not isinstance(out, A))
        first = not last and len(oa.dims) == n + 1 and oa.dims[0] == 3
        ok = len(ya.dims) == n and (last or first)
        u.post('room for three numbers per point', tm.const(bool(ok)))
        if not ok:
            raise PathEnd()
        if not isinstance(x, A) and isinstance(out, SArr):
            u.post('one point', tm.const(out.size == 3 and x.size == 1))
            if out.size != 3:
                raise PathEnd()
            for c in range(3):
                out[(0,) * (out.ndim - 1) + (c,) if last else (c,) + (0,) * (out.ndim - 1)] = s.nrm(o, c, x.ravel()[0], y.ravel()[0])
            return
        want = 'F' if last else 'C'
        for a in (xa, ya):
            u.post('points in the order of the results', lay(a, want))
        u.post('three numbers per point, apart by the number of points', tm.const(oa.lay == want))
        for p, q, r in zip(xa.dims, ya.dims, oa.dims[:-1] if last else oa.dims[1:]):
            posts_true(u, 'shapes agree', pysym.cmp('==', pysym.dimnum(p), pysym.dimnum(q)))
            posts_true(u, 'shapes agree', pysym.cmp('==', pysym.dimnum(p), pysym.dimnum(r)))
        f, g = xa.snap(), ya.snap()

        def put(ix):
            c, jx = (ix[-1], ix[:-1]) if last else (ix[0], ix[1:])
            c = pysym.cidx(c)
            if c is None:
                raise Unsupported('component of a normal')
            return s.nrm(o, c, f(jx), g(jx))
        out._store(put, None)

    def nrm(s, o, c, x, y):
        return mk(tm.app('normal%d' % c, (term(x), term(y))))


def u_normalpy(u):
    w, b = start(u, NWorld)
    x, y = real('x'), real('y')
    n, m, i, j = intv('n'), intv('m'), intv('i'), intv('j')
    u.assume(tm.le(tm.IZERO, i.v), tm.lt(i.v, n.v), tm.le(tm.IZERO, j.v), tm.lt(j.v, m.v))
    for o in every(b)[:3]:
        r = o.normal(x, y)
        ok = isinstance(r, SArr) and r.shape == (3,)
        u.post('one point, one vector', tm.const(ok))
        if ok:
            peq(u, 'the normal at one point', list(r), [w.nrm(o, c, x, y) for c in range(3)])
        for kd in 'fi':
            el = lambda nm, *ix: mk(tm.toreal(tm.app(nm + kd, tuple(ix), R if kd == 'f' else I)))
            for lay in ('C', 'any'):
                r = o.normal(arr('x' + kd, n, kind=kd, lay=lay), arr('y' + kd, n, kind=kd, lay=lay))
                ok = isinstance(r, A) and len(r.dims) == 2 and r.dims[1] == 3
                u.post('one vector per point', tm.const(bool(ok)))
                if ok:
                    posts_true(u, 'as many vectors as points', pysym.cmp('==', pysym.dimnum(r.dims[0]), n))
                    peq(u, 'the normal at point i', [r.get(i.v, c) for c in range(3)], [w.nrm(o, c, el('x', i.v), el('y', i.v)) for c in range(3)])
            for l1, l2 in (('C', 'C'), ('F', 'C'), ('any', 'F')):
                r = o.normal(arr('x' + kd, n, m, kind=kd, lay=l1), arr('y' + kd, n, m, kind=kd, lay=l2))
                ok = isinstance(r, A) and len(r.dims) == 3 and r.dims[2] == 3
                u.post('one vector per point of a grid', tm.const(bool(ok)))
                if ok:
                    peq(u, 'the normal at point (i, j)', [r.get(i.v, j.v, c) for c in range(3)],
                        [w.nrm(o, c, el('x', i.v, j.v), el('y', i.v, j.v)) for c in range(3)])


def py_sag():
    return [punit('Surface.sag', [SU + 'Surface.sag'], u_sagpy)]


def py_normal():
    return [punit('Surface.normal', [SU + 'Surface.normal'], u_normalpy)]


def media():
    M = lambda c: [ME + c + '.__init__']
    us = [punit('construction of ' + c, M(c), ctor(c, '_medium', n)) for c, n in (
        ('ConstMedium', ['n']), ('Air', ['pressure', 'temperature', 'h2o_pressure']))]
    us.append(punit('construction of Air by default', M('Air'), defaults('Air', '_medium', [], [69.328, 293.15, 1.067])))
    us.append(punit('construction of SellmeierMedium', M('SellmeierMedium'), six(['B1', 'B2', 'B3', 'C1', 'C2', 'C3'], 'SellmeierMedium')))
    us.append(punit('construction of SumitaMedium', M('SumitaMedium'), six(['A%d' % i for i in range(6)], 'SumitaMedium')))
    us.append(punit('construction of TableMedium', M('TableMedium'), u_table))
    us.append(punit('Medium.getN', [ME + 'Medium.getN'], u_getn))
    return us


def u_getn(u):
    class W(World):
        def m_getN(s, o, x):
            s.seen = (o, x)
            return 'answer'
    w, b = start(u, W)
    x = real('x')
    for o in (b.ConstMedium(real('n')), b.Air(), b.SellmeierMedium(*reals(*'abcdef')), b.SumitaMedium(*reals(*'abcdef')), b.TableMedium(arr('w', 3), arr('n', 3))):
        r = o.getN(x)
        u.post('the index is the C++ one at the wavelength given', tm.const(r == 'answer' and w.seen[0] is o._medium and w.seen[1] is x))


def coatings():
    class W(World):
        def _get(s, o, *a):
            s.seen = (o,) + a
            return s.ans
        m_getCoefs = m_getReflect = m_getTransmit = _get

    def go(u):
        w, b = start(u, W)
        o = b.SimpleCoating(real('r'), real('t'))
        x, c = real('x'), real('c')
        for f in ('getCoefs', 'getReflect', 'getTransmit'):
            w.ans = object()
            r = getattr(o, f)(x, c)
            cl = [q for q in w.calls if q[0] == 'm'][-1]
            u.post(f + ' is the C++ one', tm.const(r is w.ans and cl[2] == f and w.seen[0] is o._coating and w.seen[1] is x and w.seen[2] is c))
    return [punit('construction of SimpleCoating', [CO + 'SimpleCoating.__init__'], ctor('SimpleCoating', '_coating', ['reflectivity', 'transmissivity'])),
            punit('Coating.getCoefs, getReflect, getTransmit', [CO + 'Coating.' + f for f in ('getCoefs', 'getReflect', 'getTransmit')], go)]


def obscurations():
    O = lambda c: [OB + c + '.__init__']
    D = [('ObscCircle', ['radius'], ['x', 'y']), ('ObscAnnulus', ['inner', 'outer'], ['x', 'y']), ('ObscRectangle', ['width', 'height'], ['x', 'y', 'theta']),
         ('ObscRay', ['width', 'theta'], ['x', 'y'])]
    us = [punit('construction of ' + c, O(c), ctor(c, '_obsc', n + o)) for c, n, o in D]
    us += [punit('construction of %s by default' % c, O(c), defaults(c, '_obsc', n, n + [0.0] * len(o))) for c, n, o in D]
    us.append(punit('construction of ObscPolygon', O('ObscPolygon'), u_polygon))
    us.append(bounded(punit('construction of negation, union, intersection', O('ObscNegation') + O('ObscUnion') + O('ObscIntersection'), u_setops), 'at most two parts'))
    us.append(punit('Obscuration.contains, ObscPolygon.containsGrid', [OB + 'Obscuration.contains', OB + 'ObscPolygon.containsGrid'], u_contains))
    return us


# ------------------------------------------------------------------ P21
def names(pre, *n):
    return {k: real(pre + k) for k in n}


def flt(*n):
    return lambda b, pre: names(pre, *n)


def arrs(**shapes):
    return lambda b, pre: {k: arr(pre + k, *s) for k, s in shapes.items()}


def csys(b, pre):
    return b.CoordSys(vec(pre + 'o'), mat(pre + 'r'))


def opt(*n):
    """parameters, each zero or anything"""
    return lambda b, pre: names(pre, *n)


# kind, parameters (name -> value), further label
KINDS = [
    ('Plane', flt(), ''), ('Tilted', flt('tanx', 'tany'), ''), ('Paraboloid', flt('R'), ''), ('Sphere', flt('R'), ''), ('Quadric', flt('R', 'conic'), ''),
    ('Asphere', lambda b, p: dict(names(p, 'R', 'conic'), coefs=[real(p + 'c0'), real(p + 'c1')], imin=2), ' list'),
    ('Asphere', lambda b, p: dict(names(p, 'R', 'conic'), coefs=arr(p + 'c', 2), imin=1), ' array'),
    ('Asphere', lambda b, p: dict(names(p, 'R', 'conic'), coefs=(real(p + 'c0'),), imin=3), ' tuple'),
    ('Zernike', lambda b, p: dict(coef=arr(p + 'c', 3), **names(p, 'R_outer', 'R_inner', 'x_origin', 'y_origin')), ''),
    ('Bicubic', lambda b, p: dict(xs=arr(p + 'xs', 3), ys=arr(p + 'ys', 2), zs=arr(p + 'zs', 2, 3), dzdxs=arr(p + 'zx', 2, 3), dzdys=arr(p + 'zy', 2, 3),
                                  d2zdxdys=arr(p + 'zxy', 2, 3), nanpolicy='nan'), ''),
    ('Bicubic', lambda b, p: dict(xs=arr(p + 'xs', 2), ys=arr(p + 'ys', 2), zs=arr(p + 'zs', 2, 2), dzdxs=arr(p + 'zx', 2, 2), dzdys=arr(p + 'zy', 2, 2),
                                  d2zdxdys=arr(p + 'zxy', 2, 2), nanpolicy='zero'), ' zero'),
    ('Sum', lambda b, p: dict(_=[b.Sphere(real(p + 'R')), b.Tilted(real(p + 'a'), real(p + 'b'))]), ''),
    ('ConstMedium', flt('n'), ''), ('TableMedium', arrs(wavelengths=(2,), ns=(2,)), ''),
    ('SellmeierMedium', flt('B1', 'B2', 'B3', 'C1', 'C2', 'C3'), ''), ('SumitaMedium', flt('A0', 'A1', 'A2', 'A3', 'A4', 'A5'), ''),
    ('Air', flt('pressure', 'temperature', 'h2o_pressure'), ''), ('SimpleCoating', flt('reflectivity', 'transmissivity'), ''),
    ('ObscCircle', flt('radius', 'x', 'y'), ''), ('ObscAnnulus', flt('inner', 'outer', 'x', 'y'), ''),
    ('ObscRectangle', flt('width', 'height', 'x', 'y', 'theta'), ''), ('ObscRay', flt('width', 'theta', 'x', 'y'), ''),
    ('ObscPolygon', arrs(xs=(3,), ys=(3,)), ''),
    ('ObscNegation', lambda b, p: dict(original=b.ObscCircle(real(p + 'r'), real(p + 'x'), real(p + 'y'))), ''),
    ('ObscUnion', lambda b, p: dict(_=[b.ObscRay(real(p + 'w'), real(p + 't')), b.ObscCircle(real(p + 'r'))]), ''),
    ('ObscIntersection', lambda b, p: dict(_=[b.ObscRay(real(p + 'w'), real(p + 't')), b.ObscCircle(real(p + 'r'))]), ''),
    ('CoordSys', lambda b, p: dict(origin=vec(p + 'o'), rot=mat(p + 'r')), ''),
    ('Lattice', arrs(array=(2, 1), primitiveVectors=(2, 2)), ''), ('Lattice', arrs(array=(3,), primitiveVectors=(1, 1)), ' 1d'),
    ('CoordTransform', lambda b, p: {'_from': csys(b, p + 'f'), '_to': csys(b, p + 't')}, ''),
]


def make(b, kind, p):
    pos = [v for k, v in p.items() if k.startswith('_')]
    if pos:
        return getattr(b, kind)(*pos)
    return getattr(b, kind)(**p)


def eqterm(p, q):
    """all parameters are equal"""
    if isinstance(p, dict):
        return tm.land(*[eqterm(p[k], q[k]) for k in p]) if p else tm.TRUE
    if isinstance(p, (SArr, list, tuple)):
        x, y = list(pysym.oarr(p).ravel()) if isinstance(p, SArr) else list(p), list(pysym.oarr(q).ravel()) if isinstance(q, SArr) else list(q)
        return tm.land(*[eqterm(s, t) for s, t in zip(x, y)]) if len(x) == len(y) else tm.FALSE
    if val(p) is not None:
        return tm.eq(tm.toreal(val(p)), tm.toreal(val(q)))
    if isinstance(p, str):
        return tm.const(p == q)
    # an object: by its own parameters
    d = [(k, v) for k, v in p.__dict__.items() if not isinstance(v, (CObj,)) and k not in ('dr', 'drot')]
    return tm.land(*[eqterm(v, q.__dict__[k]) for k, v in d])


def dup(v):
    if isinstance(v, dict):
        return {k: dup(x) for k, x in v.items()}
    if isinstance(v, SArr):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return type(v)(dup(x) for x in v)
    return v


def pickled(x, memo=None):
    """what a trip through pickle makes of x (object.__reduce_ex__ is CPython's own)"""
    if x is None or isinstance(x, (str, bytes, bool, int, float, NumB, type, types.FunctionType)) or val(x) is not None:
        return x
    if isinstance(x, (SArr, A)):
        return x.copy()
    if isinstance(x, list):
        return [pickled(y) for y in x]
    if isinstance(x, tuple):
        return tuple(pickled(y) for y in x)
    if isinstance(x, dict):
        return {pickled(k): pickled(v) for k, v in x.items()}
    if isinstance(x, (CObj, PtrTo)) or not type(x).__module__.startswith('batoid'):
        raise TypeError('cannot pickle %r' % type(x).__name__)
    r = x.__reduce_ex__(2)
    f, args = r[0], r[1]
    o = f(*pickled(args))
    if len(r) > 2 and r[2] is not None:
        st = pickled(r[2])
        if hasattr(o, '__setstate__'):
            o.__setstate__(st)
        else:
            o.__dict__.update(st)
    if any(z is not None for z in r[3:]):
        raise Unsupported('pickling with items')
    return o


def agree(u, what, a, b):
    """a and b are equal, both ways round, and hash alike"""
    for s, (x, y) in (('', (a, b)), (' (the other way round)', (b, a))):
        posts_true(u, what + ': equal' + s, x == y)
        posts_true(u, what + ': not unequal' + s, pysym.inv(x != y))
    if not isinstance(type(a).__hash__, type(None)):
        h, g = pysym.shash(a), pysym.shash(b)
        u.post(what + ': equal hashes', hasheq(h, g))


def hasheq(h, g):
    """term: the hashes are equal"""
    def go(x, y):
        if isinstance(x, pysym.H):
            x = x.k
        if isinstance(y, pysym.H):
            y = y.k
        if isinstance(x, tuple) and isinstance(y, tuple):
            return tm.land(*[go(p, q) for p, q in zip(x, y)]) if len(x) == len(y) else tm.FALSE
        a, b = val(x), val(y)
        if a is not None and b is not None:
            return tm.eq(tm.toreal(a), tm.toreal(b)) if isinstance(a, T) and isinstance(b, T) else tm.const(a is b)
        return tm.const(type(x) is type(y) and x == y)
    return go(h, g)


def hashable(kind):
    return True


def u_value(kind, par, lab):
    def go(u):
        w, b = start(u)
        if kind == 'Bicubic':
            # the grid has an extent
            for pre in 'pq':
                for c in 'xy':
                    n = [x for x in arr(pre + c + 's', 3 if c == 'x' and lab == '' else 2)]
                    u.assume(tm.ne(term(n[0]), term(n[-1])))
        p, q = par(b, 'p'), par(b, 'q')
        a, a2, c = make(b, kind, p), make(b, kind, dup(p)), make(b, kind, q)
        agree(u, 'same definition', a, a2)
        agree(u, 'the same object', a, a)
        e = eqterm(p, q)
        for s, (x, y) in (('', (a, c)), (' (the other way round)', (c, a))):
            t = pysym.boolterm(x == y)
            u.post('a truth value', tm.const(t is not None))
            if t is not None:
                u.post('equal exactly when all parameters are' + s, tm.iff(t, e))
            t = pysym.boolterm(x != y)
            u.post('a truth value', tm.const(t is not None))
            if t is not None:
                u.post('!= is the opposite of ==' + s, tm.iff(t, tm.lnot(e)))
        u.post('equal parameters, equal hashes', tm.implies(e, hasheq(pysym.shash(a), pysym.shash(c))))
        for x in (None, 1, 'x', (), real('z')):
            for y in (a == x, x == a, pysym.inv(a != x)):
                u.post('not equal to anything else', tm.const(y is False or y is NotImplemented))
    return go


def u_pickle(kind, par, lab):
    def go(u):
        w, b = start(u)
        if kind == 'Bicubic':
            for c in 'xy':
                n = [x for x in arr('p' + c + 's', 3 if c == 'x' and lab == '' else 2)]
                u.assume(tm.ne(term(n[0]), term(n[-1])))
        p = par(b, 'p')
        a = make(b, kind, p)
        for nm, f in (('pickle', lambda: pickled(a)), ('pickle twice', lambda: pickled(pickled(a))), ('copy', lambda: copy.copy(a)),
                      ('deepcopy', lambda: copy.deepcopy(a))):
            n = f()
            u.post(nm + ' makes an object of the same kind', tm.const(type(n) is type(a)))
            if type(n) is type(a):
                agree(u, nm, a, n)
                same(u, nm + ' gives the same definition', n, a)
        if kind == 'CoordTransform':
            return
        s = repr(a)
        ns = {k: getattr(b, k) for k, _, _ in KINDS}
        ns.update(S_=pysym.fromreg, array=NP.array, nan=NP.nan, inf=NP.inf)
        n = eval(pysym_src(s), ns)
        u.post('the printed form evaluates to the same kind', tm.const(type(n) is type(a)))
        if type(n) is type(a):
            agree(u, 'the printed form', a, n)
            same(u, 'the printed form gives the same definition', n, a)
    return go


def pysym_src(s):
    return s


def u_kinds(u):
    """no two kinds are equal, whatever the parameters"""
    w, b = start(u)
    os_, seen = [], set()
    for kind, par, lab in KINDS:
        if kind in ('Bicubic',) or kind in seen:
            continue
        seen.add(kind)
        os_.append(make(b, kind, par(b, 'p_')))
    s = real('p_R')
    os_ += [b.Asphere(s, 0.0, []), b.ObscUnion([b.ObscCircle(s)]), b.ObscIntersection([b.ObscCircle(s)]), b.ObscNegation(b.ObscCircle(s)), b.Sum([b.Sphere(s)]),
            b.Sum([b.Plane()])]
    bad = []
    for i, x in enumerate(os_):
        for j, y in enumerate(os_):
            if type(x) is type(y):
                continue
            u.post('different kinds are never equal', tm.const((x == y) is False and (x != y) is True))


def u_sets(u):
    """unions and intersections: any order of the parts; parts known by the contract of an obscuration (equality is an
    equivalence, equal parts hash and print alike)"""
    w, b = start(u)

    class P(b.obscuration.Obscuration):
        def __init__(s, n):
            s.n, s._obsc = n, CObj(w, 'part', (n,))

        def __eq__(s, o):
            return type(o) is P and s.n == o.n

        def __hash__(s):
            return hash(('P', s.n))

        def __repr__(s):
            return 'P(%r)' % s.n
    L = ['b', 'a', 'c']
    for cl in (b.ObscUnion, b.ObscIntersection):
        ls = [l for n in (1, 2, 3) for l in itertools.product(L, repeat=n)]
        os_ = [(l, cl([P(x) for x in l])) for l in ls]
        for l, x in os_:
            for m, y in os_:
                if abs(len(l) - len(m)) > 1:
                    continue
                e = x == y
                u.post('equal exactly when the parts are, in any order', tm.const(bool(e) == (sorted(l) == sorted(m)) and bool(x != y) == (not e)))
                if e:
                    u.post('equal ones hash alike', hasheq(pysym.shash(x), pysym.shash(y)))
    for x in L:
        u.post('a union is not an intersection', tm.const(not (b.ObscUnion([P(x)]) == b.ObscIntersection([P(x)]))))
        u.post('a negation is not the part', tm.const(not (b.ObscNegation(P(x)) == P(x))))
        for y in L:
            u.post('negations are equal exactly when the parts are', tm.const((b.ObscNegation(P(x)) == b.ObscNegation(P(y))) == (x == y)))


def u_element(kind):
    """elements: equal exactly when of the same kind with equal surface, obscuration, name, media and position (and screen)"""
    def go(u):
        w, b = start(u)

        def make(p, name, obs):
            kw = dict(name=name, coordSys=csys(b, p + 'c'), inMedium=b.ConstMedium(real(p + 'm')), obscuration=b.ObscCircle(real(p + 'r')) if obs else None)
            kw['outMedium'] = kw['inMedium'] if kind == 'OPDScreen' else b.ConstMedium(real(p + 'n'))
            par = [real(p + 'm')] + ([] if kind == 'OPDScreen' else [real(p + 'n')]) + ([real(p + 'r')] if obs else [])
            par += list(vec(p + 'co')) + list(pysym.oarr(mat(p + 'cr')).ravel())
            if kind == 'CompoundOptic':
                del kw['obscuration']
                items = [b.Detector(b.Sphere(real(p + 'R')), name='d'), b.Mirror(b.Plane(), name='m')]
                return b.CompoundOptic(items, **kw), [real(p + 'R')] + [x for x in par if not obs or x is not par[2]]
            a = (b.Sphere(real(p + 'R')),) + ((b.Sphere(real(p + 'S')),) if kind == 'OPDScreen' else ())
            return getattr(b, kind)(*a, **kw), [real(p + 'R')] + ([real(p + 'S')] if kind == 'OPDScreen' else []) + par
        for nm in ('e', 'f'):
            for obs in (0, 1) if kind != 'CompoundOptic' else (0,):
                a, pa = make('p', 'e', 1 if kind != 'CompoundOptic' else 0)
                a2, _ = make('p', 'e', 1 if kind != 'CompoundOptic' else 0)
                c, pc = make('q', nm, obs)
                agree(u, 'same definition', a, a2)
                e = eqterm(pa, pc) if nm == 'e' and len(pa) == len(pc) else tm.FALSE
                for s, (x, y) in (('', (a, c)), (' (the other way round)', (c, a))):
                    t, n = pysym.boolterm(x == y), pysym.boolterm(x != y)
                    u.post('a truth value', tm.const(t is not None and n is not None))
                    if t is not None and n is not None:
                        u.post('equal exactly when all parts are' + s, tm.iff(t, e))
                        u.post('!= is the opposite of ==' + s, tm.iff(n, tm.lnot(e)))
                u.post('equal parts, equal hashes', tm.implies(e, hasheq(pysym.shash(a), pysym.shash(c))))
        for x in (None, 1, 'x', b.Plane(), b.Mirror(b.Plane(), name='e') if kind != 'Mirror' else b.Detector(b.Plane(), name='e')):
            u.post('not equal to anything else', tm.const((a == x) is False and (a != x) is True))
    return go


def u_parts(u):
    """compound elements: equal exactly when all their parts are, in order"""
    w, b = start(u)
    L = ['x', 'y']
    D = {n: [b.Detector(b.Plane(), name=n), b.Detector(b.Plane(), name=n)] for n in L}
    D['X'] = [b.CompoundOptic([b.Detector(b.Plane(), name='x')], name='X') for _ in (0, 1)]
    D['Xy'] = [b.CompoundOptic([b.Detector(b.Plane(), name='y')], name='X') for _ in (0, 1)]
    ls = [l for n in (0, 1, 2) for l in itertools.product(sorted(D), repeat=n)]
    os_ = [(l, [b.CompoundOptic([D[x][i] for x in l], name='o') for i in (0, 1)]) for l in ls]
    for l, x in os_:
        for m, y in os_:
            e = x[0] == y[1]
            u.post('equal exactly when the parts are, in order', tm.const(e is (l == m) and (x[0] != y[1]) is (l != m)))
            if e:
                u.post('equal ones hash alike', hasheq(pysym.shash(x[0]), pysym.shash(y[1])))


def u_lengths(u):
    """different numbers of parameters"""
    w, b = start(u)
    A_ = lambda n, s='p': arr(s, n)
    R_, k = real('R'), real('k')
    for f in (lambda n: b.Asphere(R_, k, A_(n)), lambda n: b.Asphere(R_, k, [real('c%d' % i) for i in range(n)]), lambda n: b.Zernike(A_(n)),
              lambda n: b.TableMedium(A_(n), A_(n, 'q')), lambda n: b.ObscPolygon(A_(n), A_(n, 'q')), lambda n: b.Sum([b.Sphere(real('R%d' % i)) for i in range(n)]),
              lambda n: b.Lattice(A_(n), [[1.0]])):
        for m, n in ((1, 2), (2, 3), (3, 2), (2, 4)):
            x, y = f(m), f(n)
            u.post('different numbers of parameters show', tm.const((x == y) is False and (x != y) is True))
    zs = lambda ny, nx: arr('z', ny, nx)
    for pre in 'xy':
        for n in (2, 3):
            u.assume(tm.ne(term(arr(pre, n)[0]), term(arr(pre, n)[-1])))
    g = [b.Bicubic(arr('x', nx), arr('y', ny), zs(ny, nx), *[arr('d%d' % i, ny, nx) for i in range(3)]) for nx in (2, 3) for ny in (2, 3)]
    for i, x in enumerate(g):
        for j, y in enumerate(g):
            if i != j:
                u.post('different grids show', tm.const((x == y) is False and (x != y) is True))
    for c in (1, 2, 3):
        for d in (1, 2, 3):
            x, y = b.Asphere(R_, k, [1.0], imin=c), b.Asphere(R_, k, [1.0], imin=d)
            posts_true(u, 'a different first power shows', (x == y) if c == d else pysym.inv(x == y))


def values():
    us = []
    F = {'Medium': ME}
    mod = lambda k: (OB if k.startswith('Obsc') else CO if k.endswith('Coating') else 'batoid/coordSys.py::' if k == 'CoordSys' else
                     'batoid/lattice.py::' if k == 'Lattice' else 'batoid/coordTransform.py::' if k == 'CoordTransform' else
                     ME if k == 'Air' or k.endswith('Medium') else SU)
    fixed = {'Asphere', 'Zernike', 'Bicubic', 'TableMedium', 'ObscPolygon', 'Lattice', 'Sum', 'ObscUnion', 'ObscIntersection'}
    for k, par, lab in KINDS:
        a = punit('%s%s: equality and hash' % (k, lab), [mod(k) + k + '.' + f for f in ('__eq__', '__ne__', '__hash__')], u_value(k, par, lab))
        c = punit('%s%s: pickle, copy, printed form' % (k, lab), [mod(k) + k + '.' + f for f in ('__getstate__', '__setstate__', '__repr__')], u_pickle(k, par, lab))
        for d in (a, c):
            us.append(bounded(d, 'the number of entries of arrays and lists is fixed; their values are arbitrary') if k in fixed else d)
    for k in ('Interface', 'RefractiveInterface', 'Mirror', 'Detector', 'Baffle', 'OPDScreen', 'CompoundOptic'):
        c = k if k in ('OPDScreen', 'CompoundOptic') else 'Interface'
        us.append(punit('%s: equality and hash' % k, ['batoid/optic.py::%s.%s' % (c, f) for f in ('__eq__', '__ne__', '__hash__')], u_element(k)))
    us.append(bounded(punit('parts of compound elements', ['batoid/optic.py::CompoundOptic.' + f for f in ('__eq__', '__ne__', '__hash__')], u_parts), 'up to two parts'))
    us.append(punit('different kinds', ['__eq__ of every class'], u_kinds))
    us.append(bounded(punit('parts of unions and intersections', [OB + 'ObscUnion.__eq__', OB + 'ObscIntersection.__eq__', OB + 'ObscNegation.__eq__'], u_sets), 'up to three parts'))
    us.append(bounded(punit('different numbers of parameters', ['__eq__ of classes with arrays'], u_lengths), 'up to four entries'))
    return us
