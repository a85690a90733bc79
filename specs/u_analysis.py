"""P25: the image quantities of batoid/analysis.py."""
import inspect, itertools, types
from pw import *
from u_coord import TWorld, rays, mul3, mulv, mulT, addv, subv
from u_bundle import replace, index
import prove
from fractions import Fraction as Frac

AN = 'batoid/analysis.py::'
TWO = tm.lit(2)
PI = pysym.PI


class AWorld(TWorld):
    """contracts used by the analysis: bundles (P16), trace as a function of each ray (P19, P08), change of
    coordinates of rays (P01), intersection with the reference sphere (P03), sums as opaque functions of
    their terms, least squares and FFT as opaque functions of their inputs"""

    def __init__(s, u):
        super().__init__(u)
        s.bundles, s.shifts, s.lsq = [], [], []
        s.dirs, s.anyw = [], []

    # ---- sums
    def count(s, mask):
        t = s.opaque(mask.dims, lambda ix: tm.ite(pysym.boolterm(pysym.cast1(mask.at(ix), 'b')), ONE, ZERO), 'Count', I)
        s.u.e.assume(tm.le(tm.IZERO, t))
        return mk(t)

    def opaque(s, dims, body, what='Sum', so=R):
        ix = tuple(pysym.bound(d, 'i%d' % k) for k, d in enumerate(dims))
        b = pysym.nofork(lambda: body(ix))
        if b is None:
            raise Unsupported('a sum whose terms need case distinctions')
        ext = []
        for d in dims:
            ext.append(term(pysym.dimnum(d)))
        return tm.app('%s%d' % (what, len(ext)), tuple(ext) + (b,), so)

    def sumA(s, a, axs, keepdims):
        sn, n = a.snap(), len(a.dims)
        rest = [k for k in range(n) if k not in axs]
        conc = [k for k in axs if isinstance(a.dims[k], int)]
        sym = [k for k in axs if k not in conc]
        rd = [a.dims[k] for k in rest]

        def f(ix):
            if keepdims:
                ix = [ix[k] for k in rest]
            r = None
            for jx in itertools.product(*[range(a.dims[k]) for k in conc]):
                full = [None] * n
                for q, k in zip(ix, rest):
                    full[k] = q
                for q, k in zip(jx, conc):
                    full[k] = q
                # the extents summed over; a selection is a sum over everything with zero outside
                ds, masks, where = [], [], []
                for k in sym:
                    d = a.dims[k]
                    if isinstance(d, pysym.Sel):
                        where.append((k, len(ds), len(d.mask.dims)))
                        masks.append(d.mask)
                        ds += list(d.mask.dims)
                    else:
                        where.append((k, len(ds), None))
                        ds.append(d)

                def body(bx):
                    c = []
                    mi = iter(masks)
                    for k, o, l in where:
                        if l is None:
                            full[k] = bx[o]
                        else:
                            i = tuple(bx[o:o + l])
                            full[k] = ('sel', i[0] if l == 1 else i)
                            c.append(pysym.boolterm(pysym.cast1(next(mi).at(i), 'b')))
                    return tm.ite(tm.land(*c), term(sn(tuple(full))), ZERO)
                t = NumR(s.opaque(ds, body))
                r = t if r is None else add(r, t)
            return r
        if all(isinstance(d, int) for d in rd):
            import numpy as np
            l = [f(ix if not keepdims else tuple(ix[rest.index(k)] if k in rest else 0 for k in range(n)))
                 for ix in np.ndindex(*rd)]
            if not rd and not keepdims:
                return l[0]
            return pysym.mkarr(l, tuple(1 if k in axs else a.dims[k] for k in range(n)) if keepdims else tuple(rd))
        dims = [1 if k in axs else a.dims[k] for k in range(n)] if keepdims else rd
        return A(dims, f, 'f')

    def lstsq(s, a, b):
        """some numbers; what is asked is recorded"""
        k = len(s.lsq)
        sh = (pysym.toA(a).dims[1],) + tuple(pysym.toA(b).dims[1:])
        nm = 'lsq%d' % k
        sol = A(sh, lambda ix: mk(tm.app(nm, tuple(tm.wrap(i, I) for i in ix))), 'f')
        rank = intv('rank%d' % k)
        s.lsq.append((a, b, sol, rank))
        return sol, None, rank, None


class Ctx:
    pass


def dirfun(proj, tx, ty):
    return [mk(tm.app('dir_%s_%s' % (proj, q), (term(tx), term(ty)))) for q in 'xyz']


def setup(u, **k):
    c = Ctx()
    w, b = begin(u, AWorld)
    c.u, c.w, c.b = u, w, b
    c.an = w.pkg.load('batoid.analysis')
    c.tx, c.ty, c.wl = real('tx'), real('ty'), real('wl')
    u.assume(tm.lt(ZERO, c.wl.v))
    c.pupil, c.R = real('pupil'), real('sphereRadius')
    c.co, c.cr = vec('co'), mat('cr')
    orth(u, c.cr)
    c.proj = 'lambert'

    def fdc(x, y, projection='postel'):
        if isinstance(x, (A, SArr)):
            raise Unsupported('fieldToDirCos of arrays')
        w.dirs.append((x, y, projection))
        return tuple(dirfun(projection, x, y))
    replace(w, 'batoid.utils', 'fieldToDirCos', fdc)
    cs = b.CoordSys(c.co, c.cr)
    c.inner = b.CoordSys()
    RVc = b.RayVector

    def norm(kind, a, kw, sig):
        ba = sig.bind(*a, **kw)
        ba.apply_defaults()
        q = dict(ba.arguments)
        q.pop('cls', None)
        if q.get('dirCos') is None and q.get('theta_x') is not None and kind != 'fromFieldAngles':
            q['dirCos'] = fdc(q['theta_x'], q['theta_y'], q['projection'])
        return q

    def maker(kind):
        real_ = RVc.__dict__[kind].__func__
        sig = inspect.signature(real_)
        params = list(sig.parameters.values())[1:]
        sig = sig.replace(parameters=params)

        def f(*a, **kw):
            q = norm(kind, a, kw, sig)
            w.bundles.append((kind, q))
            return bundle(c, kind, q)
        return staticmethod(f)
    for kind in ('asGrid', 'asPolar', 'asSpokes', 'fromStop', 'fromFieldAngles'):
        setattr(RVc, kind, maker(kind))

    def toCoordSys(self, cs2):
        o1, r1, o2, r2 = self.coordSys.origin, self.coordSys.rot, cs2.origin, cs2.rot
        d = subv(o2, o1)
        for sh in [[0.0, 0.0, 0.0]] + w.shifts:
            g = tm.land(*([tm.eq(term(x), term(y)) for x, y in zip(d, mulv(r1, sh))] +
                          [tm.eq(term(x), term(y)) for x, y in zip(r1.ravel(), r2.ravel())]))
            if all((tm.isc(q) and tm.cval(q)) or prove.quick_eq(q, prove.flatten(u.e.pc), 3.0) for q in prove.split_goal(g)):
                ops.xform(self, lambda p, v: (subv(p, sh), v))
                break
        else:
            k = [term(q) for q in list(o1) + list(r1.ravel()) + list(o2) + list(r2.ravel())]
            ops.xform(self, lambda p, v: ([mk(tm.app('X' + q, tuple(k + [term(t) for t in p]))) for q in 'xyz'],
                                          [mk(tm.app('V' + q, tuple(k + [term(t) for t in v]))) for q in 'xyz']))
        self.coordSys = cs2
        return self
    RVc.toCoordSys = toCoordSys

    def intersect(surface, rv, coordSys=None, coating=None):
        u.post('the surface intersected is a sphere or the stop', tm.const(isinstance(surface, (b.Sphere, Stop))))
        if coordSys is not None:
            rv.toCoordSys(coordSys)
        u.post('no coating at a reference surface', tm.const(coating is None))
        if isinstance(surface, b.Sphere):
            ops.sphere(rv, surface.R)
        else:
            ops.each(rv, 'stop', ('x', 'y', 'z', 't'))
        return rv
    replace(w, 'batoid.trace', 'intersect', intersect)

    class Stop(b.Plane):
        def __init__(s):
            pass
    c.stopcs = b.CoordSys(vec('so'), mat('sr'))

    class Optic:
        pupilSize, sphereRadius = c.pupil, c.R
        backDist = real('back')
        inMedium = object()
        stopSurface = types.SimpleNamespace(surface=Stop(), coordSys=c.stopcs)
        coordSys = b.CoordSys(vec('oo'), mat('or'))

        def trace(s, rv, reverse=False, path=None):
            u.post('the rays are traced forwards, all along the path', tm.const(not reverse and path is None))
            u.post('rays are traced once, from where they were made', tm.const(getattr(rv, 'coordSys', None) is c.inner))
            ops.each(rv, 'trace', [k for k in RVF if k != 'wavelength'])
            rv.coordSys = cs
            return rv
    c.optic = Optic()
    return c


class ops:
    @staticmethod
    def fields(rv):
        return {k: (getattr(rv, '_' + k) if isinstance(getattr(rv, '_' + k), A) else pysym.toA(getattr(rv, '_' + k))).snap() for k in RVF}

    @staticmethod
    def store(rv, k, f):
        a = getattr(rv, '_' + k)
        if isinstance(a, A):
            a._store(f, None)
        else:
            new = [f((i,)) for i in range(len(a))]
            for i, q in enumerate(new):
                a[i] = q

    @staticmethod
    def each(rv, tag, ks, extra=()):
        """every ray becomes a function of itself"""
        sn = ops.fields(rv)
        for k in ks:
            so = B if k in ('vignetted', 'failed') else R
            ops.store(rv, k, lambda ix, k=k, so=so: mk(tm.app('%s_%s' % (tag, k), tuple(extra) + ops.args(sn, ix), so)))

    @staticmethod
    def args(sn, ix):
        return tuple(tm.ite(pysym.boolterm(sn[k](ix)), ONE, ZERO) if k in ('vignetted', 'failed') else term(sn[k](ix)) for k in RVF)

    @staticmethod
    def xform(rv, f):
        sn = ops.fields(rv)
        for j, q in enumerate('xyz'):
            ops.store(rv, q, lambda ix, j=j: f([sn[a](ix) for a in 'xyz'], [sn['v' + a](ix) for a in 'xyz'])[0][j])
            ops.store(rv, 'v' + q, lambda ix, j=j: f([sn[a](ix) for a in 'xyz'], [sn['v' + a](ix) for a in 'xyz'])[1][j])

    @staticmethod
    def sphere(rv, R_):
        sn = ops.fields(rv)
        for k in ('x', 'y', 'z', 't'):
            ops.store(rv, k, lambda ix, k=k: sphere(k, R_, {q: sn[q](ix) for q in RVF}))


def sphere(k, R_, f):
    """the crossing of a ray with the sphere of (signed) radius R_ (P03)"""
    return mk(tm.app('sphere_' + k, tuple(term(q) for q in [R_] + [f[q] for q in RVF[:7]])))


def canon(i):
    """one way of writing an index"""
    i = tm.wrap(i, I)
    try:
        n = tm.nf(i)
        if not n.d and n.n and all(v.denominator == 1 for v in n.n.values()):
            t = tm.poly_term(n.n)
            return t if t.sort == I else i
    except (tm.Unsup, KeyError):
        pass
    return i


def bundle(c, kind, q):
    """fresh rays, functions of the direction and the number of the ray"""
    u = c.u
    if kind == 'fromFieldAngles':
        tx, ty = pysym.oarr(q['theta_x']), pysym.oarr(q['theta_y'])
        n = len(tx)
        rv = c.b.RayVector.__new__(c.b.RayVector)
        for k in RVF:
            so = B if k in ('vignetted', 'failed') else R
            setattr(rv, '_' + k, NP.array([mk(tm.app('ff_' + k, (term(x), term(y)), so)) for x, y in zip(tx, ty)]))
        rv.coordSys = c.inner
        return rv
    d = q['dirCos']
    if d is None:
        u.post('a direction is given', tm.FALSE)
        raise PathEnd()
    d = [term(t) for t in d]
    if kind == 'asGrid':
        n = mul(q['nx'], q['nx'])
    elif kind == 'fromStop':
        n = 1
    else:
        n = c.n
    rv = c.b.RayVector.__new__(c.b.RayVector)
    for k in RVF:
        if k == 'wavelength':
            wl = q['wavelength']
            f = lambda ix: wl
        else:
            so = B if k in ('vignetted', 'failed') else R
            f = lambda ix, k=k, so=so: mk(tm.app('%s_%s' % (kind, k), tuple(d) + (canon(ix[0]),), so))
        a = A((pysym.todim(n),), f, 'b' if k in ('vignetted', 'failed') else 'f')
        setattr(rv, '_' + k, a if kind != 'fromStop' else NP.array([a.get(0)]))
    rv.coordSys = c.inner
    return rv


def made(c, kind, dirs, ix):
    """the fields of ray ix of a bundle, before and after the trace"""
    d = [term(t) for t in dirs]
    f0 = {k: c.wl if k == 'wavelength' else mk(tm.app('%s_%s' % (kind, k), tuple(d) + (canon(ix),), B if k in ('vignetted', 'failed') else R))
          for k in RVF}
    return f0, traced(f0)


def traced(f0):
    args = tuple(tm.ite(pysym.boolterm(f0[k]), ONE, ZERO) if k in ('vignetted', 'failed') else term(f0[k]) for k in RVF)
    f1 = {k: f0[k] if k == 'wavelength' else mk(tm.app('trace_' + k, args, B if k in ('vignetted', 'failed') else R)) for k in RVF}
    return f1


def of_optic(c, q, kind):
    """the distance, medium, stop and coordinate system of the rays are those of the optic: left to it, or given as it has them"""
    o = q.get('optic')
    ok = o is None or o is c.optic
    for k, at in (('backDist', 'backDist'), ('medium', 'inMedium'), ('stopSurface', 'stopSurface'), ('coordSys', 'coordSys')):
        if k not in q:
            continue
        v, w = q[k], getattr(c.optic, at)
        if k == 'coordSys' and v is not None and v is not w:
            peq(c.u, kind + ': coordinate system of this optic', list(v.origin) + list(NP.array(v.rot).ravel()),
                list(w.origin) + list(NP.array(w.rot).ravel()))
            continue
        ok = ok and (o is c.optic if v is None else v is w)
    c.u.post(kind + ': of this optic', tm.const(bool(ok)))


def check_bundles(c, kind, want, dirs, **fields):
    """the rays made: kind, number, and every argument that matters"""
    u = c.u
    got = [q for k, q in c.w.bundles if k == kind]
    u.post('%s: as many bundles as expected' % kind, tm.const(len(got) == want))
    for q, d in zip(got, dirs):
        of_optic(c, q, kind)
        peq(u, kind + ': wavelength', q['wavelength'], c.wl)
        for t, v in zip(list(q['dirCos']), d):
            peq(u, kind + ': direction', t, v)
        for k, v in q.items():
            if k in fields:
                peq(u, '%s: %s' % (kind, k), v, fields[k])
            elif k in ('source', 'ny', 'dx', 'dy', 'lx', 'ly', 'outer', 'nrandom', 'rng'):
                ok = v is None or (k == 'ny' and 'nx' in fields and pysym.cmp('==', v, fields['nx']) is True)
                if v is not None and (k in ('lx', 'ly') and kind == 'asGrid' or k == 'outer'):
                    peq(u, '%s: %s is that of the pupil' % (kind, k), v, c.optic.pupilSize if k != 'outer' else div(c.optic.pupilSize, 2))
                    ok = True
                u.post('%s: %s is left to the optic' % (kind, k), tm.const(bool(ok)))
            elif k == 'flux':
                peq(u, kind + ': unit flux', v, 1.0)


# ------------------------------------------------------------------ grids
def grid(u, parity):
    """an nx by nx grid: nx = 2m or 2m+1"""
    c = setup(u)
    m = intv('m')
    u.assume(tm.le(tm.lit(2, I), m.v))
    c.m = m
    c.nx = mk(tm.add(tm.mul(tm.lit(2, I), m.v), tm.lit(parity, I)))
    c.n = mul(c.nx, c.nx)
    c.ch = add(mul(m, c.nx), m)
    c.den = sub(c.nx, 2 - parity)
    c.dir = dirfun(c.proj, c.tx, c.ty)
    sig = tm.var('any.i0', I)
    c.f = lambda i: made(c, 'asGrid', c.dir, i)[1]
    fs = c.f(sig)
    vig = tm.lnot(pysym.boolterm(fs['vignetted']))
    N = term(c.n)
    c.cnt = mk(tm.app('Count1', (N, tm.ite(vig, ONE, ZERO)), I))
    u.assume(tm.le(tm.IONE, c.cnt.v))
    c.mean = lambda g: div(NumR(tm.app('Sum1', (N, tm.ite(vig, term(g(fs)), ZERO)))), c.cnt)
    return c


def refpoint(c, ref):
    if ref == 'mean':
        return [c.mean(lambda f: f[q]) for q in 'xyz']
    if ref == 'chief':
        f = c.f(c.ch.v)
        return [f[q] for q in 'xyz']
    return [0.0, 0.0, 0.0]


def u_spot(parity, ref):
    def go(u):
        c = grid(u, parity)
        P = refpoint(c, ref)
        c.w.shifts.append(P)
        kw = dict(projection=c.proj, nx=c.nx)
        if ref != 'chief':
            kw['reference'] = ref
        got = c.an.spot(c.optic, c.tx, c.ty, c.wl, **kw)
        check_bundles(c, 'asGrid', 1, [c.dir], nx=c.nx)
        u.post('two lists', tm.const(len(got) == 2))
        k = index(u, c.n)
        f = c.f(k.v)
        for j, q in enumerate('xy'):
            a = got[j]
            ok = isinstance(a, A) and len(a.dims) == 1 and isinstance(a.dims[0], pysym.Sel) and len(a.dims[0].mask.dims) == 1
            u.post('a selection of the rays', tm.const(ok))
            if not ok:
                raise PathEnd()
            msk = pysym.boolterm(pysym.cast1(a.dims[0].mask.get(k.v), 'b'))
            u.post('ray k is listed exactly when it is not vignetted', tm.iff(msk, tm.lnot(pysym.boolterm(f['vignetted']))))
            peq(u, 'position relative to the reference: ' + q, a.get(('sel', k.v)), sub(f[q], P[j]))
    return go


REFS = ('chief', 'mean')


def u_wavefront(parity, ref, own):
    def go(u):
        c = grid(u, parity)
        P = refpoint(c, ref)
        rad = real('R') if own else c.R
        S = addv(P, [0.0, 0.0, rad])
        c.w.shifts.append(S)
        kw = dict(projection=c.proj, nx=c.nx)
        if own:
            kw['sphereRadius'] = rad
        if ref != 'chief':
            kw['reference'] = ref
        got = c.an.wavefront(c.optic, c.tx, c.ty, c.wl, **kw)
        check_bundles(c, 'asGrid', 1, [c.dir], nx=c.nx)

        def arrive(f):
            g = dict(f)
            for q, x in zip('xyz', subv([f[q] for q in 'xyz'], S)):
                g[q] = x
            return sphere('t', neg(rad), g)
        t0 = arrive(c.f(c.ch.v)) if ref == 'chief' else c.mean(arrive)
        arr_ = got.array
        ok = isinstance(arr_, pysym.MaskedArray) and len(arr_.data.dims) == 2
        u.post('a masked two dimensional array', tm.const(ok))
        if not ok:
            raise PathEnd()
        for j in range(2):
            posts_true(u, 'nx by nx', pysym.cmp('==', pysym.dimnum(arr_.data.dims[j]), c.nx))
        i, j = index(u, c.nx, 'i'), index(u, c.nx, 'j')
        k = add(mul(i, c.nx), j)
        f = c.f(k.v)
        peq(u, 'masked exactly when vignetted', arr_.mask.get(i.v, j.v), f['vignetted'])
        peq(u, 'lag behind the reference sphere, in wavelengths', mul(arr_.data.get(i.v, j.v), c.wl), sub(t0, arrive(f)))
        peq(u, 'sample spacing', got.primitiveVectors, prim(c))
    return go


def prim(c):
    d = div(c.pupil, c.den)
    return [[d, 0.0], [0.0, d]]


# ------------------------------------------------------------------ derivatives
def polar(u):
    c = setup(u)
    n = intv('nray')
    u.assume(tm.le(tm.IONE, n.v))
    c.n = n
    c.nrad, c.naz = intv('nrad'), intv('naz')
    return c


def selmean(c, g, vig):
    """mean over the rays that are not vignetted"""
    N = term(c.n)
    use = tm.lnot(pysym.boolterm(vig))
    cnt = mk(tm.app('Count1', (N, tm.ite(use, ONE, ZERO)), I))
    c.u.assume(tm.le(tm.IONE, cnt.v))
    return div(NumR(tm.app('Sum1', (N, tm.ite(use, term(g), ZERO)))), cnt)


def u_dkdu(u):
    c = polar(u)
    c.dir = dirfun(c.proj, c.tx, c.ty)
    got = c.an.dkdu(c.optic, c.tx, c.ty, c.wl, nrad=c.nrad, naz=c.naz, projection=c.proj)
    check_bundles(c, 'asPolar', 1, [c.dir], nrad=c.nrad, naz=c.naz)
    u.post('one least squares fit', tm.const(len(c.w.lsq) == 1))
    a, b, sol, rank = c.w.lsq[0]
    k = index(u, c.n)
    f0, f1 = made(c, 'asPolar', c.dir, k.v)
    v = [f1['v' + q] for q in 'xyz']
    s = term(mul3(v, v))
    u.assume(tm.lt(ZERO, s))
    for m_ in (a, b):
        ok = isinstance(m_, A) and len(m_.dims) == 2 and isinstance(m_.dims[0], pysym.Sel) and isinstance(m_.dims[1], int)
        u.post('the fit has one row per selected ray', tm.const(ok))
        if not ok:
            raise PathEnd()
        posts_true(u, 'selected exactly when not vignetted', tm.iff(pysym.boolterm(pysym.cast1(m_.dims[0].mask.get(k.v), 'b')),
                                                                     tm.lnot(pysym.boolterm(f1['vignetted']))))

    def column(m_, x):
        for j in range(m_.dims[1]):
            g = tm.eq(term(m_.get(('sel', k.v), j)), term(x))
            if tm.isc(g) and tm.cval(g) or not tm.isc(g) and prove.quick_eq(g, prove.flatten(u.e.pc), 3.0):
                return j
        return None
    kk = [div(mul(mul(2.0, NumR(PI)), v[i]), mul(c.wl, NumR(s))) for i in range(2)]
    # the code may divide in another order; the wave vector is 2 pi v / (wl v.v)
    cols = [column(a, f0[q]) for q in 'xy']
    u.post('fitted against a constant and the pupil coordinates', tm.const(
        a.dims[1] == 3 and None not in cols and column(a, 1.0) is not None and len(set(cols)) == 2))
    outs = [column(b, q) for q in kk]
    u.post('what is fitted are the components of the wave vector', tm.const(b.dims[1] == 2 and sorted(map(str, outs)) == ['0', '1']))
    if None in cols + outs:
        raise PathEnd()
    peq(u, 'row: pupil coordinate, column: component of k', got, [[sol[cols[i], outs[j]] for j in range(2)] for i in range(2)])


def u_drdth(u):
    c = polar(u)
    got = c.an.drdth(c.optic, c.tx, c.ty, c.wl, nrad=c.nrad, naz=c.naz, projection=c.proj)
    check_drdth(c, got)


def same(x, y):
    g = tm.eq(term(x), term(y))
    return bool(tm.isc(g) and tm.cval(g))


def check_drdth(c, got):
    u = c.u
    # the fields at which directions were asked for: the nominal one and one step along each axis
    ds = []
    for x, y, pj in c.w.dirs:
        u.post('projection as requested', tm.const(pj == c.proj))
        ds.append((x, y))
    steps = {}
    for x, y in ds:
        dx, dy = sub(x, c.tx), sub(y, c.ty)
        hx, hy = [tm.rconst(tm.nf(term(q))) for q in (dx, dy)]
        if hx is None or hy is None or (hx != 0 and hy != 0) or max(abs(hx), abs(hy)) > Frac(1, 1000):
            u.post('a small step along one axis', tm.FALSE)
            raise PathEnd()
        steps[0 if hx != 0 else 1 if hy != 0 else None] = (x, y, hx or hy)
    u.post('one step along each axis', tm.const(set(steps) == {0, 1, None} and len(ds) == 3))
    dirs = {k: dirfun(c.proj, v[0], v[1]) for k, v in steps.items()}
    order = []
    for kind, q in c.w.bundles:
        d = [term(t) for t in q['dirCos']]
        order += [k for k in dirs if all(t is term(v) for t, v in zip(d, dirs[k]))]
    u.post('a bundle for each direction', tm.const(sorted(map(str, order)) == ['0', '1', 'None']))
    check_bundles(c, 'asPolar', 3, [dirs[k] for k in order], nrad=c.nrad, naz=c.naz)
    sig = tm.var('any.i0', I)
    f = {k: made(c, 'asPolar', dirs[k], sig)[1] for k in dirs}
    vig = f[None]['vignetted']
    for i, q in enumerate('xy'):
        m0 = selmean(c, f[None][q], vig)
        for j in range(2):
            peq(u, 'd(image %s)/d(field %s)' % (q, 'xy'[j]), got[i][j], div(sub(selmean(c, f[j][q], vig), m0), NumR(tm.lit(steps[j][2]))))


def small(u):
    """drdth by its contract: some matrix"""
    c = setup(u)
    c.D = NP.array([[real('d%d%d' % (i, j)) for j in range(2)] for i in range(2)])
    c.D0 = [list(r) for r in c.D]
    c.det = sub(mul(c.D0[0][0], c.D0[1][1]), mul(c.D0[0][1], c.D0[1][0]))
    u.assume(tm.lt(ZERO, c.det.v))
    c.calls = []
    sig = inspect.signature(c.an.drdth)

    def drdth(*a, **k):
        ba = sig.bind(*a, **k)
        ba.apply_defaults()
        c.calls.append(dict(ba.arguments))
        return c.D
    c.dflt = {k: p.default for k, p in sig.parameters.items() if p.default is not inspect.Parameter.empty}
    replace(c.w, 'batoid.analysis', 'drdth', drdth)
    return c


def check_call(c, calls, **kw):
    u = c.u
    u.post('called once', tm.const(len(calls) == 1))
    want = dict(c.dflt, optic=c.optic, theta_x=c.tx, theta_y=c.ty, wavelength=c.wl)
    want.update(kw)
    for k, v in calls[0].items():
        w = want.get(k)
        if val(v) is not None and val(w) is not None:
            peq(u, 'argument ' + k, v, w)
        else:
            u.post('argument ' + k, tm.const(v is w or v == w))


def u_dthdr(u):
    c = small(u)
    nr, na = intv('nrad'), intv('naz')
    got = c.an.dthdr(c.optic, c.tx, c.ty, c.wl, nrad=nr, naz=na, projection='zemax')
    check_call(c, c.calls, nrad=nr, naz=na, projection='zemax')
    for i in range(2):
        for j in range(2):
            peq(u, 'inverse of the derivative of position', add(mul(got[i][0], c.D0[0][j]), mul(got[i][1], c.D0[1][j])), 1.0 if i == j else 0.0)


def u_focal(u):
    c = small(u)
    nr = intv('nrad')
    how = u.e.choose(2)
    if how:
        got = c.an.focalLength(c.optic, c.tx, c.ty, c.wl, nrad=nr, projection='zemax')
        check_call(c, c.calls, nrad=nr, projection='zemax')
    else:
        got = c.an.focalLength(c.optic, c.tx, c.ty, wavelength=c.wl)
        check_call(c, c.calls)
    peq(u, 'its square is the determinant of the derivative of position', mul(got, got), c.det)
    posts_true(u, 'not negative', pysym.cmp('>=', got, 0))


def u_closest(u):
    w, b = begin(u, AWorld)
    an = w.pkg.load('batoid.analysis')
    P, d, Q, v = vec('P'), vec('d'), vec('Q'), vec('v')
    P0, d0, Q0, v0 = list(P), list(d), list(Q), list(v)
    u.assume(tm.lt(ZERO, term(mul3(d0, d0))), tm.lt(ZERO, term(mul3(v0, v0))))
    den = sub(mul(mul3(d0, d0), mul3(v0, v0)), mul(mul3(d0, v0), mul3(d0, v0)))
    try:
        R_ = an._closestApproach(P, d, Q, v)
    except ValueError:
        peq(u, 'refused only when parallel', den, 0.0)
        return
    u.assume(tm.ne(term(den), ZERO))
    R_ = list(R_)
    off = subv(R_, P0)
    for i, j in ((0, 1), (1, 2), (2, 0)):
        peq(u, 'on the first line (%d%d)' % (i, j), sub(mul(off[i], d0[j]), mul(off[j], d0[i])), 0.0)
    t = div(mul3(subv(R_, Q0), v0), mul3(v0, v0))
    gap = [sub(sub(R_[i], Q0[i]), mul(t, v0[i])) for i in range(3)]
    peq(u, 'the shortest connection is perpendicular to the first line', mul3(gap, d0), 0.0)


def u_exitpupil(u):
    c = setup(u)
    pts = {}

    def approach(P, d, Q, v):
        Q, v = list(Q), list(v)
        for i in (0, 1):
            peq(u, 'the second line is the optic axis (point)', Q[i], 0.0)
            peq(u, 'the second line is the optic axis (direction)', v[i], 0.0)
        posts_true(u, 'the second line is the optic axis', pysym.cmp('!=', v[2], 0))
        t = tuple(term(q) for q in list(P) + list(d))
        return NP.array([mk(tm.app('approach' + q, t)) for q in 'xyz'])
    replace(c.w, 'batoid.analysis', '_closestApproach', approach)
    a = real('angle')
    u.assume(tm.lt(ZERO, a.v))
    got = c.an.exitPupilPos(c.optic, c.wl, smallAngle=a, projection='zemax')
    bs = [q for k, q in c.w.bundles if k == 'fromFieldAngles']
    u.post('one bundle of rays', tm.const(len(bs) == 1 and len(c.w.bundles) == 1))
    q = bs[0]
    of_optic(c, q, 'rays')
    u.post('in the projection asked for', tm.const(q['projection'] == 'zemax'))
    peq(u, 'wavelength', q['wavelength'], c.wl)
    for k in ('x', 'y'):
        if k in q:
            peq(u, 'through the middle of the stop', q[k], 0.0)
    g = [0, 0, 0]
    o = [c.co, c.cr]
    key = [term(t) for t in list(c.co) + list(c.cr.ravel())] + [ZERO] * 3 + [ONE if i == j else ZERO for i in range(3) for j in range(3)]
    for tx, ty in ((a, 0.0), (neg(a), 0.0), (0.0, a), (0.0, neg(a))):
        f = traced({k: c_ for k, c_ in ((k, mk(tm.app('ff_' + k, (term(tx), term(ty)), B if k in ('vignetted', 'failed') else R))) for k in RVF)})
        p = [mk(tm.app('X' + t, tuple(key + [term(f[x]) for x in 'xyz']))) for t in 'xyz']
        v = [mk(tm.app('V' + t, tuple(key + [term(f['v' + x]) for x in 'xyz']))) for t in 'xyz']
        t = tuple(term(x) for x in p + v)
        g = [add(x, mk(tm.app('approach' + s, t))) for x, s in zip(g, 'xyz')]
    peq(u, 'mean of the points where the four rays pass the axis', list(got), [div(x, 4) for x in g])


# ------------------------------------------------------------------ images
def kstub(c):
    """dkdu by its contract: some invertible matrix"""
    u = c.u
    c.K = NP.array([[real('k%d%d' % (i, j)) for j in range(2)] for i in range(2)])
    c.K0 = [list(r) for r in c.K]
    u.assume(tm.ne(term(sub(mul(c.K0[0][0], c.K0[1][1]), mul(c.K0[0][1], c.K0[1][0]))), ZERO))
    c.kcalls = []
    sig = inspect.signature(c.an.dkdu)

    def dkdu(*a, **k):
        ba = sig.bind(*a, **k)
        ba.apply_defaults()
        c.kcalls.append(dict(ba.arguments))
        return c.K
    c.dflt = {k: p.default for k, p in sig.parameters.items() if p.default is not inspect.Parameter.empty}
    replace(c.w, 'batoid.analysis', 'dkdu', dkdu)


def okdet(c, U):
    ku = [[mul3b(c.K0[i], [U[0][j], U[1][j]]) for j in range(2)] for i in range(2)]
    c.u.assume(tm.ne(term(sub(mul(ku[0][0], ku[1][1]), mul(ku[0][1], ku[1][0]))), ZERO))
    c.okdet = True


def lattice_of(c, X, U, N):
    """X: the lattice reciprocal to N steps of k = K U"""
    u = c.u
    assert c.okdet
    ku = [[mul3b(c.K0[i], [U[0][j], U[1][j]]) for j in range(2)] for i in range(2)]
    for i in range(2):
        for j in range(2):
            peq(u, 'sample spacing: reciprocal to the pupil sampling [%d%d]' % (i, j),
                mul(add(mul(X[i][0], ku[j][0]), mul(X[i][1], ku[j][1])), N), mul(2.0, NumR(PI)) if i == j else 0.0)


def mul3b(a, b):
    return add(mul(a[0], b[0]), mul(a[1], b[1]))


def u_huygens(parity, how, ref, nout):
    def go(u):
        c = grid(u, parity)
        u.assume(tm.lt(ZERO, c.pupil.v))
        kstub(c)
        okdet(c, prim(c))
        P = refpoint(c, ref)
        calls = []
        RVc = c.b.RayVector
        kk = index(u, c.n, 'kray')
        ff = c.f(kk.v)

        def amp(self, r, t, ignoreVignetted=True):
            u.post('vignetted rays do not contribute', tm.const(ignoreVignetted is True))
            for k in RVF:
                peq(u, 'amplitudes are those of the traced rays: ' + k, getattr(self, '_' + k).get(kk.v), ff[k])
            r = [term(q) for q in r]
            calls.append((r, t))
            return pysym.Cx(*[mk(tm.app('amp_' + q, tuple(r) + (term(t),))) for q in ('re', 'im')])
        RVc.sumAmplitude = amp
        kw = dict(projection=c.proj, nx=c.nx)
        if ref != 'chief':
            kw['reference'] = ref
        dx, dy = real('dx'), real('dy')
        a, b = [real('a0'), real('a1')], [real('b0'), real('b1')]
        X = None
        if how == 1:
            kw['dx'] = dx
            X = [[dx, 0.0], [0.0, dx]]
        elif how == 2:
            kw.update(dx=dx, dy=dy)
            X = [[dx, 0.0], [0.0, dy]]
        elif how == 3:
            kw.update(dx=NP.array(a), dy=NP.array(b))
            X = [a, b]
        no = c.nx
        if nout:
            no = intv('nout')
            u.assume(tm.le(tm.IONE, no.v))
            kw['nxOut'] = no
        N = mul(no, 2) if how == 0 else no
        i, j = index(u, N, 'i'), index(u, N, 'j')
        u.e.ghosts = [(i.v, j.v)]
        got = c.an.huygensPSF(c.optic, c.tx, c.ty, c.wl, **kw)
        check_bundles(c, 'asGrid', 1, [c.dir], nx=c.nx)
        arr_ = got.array
        for q in range(2):
            posts_true(u, 'as many samples as stated', pysym.cmp('==', pysym.dimnum(arr_.dims[q]), N))
        V = got.primitiveVectors
        if how == 0:
            check_call(c, c.kcalls, projection=c.proj)
            lattice_of(c, V, prim(c), mul(2, c.nx))
            X = [[V[0, 0], V[0, 1]], [V[1, 0], V[1, 1]]]
        else:
            peq(u, 'lattice vectors as given', V, X)
        h = half(N)
        o = [add(mul(sub(j, h), X[0][q]), mul(sub(i, h), X[1][q])) for q in range(2)]
        want = [add(P[0], o[0]), add(P[1], o[1]), 0.0]
        t = None
        for r, t_ in calls:
            t = t_ if t is None else t
            peq(u, 'all samples at one time', t_, t)
        if t is None:
            u.post('amplitudes are summed', tm.FALSE)
            raise PathEnd()
        # the sample at [i, j]
        val_ = arr_.get(i.v, j.v)
        ok = False
        for r, t_ in calls:
            if all(tm.isc(g) and tm.cval(g) or not tm.isc(g) and prove.quick_eq(g, prove.flatten(u.e.pc), 3.0)
                   for g in (tm.eq(x, term(y)) for x, y in zip(r, want))):
                ok = True
                re, im = [mk(tm.app('amp_' + q, tuple(r) + (term(t_),))) for q in ('re', 'im')]
                peq(u, 'squared modulus of the amplitude at the lattice point', val_, add(mul(re, re), mul(im, im)))
                break
        u.post('the amplitude is summed at the lattice point, relative to the reference', tm.const(ok))
    return go


def half(N):
    """N // 2"""
    return pysym.floordiv(N, 2)


def u_fft(parity, pq):
    def go(u):
        c = grid(u, parity)
        u.assume(tm.lt(ZERO, c.pupil.v))
        kstub(c)
        q = intv('padq')
        u.assume(tm.le(tm.lit(0 if pq else 1, I), q.v))
        pf = mk(tm.add(tm.mul(tm.lit(2, I), q.v), tm.lit(pq, I)))
        Pn = mul(c.nx, pf)
        W = arr('W', c.nx, c.nx)
        M = arr('M', c.nx, c.nx, kind='b')
        U = NP.array([[real('u%d%d' % (i, j)) for j in range(2)] for i in range(2)])
        U0 = [list(r) for r in U]
        okdet(c, U0)
        calls = []
        sig = inspect.signature(c.an.wavefront)

        def wavefront(*a, **k):
            ba = sig.bind(*a, **k)
            ba.apply_defaults()
            calls.append(dict(ba.arguments))
            return c.b.Lattice(pysym.MaskedArray(W, M), U)
        replace(c.w, 'batoid.analysis', 'wavefront', wavefront)
        ins = []

        def fft2(a, *r, **k):
            if r or k:
                raise Unsupported('fft2 options')
            ins.append(a)
            return A(a.dims, lambda ix: pysym.Cx(*[mk(tm.app('F' + s, tuple(tm.wrap(canon(t), I) for t in ix))) for s in ('re', 'im')]), 'c')
        c.w.fft['fft2'] = fft2
        rad = real('R')
        got = c.an.fftPSF(c.optic, c.tx, c.ty, c.wl, projection='zemax', nx=c.nx, pad_factor=pf, sphereRadius=rad, reference='mean')
        dk = c.dflt
        c.dflt = {}
        check_call(c, calls, projection='zemax', nx=c.nx, sphereRadius=rad, reference='mean')
        c.dflt = dk
        check_call(c, c.kcalls, projection='zemax')
        u.post('one Fourier transform', tm.const(len(ins) == 1))
        a = ins[0]
        for s in range(2):
            posts_true(u, 'padded to the stated size', pysym.cmp('==', pysym.dimnum(a.dims[s]), Pn))
            posts_true(u, 'as many samples as stated', pysym.cmp('==', pysym.dimnum(got.array.dims[s]), Pn))
        # the wave at an arbitrary place of the padded plane
        h = half(Pn)
        s0 = sub(h, c.m)
        i, j = index(u, c.nx, 'i'), index(u, c.nx, 'j')
        w_ = mk(tm.app('W', (i.v, j.v)))
        m_ = tm.app('M', (i.v, j.v), B)
        z = a.get(add(s0, i).v, add(s0, j).v)
        z = pysym.cx(z)
        masked = u.e.branch(m_)
        ph = mul(mul(2.0, NumR(PI)), w_)
        if masked:
            peq(u, 'vignetted samples carry no light', [z.real, z.imag], [0.0, 0.0])
        else:
            peq(u, 'the exit wave: exp(2 pi i W)', [z.real, z.imag], [pysym.f1('cos', ph), pysym.f1('sin', ph)])
        p_, r_ = index(u, Pn, 'p'), index(u, Pn, 'r')
        e = add(s0, c.nx)
        inside = tm.land(tm.le(s0.v, p_.v), tm.lt(p_.v, e.v), tm.le(s0.v, r_.v), tm.lt(r_.v, e.v))
        if not u.e.branch(inside):
            z = pysym.cx(a.get(p_.v, r_.v))
            peq(u, 'no light outside the pupil', [z.real, z.imag], [0.0, 0.0])
        # the image
        sh = [add(t, sub(Pn, h)) if bool(pysym.cmp('<', t, h)) else sub(t, h) for t in (p_, r_)]
        re, im = [mk(tm.app('F' + s, tuple(canon(t.v) for t in sh))) for s in ('re', 'im')]
        peq(u, 'squared modulus, zero frequency in the middle', got.array.get(p_.v, r_.v), add(mul(re, re), mul(im, im)))
        lattice_of(c, got.primitiveVectors, U0, Pn)
    return go


# ------------------------------------------------------------------ Zernike coefficients
def Zb(j, x, y, ro, ri, d=''):
    return mk(tm.app('Z' + d, (tm.wrap(j, I), term(x), term(y), term(ro), term(ri))))


def zstub(c):
    """galsim: zernikeBasis[j] = the j-th polynomial at each point; Zernike(...).gradX/gradY its derivatives"""
    def zernikeBasis(jmax, x, y, R_outer=1.0, R_inner=0.0):
        x, y = pysym.toA(x), pysym.toA(y)
        nd = len(x.dims)
        J = pysym.todim(add(jmax, 1))
        sx, sy = x.snap(), y.snap()
        if nd != len(y.dims) or not all(pysym.dimeq(p, q) for p, q in zip(x.dims, y.dims)):
            raise ValueError('shapes')
        return A((J,) + x.dims, lambda ix: Zb(ix[0], sx(tuple(ix[1:])), sy(tuple(ix[1:])), R_outer, R_inner), 'f')

    class Zernike:
        def __init__(s, coef, R_outer=1.0, R_inner=0.0):
            s.coef, s.ro, s.ri = list(coef), R_outer, R_inner

        def _g(s, x, y, d):
            def f(a, b):
                r = 0.0
                for j, q in enumerate(s.coef):
                    if val(q) is not None and pysym.cmp('==', q, 0) is True:
                        continue
                    r = add(r, mul(q, Zb(j, a, b, s.ro, s.ri, d)))
                return r
            return A.lazy_op(f, [pysym.toA(x), pysym.toA(y)], 'f')

        def gradX(s, x, y):
            return s._g(x, y, 'dx')

        def gradY(s, x, y):
            return s._g(x, y, 'dy')
    c.an.zernikeBasis = zernikeBasis
    c.an.Zernike = Zernike
    c.jmax = intv('jmax')
    c.u.assume(tm.le(tm.IONE, c.jmax.v))
    c.eps = real('eps')
    c.ro = div(c.pupil, 2)
    c.ri = mul(c.ro, c.eps)


def atstop(c, f0):
    """where a ray meets the stop"""
    o, r = c.inner.origin, c.inner.rot
    k = [term(q) for q in list(o) + list(r.ravel()) + list(c.stopcs.origin) + list(c.stopcs.rot.ravel())]
    g = dict(f0)
    for q in 'xyz':
        g[q] = mk(tm.app('X' + q, tuple(k + [term(f0[t]) for t in 'xyz'])))
        g['v' + q] = mk(tm.app('V' + q, tuple(k + [term(f0['v' + t]) for t in 'xyz'])))
    args = tuple(tm.ite(pysym.boolterm(g[k]), ONE, ZERO) if k in ('vignetted', 'failed') else term(g[k]) for k in RVF)
    return [mk(tm.app('stop_' + q, args)) for q in 'xy']


def coefficients(c, got, sol, q, scale=None):
    """the result is the solution, with nothing at index 0"""
    u = c.u
    posts_true(u, 'as many coefficients as asked, from 0 to jmax', pysym.cmp('==', got.slen() if isinstance(got, A) else len(got), add(c.jmax, 1)))
    if u.e.branch(tm.eq(q.v, tm.IZERO)):
        peq(u, 'nothing at index zero', got.get(q.v), 0.0)
    else:
        s = mk(tm.app(sol, (q.v,)))
        peq(u, 'coefficient q', got.get(q.v), s if scale is None else scale(s))


def design(c, k, q, row, want, what):
    """row of the fit: the basis at the place of the ray, and the quantity that is fitted"""
    u = c.u
    a, b = c.w.lsq[k][:2]
    peq(u, what + ': basis at the place where the ray meets the stop', pysym.toA(a).get(row, q.v), want[0])
    b = b.data if isinstance(b, pysym.MaskedArray) else pysym.toA(b)
    peq(u, what + ': the quantity fitted', b.get(row), want[1])


def rank_error(c, f, k):
    """f() -> result, or the path ends after checking that the error was about the rank"""
    u = c.u
    try:
        return f()
    except RuntimeError:
        n = len(c.w.lsq)
        posts_true(u, 'refused only for a deficient fit', tm.lor(*[tm.lt(c.w.lsq[j][3].v, tm.wrap(k, I)) for j in range(n)]) if n else tm.FALSE)
        raise PathEnd()


def u_zernike(parity):
    def go(u):
        c = grid(u, parity)
        zstub(c)
        W = arr('W', c.nx, c.nx)
        M = arr('M', c.nx, c.nx, kind='b')
        calls = []
        sig = inspect.signature(c.an.wavefront)

        def wavefront(*a, **k):
            ba = sig.bind(*a, **k)
            ba.apply_defaults()
            calls.append(dict(ba.arguments))
            return c.b.Lattice(pysym.MaskedArray(W, M), NP.eye(2))
        replace(c.w, 'batoid.analysis', 'wavefront', wavefront)
        rad = real('R')
        got = rank_error(c, lambda: c.an.zernike(c.optic, c.tx, c.ty, c.wl, projection=c.proj, nx=c.nx, sphereRadius=rad,
                                                 reference='mean', jmax=c.jmax, eps=c.eps), c.jmax.v)
        c.dflt = {}
        check_call(c, calls, projection=c.proj, nx=c.nx, sphereRadius=rad, reference='mean')
        check_bundles(c, 'asGrid', 1, [c.dir], nx=c.nx)
        u.post('one fit', tm.const(len(c.w.lsq) == 1))
        i, j, q = index(u, c.nx, 'i'), index(u, c.nx, 'j'), index(u, add(c.jmax, 1), 'q')
        f0 = made(c, 'asGrid', c.dir, add(mul(i, c.nx), j).v)[0]
        p = atstop(c, f0)
        a = pysym.toA(c.w.lsq[0][0])
        ok = isinstance(a.dims[0], pysym.Sel) and len(a.dims[0].mask.dims) == 2
        u.post('one row per selected sample', tm.const(ok))
        if not ok:
            raise PathEnd()
        posts_true(u, 'selected exactly when not masked', tm.iff(pysym.boolterm(pysym.cast1(a.dims[0].mask.get(i.v, j.v), 'b')),
                                                                tm.lnot(tm.app('M', (i.v, j.v), B))))
        design(c, 0, q, ('sel', (i.v, j.v)), (Zb(q.v, p[0], p[1], c.ro, c.ri), mk(tm.app('W', (i.v, j.v)))), 'fit')
        coefficients(c, got, 'lsq0', q)
    return go


def u_zernikeTA(ref, focal):
    def go(u):
        c = polar(u)
        zstub(c)
        c.dir = dirfun(c.proj, c.tx, c.ty)
        D = NP.array([[real('d%d%d' % (i, j)) for j in range(2)] for i in range(2)])
        det = sub(mul(D[0, 0], D[1, 1]), mul(D[0, 1], D[1, 0]))
        u.assume(tm.lt(ZERO, det.v))
        calls = []
        sig = inspect.signature(c.an.drdth)
        sd = {k: p.default for k, p in sig.parameters.items() if p.default is not inspect.Parameter.empty}

        def drdth(*a, **k):
            ba = sig.bind(*a, **k)
            ba.apply_defaults()
            calls.append(dict(ba.arguments))
            return D
        replace(c.w, 'batoid.analysis', 'drdth', drdth)
        G = {}

        def dzb(jmax, x, y, R_outer=1.0, R_inner=0.0):
            peq(u, 'derivatives up to jmax', jmax, c.jmax)
            sx, sy = x.snap(), y.snap()
            return A((2, pysym.todim(add(jmax, 1))) + x.dims, lambda ix: (lambda p: mk(tm.app('DZ', (tm.wrap(ix[0], I), tm.wrap(ix[1], I), term(sx(p)),
                     term(sy(p)), term(R_outer), term(R_inner)))))(tuple(ix[2:])), 'f')
        replace(c.w, 'batoid.analysis', '_dZernikeBasis', dzb)
        kw = {}
        fl = real('focal')
        if focal:
            u.assume(tm.lt(ZERO, fl.v))
            kw['focal_length'] = fl
        got = rank_error(c, lambda: c.an.zernikeTA(c.optic, c.tx, c.ty, c.wl, projection=c.proj, nrad=c.nrad, naz=c.naz, reference=ref,
                                                   jmax=c.jmax, eps=c.eps, **kw), sub(c.jmax, 1).v)
        check_bundles(c, 'asPolar', 1, [c.dir], nrad=c.nrad, naz=c.naz)
        P = polar_ref(c, ref)
        if not focal:
            c.dflt = sd
            check_call(c, calls, projection=c.proj)
            fl = NumR(tm.sqrt(det.v))
        k, q = index(u, c.n), index(u, add(c.jmax, 1), 'q')
        f0, f1 = made(c, 'asPolar', c.dir, k.v)
        p = atstop(c, f0)
        a, b = c.w.lsq[0][:2]
        a, b = pysym.toA(a), pysym.toA(b)
        ok = isinstance(a.dims[0], pysym.Cat) and len(a.dims[0].ds) == 2 and all(isinstance(d, pysym.Sel) for d in a.dims[0].ds)
        u.post('the fit has the x and then the y displacements of the selected rays', tm.const(ok))
        if not ok:
            raise PathEnd()
        for d in range(2):
            posts_true(u, 'selected exactly when not vignetted', tm.iff(pysym.boolterm(pysym.cast1(a.dims[0].ds[d].mask.get(k.v), 'b')),
                                                                        tm.lnot(pysym.boolterm(f1['vignetted']))))
            row = ('cat', d, ('sel', k.v))
            design(c, 0, q, row, (mk(tm.app('DZ', (tm.lit(d, I), q.v) + tuple(term(t) for t in (p[0], p[1], c.ro, c.ri)))),
                                  sub(f1['xy'[d]], P[d])), 'xy'[d])
        coefficients(c, got, 'lsq0', q, lambda s: neg(div(div(s, fl), c.wl)))
    return go


def polar_ref(c, ref):
    """the reference point of a polar bundle: the mean, or the chief ray through the middle of the stop"""
    u = c.u
    if ref == 'mean':
        f = made(c, 'asPolar', c.dir, tm.var('any.i0', I))[1]
        return [selmean(c, f[q], f['vignetted']) for q in 'xyz']
    return chiefpos(c)


def chiefpos(c):
    check_bundles(c, 'fromStop', 1, [c.dir], x=0.0, y=0.0)
    f = made(c, 'fromStop', c.dir, 0)[1]
    return [f[q] for q in 'xyz']


def u_zernikeXY(ref, inc):
    def go(u):
        c = polar(u)
        zstub(c)
        c.dir = dirfun(c.proj, c.tx, c.ty)
        kw = {}
        if inc:
            kw['include_vignetted'] = True
        got = rank_error(c, lambda: c.an.zernikeXYAberrations(c.optic, c.tx, c.ty, c.wl, projection=c.proj, nrad=c.nrad, naz=c.naz,
                                                              reference=ref, jmax=c.jmax, eps=c.eps, **kw), c.jmax.v)
        check_bundles(c, 'asPolar', 1, [c.dir], nrad=c.nrad, naz=c.naz)
        P = polar_ref(c, ref)
        u.post('two fits', tm.const(len(c.w.lsq) == 2 and len(got) == 2))
        k, q = index(u, c.n), index(u, add(c.jmax, 1), 'q')
        f0, f1 = made(c, 'asPolar', c.dir, k.v)
        p = atstop(c, f0)
        for d in range(2):
            a = pysym.toA(c.w.lsq[d][0])
            row = k.v
            if not inc:
                u.post('one row per selected ray', tm.const(isinstance(a.dims[0], pysym.Sel)))
                if not isinstance(a.dims[0], pysym.Sel):
                    raise PathEnd()
                posts_true(u, 'selected exactly when not vignetted', tm.iff(pysym.boolterm(pysym.cast1(a.dims[0].mask.get(k.v), 'b')),
                                                                            tm.lnot(pysym.boolterm(f1['vignetted']))))
                row = ('sel', k.v)
            else:
                posts_true(u, 'all rays', pysym.cmp('==', pysym.dimnum(a.dims[0]), c.n))
            design(c, d, q, row, (Zb(q.v, p[0], p[1], c.ro, c.ri), sub(f1['xy'[d]], P[d])), 'xy'[d])
            coefficients(c, got[d], 'lsq%d' % d, q)
    return go


def u_dzb(u):
    """bounded: jmax = 4"""
    c = setup(u)
    zstub(c)
    n = intv('n')
    u.assume(tm.le(tm.IONE, n.v))
    x, y = arr('x', n), arr('y', n)
    k = index(u, n)
    got = c.an._dZernikeBasis(4, x, y, c.ro, c.ri)
    got = pysym.toA(got)
    u.post('(2, jmax+1, number of points)', tm.const(len(got.dims) == 3 and got.dims[:2] == (2, 5)))
    X, Y = mk(tm.app('x', (k.v,))), mk(tm.app('y', (k.v,)))
    for j in range(5):
        for d in range(2):
            peq(u, 'derivative %s of polynomial %d' % ('xy'[d], j), got.get(d, j, k.v),
                0.0 if j < 2 else Zb(j, X, Y, c.ro, c.ri, 'dx' if d == 0 else 'dy'))


def u_zernikeGQ(ref, own):
    def go(u):
        c = setup(u)
        zstub(c)
        n = intv('nray')
        u.assume(tm.le(tm.IONE, n.v))
        c.n = n
        c.dir = dirfun(c.proj, c.tx, c.ty)
        rings, spokes = intv('rings'), intv('spokes')
        rad = real('R') if own else c.R
        sig = tm.var('any.i0', I)
        k = index(u, c.n)
        u.e.ghosts = [(k.v,), (sig,)]
        F = lambda i: made(c, 'asSpokes', c.dir, i)
        fs = F(sig)[1]
        if ref == 'mean':
            P = [selmean(c, fs[q], fs['vignetted']) for q in 'xyz']
        else:
            P = [made(c, 'fromStop', c.dir, 0)[1][q] for q in 'xyz']
        S = addv(P, [0.0, 0.0, rad])
        c.w.shifts.append(S)
        kw = dict(sphereRadius=rad) if own else {}
        q = index(u, add(c.jmax, 1), 'q')
        try:
            got = c.an.zernikeGQ(c.optic, c.tx, c.ty, c.wl, projection=c.proj, rings=rings, spokes=spokes, reference=ref, jmax=c.jmax,
                                 eps=c.eps, **kw)
        except ValueError:
            # refused only when one of the traced rays failed
            w = [tm.land(tm.le(tm.IZERO, x[0]), tm.lt(x[0], term(c.n)), pysym.boolterm(F(x[0])[1]['failed'])) for x in c.w.anyw if len(x) == 1]
            posts_true(u, 'refused only when a ray failed', tm.lor(*w) if w else tm.FALSE)
            raise PathEnd()
        check_bundles(c, 'asSpokes', 1, [c.dir], rings=rings, spokes=spokes, inner=c.ri)
        u.post('Gaussian quadrature points', tm.const([b['spacing'] for kk, b in c.w.bundles if kk == 'asSpokes'] == ['GQ']))
        if ref != 'mean':
            b = [b for kk, b in c.w.bundles if kk == 'fromStop']
            u.post('one chief ray', tm.const(len(b) == 1))
            b = b[0]
            peq(u, 'chief ray through the middle of the stop', [b['x'], b['y']], [0.0, 0.0])
            peq(u, 'chief ray: wavelength', b['wavelength'], c.wl)
            for t, v in zip(list(b['dirCos']), c.dir):
                peq(u, 'chief ray: direction', t, v)
            of_optic(c, b, 'chief ray')

        def arrive(f):
            g = dict(f)
            for s, x in zip('xyz', subv([f[s] for s in 'xyz'], S)):
                g[s] = x
            return sphere('t', neg(rad), g)
        t0 = selmean(c, arrive(fs), fs['vignetted']) if ref == 'mean' else arrive(made(c, 'fromStop', c.dir, 0)[1])
        p = atstop(c, F(sig)[0])
        body = mul(mul(Zb(q.v, p[0], p[1], c.ro, c.ri), div(sub(t0, arrive(fs)), c.wl)), fs['flux'])
        got = pysym.toA(got)
        posts_true(u, 'coefficients 0 to jmax', pysym.cmp('==', got.slen(), add(c.jmax, 1)))
        area = mul(NumR(PI), sub(1, mul(c.eps, c.eps)))
        u.assume(tm.ne(term(area), ZERO))
        peq(u, 'quadrature of basis times wavefront over the annulus', mul(got.get(q.v), area), NumR(tm.app('Sum1', (term(c.n), term(body)))))
    return go


def u_double(rings, spokes):
    """bounded: numbers of rings and spokes"""
    def go(u):
        c = setup(u)
        zstub(c)
        field = real('field')
        u.assume(tm.lt(ZERO, field.v), tm.lt(ZERO, PI))
        C = {}
        calls = []

        def gq(*a, **k):
            a = list(a)
            calls.append((a, k))
            u.post('each field is expanded for this optic with the options given', tm.const(
                a[0] is c.optic and k.get('rings') == rings and k.get('jmax') is c.jmax and set(k) <= {'rings', 'spokes', 'jmax'}))
            peq(u, 'wavelength', a[3], c.wl)
            if 'spokes' in k:
                peq(u, 'spokes', k['spokes'], spokes or 2 * rings + 1)
            tx, ty = a[1], a[2]
            return A((pysym.todim(add(c.jmax, 1)),), lambda ix: mk(tm.app('GQ', (tm.wrap(ix[0], I), term(tx), term(ty)))), 'f')
        replace(c.w, 'batoid.analysis', 'zernikeGQ', gq)
        km = intv('kmax')
        u.assume(tm.le(tm.IONE, km.v))
        kw = dict(spokes=spokes) if spokes else {}
        got = c.an.doubleZernike(c.optic, field, c.wl, rings=rings, kmax=km, jmax=c.jmax, **kw)
        ns = spokes or 2 * rings + 1
        j, k = index(u, add(c.jmax, 1), 'j'), index(u, add(km, 1), 'k')
        got = pysym.toA(got)
        L, w = pysym.Leg().leggauss(rings)
        s = 0.0
        for r in range(rings):
            rr = mul(NumR(tm.sqrt(div(add(1, L[r]), 2).v)), field)
            for a in range(ns):
                th = div(mul(mul(2, NumR(PI)), a), ns)
                tx, ty = mul(rr, pysym.f1('cos', th)), mul(rr, pysym.f1('sin', th))
                wt = mul(w[r], div(NumR(PI), 2 * ns))
                s = add(s, mul(mul(Zb(k.v, tx, ty, field, 0.0), mk(tm.app('GQ', (j.v, term(tx), term(ty))))), wt))
        peq(u, 'quadrature of the coefficients over the field', mul(got.get(k.v, j.v), NumR(PI)), s)
    return go


def units(tier='quick'):
    us = []
    for p in (0, 1):
        w = ' (odd)' if p else ' (even)'
        for ref in ('chief', 'mean', 'none'):
            us.append(punit('spot, %s reference%s' % (ref, w), [AN + 'spot'], u_spot(p, ref)))
        for ref in REFS:
            for own in (0, 1):
                us.append(punit('wavefront, %s reference%s%s' % (ref, ', radius given' if own else '', w), [AN + 'wavefront'], u_wavefront(p, ref, own)))
            for how, nm in enumerate(('lattice from the pupil', 'dx', 'dx and dy', 'lattice vectors')):
                if tier == 'quick' and (p + how + REFS.index(ref)) % 2:
                    continue
                us.append(punit('huygensPSF, %s, %s reference%s' % (nm, ref, w), [AN + 'huygensPSF', AN + '_reciprocalLatticeVectors',
                                'batoid/lattice.py::Lattice.coords'], u_huygens(p, how, ref, (how + p) % 2)))
        for q in (0, 1):
            if tier == 'quick' and p != q:
                continue
            us.append(punit('fftPSF%s, %s padding' % (w, 'odd' if q else 'even'), [AN + 'fftPSF', AN + '_reciprocalLatticeVectors'], u_fft(p, q)))
    us += [punit('dkdu', [AN + 'dkdu', 'batoid/utils.py::bilinear_fit'], u_dkdu),
           punit('drdth', [AN + 'drdth'], u_drdth),
           punit('dthdr', [AN + 'dthdr'], u_dthdr),
           punit('focalLength', [AN + 'focalLength'], u_focal),
           punit('closest approach of two lines', [AN + '_closestApproach'], u_closest),
           punit('exitPupilPos', [AN + 'exitPupilPos'], u_exitpupil)]
    for p in (0, 1):
        us.append(punit('zernike (%s)' % ('odd' if p else 'even'), [AN + 'zernike'], u_zernike(p)))
    for ref in REFS:
        for k in (0, 1):
            us.append(punit('zernikeTA, %s reference%s' % (ref, ', focal length given' if k else ''), [AN + 'zernikeTA'], u_zernikeTA(ref, k)))
            us.append(punit('zernikeXYAberrations, %s reference%s' % (ref, ', all rays' if k else ''), [AN + 'zernikeXYAberrations'], u_zernikeXY(ref, k)))
            us.append(punit('zernikeGQ, %s reference%s' % (ref, ', radius given' if k else ''), [AN + 'zernikeGQ'], u_zernikeGQ(ref, k)))
    d = punit('gradients of the Zernike basis', [AN + '_dZernikeBasis'], u_dzb)
    d.bounded = 'jmax = 4'
    us.append(d)
    for r, k in ((1, None), (2, 3)):
        d = punit('doubleZernike, %d rings' % r, [AN + 'doubleZernike'], u_double(r, k))
        d.bounded = '%d rings, %s spokes' % (r, k or 'default')
        us.append(d)
    return us
