"""P16: generated ray bundles (batoid/rayVector.py as*, from*, _finish; utils.hexapolar)."""
import types
from pw import *
from u_coord import TWorld, _sys, rays, old, fwd_spec, mulv, mulT, addv, subv, mul3, snapshot
import prove

RV = 'batoid/rayVector.py::RayVector.'
PI = pysym.PI


class BWorld(TWorld):
    """contracts of the C++ surface (sag: a function S of x, y), finishParallel and propagateInPlace"""

    def sag(s, o, x, y):
        if o.cls == 'CPPPlane':
            return lambda a, b: 0.0
        return lambda a, b: mk(tm.app('S', (term(a), term(b))))

    def m_sag(s, o, x, y):
        f = s.sag(o, x, y)
        if isinstance(x, A) or isinstance(y, A):
            return A.lazy_op(f, [pysym.toA(x), pysym.toA(y)], 'f')
        if isinstance(x, SArr):
            return NP.array([f(a, b) for a, b in zip(x.ravel(), pysym.oarr(y).ravel())]).reshape(x.shape)
        return f(x, y)

    def fn_finishParallel(s, dr, m, vv, x, y, z, n):
        m = list(m)
        m = [m[3 * i:3 * i + 3] for i in range(3)]
        dr, vv = list(dr), list(vv)
        u = s.u
        for i in range(3):
            for j in range(i, 3):
                t = mul3([m[k][i] for k in range(3)], [m[k][j] for k in range(3)])
                u.post('precondition of finishParallel: orthonormal axes %d,%d' % (i, j), tm.eq(term(t), ONE if i == j else ZERO))
        zh = [m[k][2] for k in range(3)]
        vz = mul3(vv, zh)
        u.post('precondition of finishParallel: the rays cross the plane', tm.ne(term(vz), ZERO))
        u.e.assume(tm.ne(term(vz), ZERO))
        arrs = [p.a for p in (x, y, z)]
        for a in arrs:
            posts_true(u, 'finishParallel: all elements', pysym.cmp('==', n, a.slen() if isinstance(a, A) else len(a)))
        snaps = [a.snap() if isinstance(a, A) else pysym.toA(a).snap() for a in arrs]
        for j, a in enumerate(arrs):
            def f(ix, j=j):
                p = [sn(ix) for sn in snaps]
                t = div(neg(mul3(subv(p, dr), zh)), vz)
                return add(p[j], mul(t, vv[j]))
            if isinstance(a, A):
                a._store(f, None)
            else:
                new = [f((k,)) for k in range(len(a))]
                for k, q in enumerate(new):
                    a[k] = q

    def rays_propagateInPlace(s, r, T_, nt):
        f = r.f
        sn = {k: (f[k].snap() if isinstance(f[k], A) else pysym.toA(f[k]).snap()) for k in RVF[:7]}
        for c in 'xyz':
            def g(ix, c=c):
                return add(sn[c](ix), mul(sn['v' + c](ix), sub(T_, sn['t'](ix))))
            store(f[c], g)
        store(f['t'], lambda ix: pysym.fl(T_))


def store(a, f):
    if isinstance(a, A):
        a._store(f, None)
    else:
        new = [f((k,)) for k in range(len(a))]
        for k, q in enumerate(new):
            a[k] = q


def S(x, y):
    return mk(tm.app('S', (term(x), term(y))))


class Ctx:
    pass


def systag(cs):
    """systems with the same numbers are the same system"""
    vs = [val(q) for q in list(cs.origin) + list(cs.rot.ravel())]
    return '_'.join(str(q.id) if isinstance(q, T) else repr(q) for q in vs)


def pointmap(a, b):
    """the change of coordinates from system a to system b (P01), as three functions of the point"""
    tag = 'X%s>%s' % (systag(a), systag(b))
    names = _maps.setdefault(tag, 'T%d' % len(_maps))

    def f(p):
        t = [term(q) for q in p]
        return [mk(tm.app(names + c, tuple(t))) for c in 'xyz']
    return f


_maps = {}


def coordtransform(w):
    """contract of CoordTransform and of the array functions of trace.py: the change of coordinates of P01"""
    class CoordTransform:
        def __init__(s, fromSys, toSys):
            s.fromSys, s.toSys = fromSys, toSys
            s.fwd, s.rev = pointmap(fromSys, toSys), pointmap(toSys, fromSys)

        def applyForwardArray(s, x, y, z):
            return _apply(s.fwd, x, y, z)

        def applyReverseArray(s, x, y, z):
            return _apply(s.rev, x, y, z)

    def _apply(f, x, y, z):
        if isinstance(x, (A, SArr, list, tuple)) or isinstance(y, A) or isinstance(z, A):
            arrs = [pysym.toA(q) for q in (x, y, z)]
            return NP.stack([A.lazy_op(lambda a, b, c, j=j: f([a, b, c])[j], arrs, 'f') for j in range(3)])
        return NP.array(f([x, y, z]))

    def inplace(which):
        def g(ct, x, y, z):
            f = getattr(ct, which)
            sn = [a.snap() if isinstance(a, A) else pysym.toA(a).snap() for a in (x, y, z)]
            for j, a in enumerate((x, y, z)):
                if not isinstance(a, (A, SArr)):
                    raise Unsupported('coordinates transformed in place are not arrays')
                store(a, lambda ix, j=j: f([q(ix) for q in sn])[j])
            return x, y, z
        return g
    replace(w, 'batoid.coordTransform', 'CoordTransform', CoordTransform)
    replace(w, 'batoid.trace', 'applyForwardTransformArrays', inplace('fwd'))
    replace(w, 'batoid.trace', 'applyReverseTransformArrays', inplace('rev'))


CASES = [(0, 0), (1, 1), (2, 2), (3, 0), (0, 1), (1, 2)]


LBL = ['(direction)', '(optic, field angle)', '(overridden optic, source)', '(defaults)', '(field angle)', '(optic, source)']


def setup(u, case=None):
    """a stop, a coordinate system, a medium and a direction (or a source), given explicitly, through an
    optic, or left to the defaults"""
    c = Ctx()
    w, b = begin(u, BWorld)
    c.w, c.b, c.u = w, b, u
    coordtransform(w)
    e = u.e
    c.wl = real('wl')
    c.n = real('nmed')
    u.assume(tm.lt(ZERO, c.n.v))

    class Med:
        def getN(s, wl):
            peq(u, 'the medium is asked at the wavelength of the rays', wl, c.wl)
            return c.n
    surf = b.Plane.__new__(b.Plane)
    surf._surface = CObj(w, 'CPPX', ())
    c.so, c.sr = vec('so'), mat('sr')
    ss = b.CoordSys(c.so, c.sr)
    stop = types.SimpleNamespace(surface=surf, coordSys=ss)
    c.co, c.cr = vec('co'), mat('cr')
    cs = b.CoordSys(c.co, c.cr)
    c.back = real('back')
    med = Med()
    c.cs = cs
    c.kw = kw = dict(wavelength=c.wl)
    src, how = CASES[case if case is not None else e.choose(len(CASES))]
    c.src = src
    c.S = S
    if src == 0:
        kw.update(backDist=c.back, medium=med, stopSurface=stop, coordSys=cs)
    elif src == 1:
        kw['optic'] = types.SimpleNamespace(backDist=c.back, inMedium=med, stopSurface=stop, coordSys=cs,
                                            pupilSize=real('pupil'))
    elif src == 2:
        # everything explicit wins over the optic
        kw.update(backDist=c.back, medium=med, stopSurface=stop, coordSys=cs)

        class Bad:
            def getN(s, wl):
                return real('badn')
        bo, br = vec('bo'), mat('br')
        bs = b.Plane.__new__(b.Plane)
        bs._surface = CObj(w, 'CPPBad', ())
        kw['optic'] = types.SimpleNamespace(backDist=real('badback'), inMedium=Bad(), coordSys=b.CoordSys(bo, br),
                                            stopSurface=types.SimpleNamespace(surface=bs, coordSys=b.CoordSys(bo, br)),
                                            pupilSize=real('pupil'))
    else:
        # defaults: 40 before the plane z = 0 of the global system, vacuum
        c.back = 40.0
        c.n = 1.0
        c.so = c.co = [0.0, 0.0, 0.0]
        c.sr = c.cr = [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]
        c.S = lambda x, y: 0.0
        ss = cs = c.cs = b.CoordSys()
        w.m_CPPConstMedium_getN = lambda o, wl: o.args[0]
    c.source = c.given = None
    c.pt = pointmap(ss, cs)
    c.glob = pointmap(b.CoordSys(), cs)
    if how == 0:
        # any nonzero direction is its length times a unit vector
        c.d = [real('d' + q) for q in 'xyz']
        s = real('dlen')
        u.assume(tm.eq(term(mul3(c.d, c.d)), ONE), tm.lt(ZERO, s.v))
        given = [mul(s, q) for q in c.d]
        kw['dirCos'] = c.given = NP.array(given)
        c.given0 = given
        roots(u, [s.v, ONE])
    elif how == 1:
        c.d = [real('fd' + q) for q in 'xyz']
        roots(u, [ONE])
        u.assume(tm.eq(term(mul3(c.d, c.d)), ONE))
        tx, ty = real('tx'), real('ty')
        pj = src == 1
        kw.update(theta_x=tx, theta_y=ty)
        if pj:
            kw['projection'] = 'lambert'

        def contract(x, y, projection='postel'):
            peq(u, 'the field angle asked for', [x, y], [tx, ty])
            u.post('the projection asked for', tm.const(projection == ('lambert' if pj else 'postel')))
            return tuple(c.d)
        replace(w, 'batoid.utils', 'fieldToDirCos', contract)
    else:
        c.source = [real('src' + q) for q in 'xyz']
        kw['source'] = list(c.source)
    return c


def roots(u, cands):
    """a root is simplified to c when its radicand equals c^2 and c >= 0 follows from the path"""
    def h(a):
        for c in cands:
            g = tm.eq(a, tm.mul(c, c))
            if (tm.isc(g) and tm.cval(g)) or prove.quick_eq(g, prove.flatten(u.e.pc), 3.0):
                return c
        return None
    u.e.sqrt_hints = list(getattr(u.e, 'sqrt_hints', None) or []) + [h]


def replace(w, mod, name, new):
    """every reference of the loaded modules to mod.name now means `new` (its contract)"""
    o = getattr(w.pkg.load(mod), name)
    for m in list(w.pkg.mods.values()):
        for k, v in list(vars(m).items()):
            if v is o:
                setattr(m, k, new)


def bundle(c, rv, n, ix, px, py, flux, fixed=None):
    """the contract of a generated bundle: n rays; ray ix goes through the stop point (px, py)"""
    u = c.u
    RVc = c.b.RayVector
    if not isinstance(rv, RVc):
        u.post('a RayVector is returned', tm.FALSE)
        raise PathEnd()
    f = {}
    for k in RVF:
        a = getattr(rv, '_' + k)
        if not isinstance(a, (A, SArr)) or len(a.dims if isinstance(a, A) else a.shape) != 1:
            u.post('one dimensional arrays', tm.FALSE)
            raise PathEnd()
        posts_true(u, 'one ray per point: ' + k, pysym.cmp('==', a.slen() if isinstance(a, A) else len(a), n))
        jx = ix if isinstance(ix, (tuple, T)) else val(ix)
        if isinstance(a, A) and isinstance(a.dims[0], pysym.Cat) and not (isinstance(jx, tuple) and jx[0] == 'cat'):
            jx = ('cat', 0, jx)
        f[k] = a.get(jx) if isinstance(a, A) else a[ix]
    peq(u, 'coordinate system (origin)', rv.coordSys.origin, c.co)
    peq(u, 'coordinate system (axes)', rv.coordSys.rot, c.cr)
    for k in ('vignetted', 'failed'):
        peq(u, 'no ray starts ' + k, f[k], False)
    peq(u, 'wavelength as requested', f['wavelength'], c.wl)
    peq(u, 'flux as requested', f['flux'], flux)
    r = [f[k] for k in 'xyz']
    v = [f['v' + k] for k in 'xyz']
    P = c.pt([px, py, c.S(px, py)])
    V = c.pt([0.0, 0.0, c.S(0.0, 0.0)])
    peq(u, 'time zero', f['t'], 0.0)
    if c.source is None:
        d = c.d
        for q, x, y in zip('xyz', v, d):
            peq(u, 'velocity is the unit direction over the index: ' + q, mul(x, c.n), y)
        if c.given is not None:
            peq(u, 'the direction given is not changed', list(c.given), c.given0)
        off = subv(P, r)
        for i, j in ((0, 1), (1, 2), (2, 0)):
            peq(u, 'the ray goes through the requested stop point (%d%d)' % (i, j), sub(mul(off[i], d[j]), mul(off[j], d[i])), 0.0)
        peq(u, 'starts on one plane, the requested distance before the stop', mul3(subv(r, V), d), neg(c.back))
    else:
        src = c.glob(c.source)
        peq(u, 'starts at the source', r, src)
        off = subv(P, src)
        d2 = term(mul3(off, off))
        u.e.assume(tm.lt(ZERO, d2))
        s = NumR(tm.sqrt(d2))
        for q, x, y in zip('xyz', v, off):
            peq(u, 'velocity points from the source to the stop point, over the index: ' + q, mul(mul(x, c.n), s), y)


def index(u, n, name='k'):
    k = intv(name)
    u.assume(tm.le(tm.IZERO, k.v), tm.lt(k.v, n.v if hasattr(n, 'v') else tm.lit(n, I)))
    return k


def u_fromstop(case):
    return lambda u: u_fromstop_(u, case)


def u_fromstop_(u, case):
    c = setup(u, case)
    n = intv('n')
    u.assume(tm.le(tm.IONE, n.v))
    k = index(u, n)
    u.e.ghosts = [(k.v,)]
    how = u.e.choose(3)
    kw = dict(c.kw)
    flux = 1.0
    if how == 0:
        x, y = arr('px', n), arr('py', n)
        px, py = [mk(tm.app(q, (k.v,))) for q in ('px', 'py')]
        kw['flux'] = arr('fl', n)
        flux = mk(tm.app('fl', (k.v,)))
    elif how == 1:
        x, y = arr('px', n), real('py')
        px, py = mk(tm.app('px', (k.v,))), y
        flux = kw['flux'] = real('fl')
    else:
        x, y = real('px'), real('py')
        px, py, n, k = x, y, 1, 0
    rv = c.b.RayVector.fromStop(x, y, **kw)
    bundle(c, rv, n, k, px, py, flux)
    for q, a in (('px', x), ('py', y)):
        if isinstance(a, A):
            peq(u, 'the points given are not changed', a.get(k.v), mk(tm.app(q, (k.v,))))


def step(u, n, i):
    """place of sample i of n on an axis of unit length, and its offset in samples from the middle one"""
    k = sub(i, pysym.floordiv(n, 2))
    e = u.e
    one = lambda c: e.branch(pysym.boolterm(c) if not isinstance(c, bool) else tm.const(c))
    if one(pysym.cmp('==', n, 1)):
        return 0.0, 0
    if one(pysym.cmp('==', n, 2)):
        return div(k, 2), k
    if one(pysym.cmp('==', pysym.mod(n, 2), 0)):
        return div(k, sub(n, 2)), k
    return div(k, sub(n, 1)), k


def turn(a):
    """the vector turned by a quarter"""
    return [neg(a[1]), a[0]]


GMODES = ['nx, ny, lx, ly', 'nx, lx', 'nx, lx vector', 'nx, lx, ly vectors', 'nx, dx', 'nx, ny, dx, dy vectors', 'lx, dx', 'lx, dx, ly, dy',
          'nx']


def u_grid(mode, case):
    def go(u):
        c = setup(u, case)
        kw = dict(c.kw)
        nx, ny = intv('nx'), intv('ny')
        u.assume(tm.le(tm.IONE, nx.v), tm.le(tm.IONE, ny.v))
        lx, ly = real('lx'), real('ly')
        m = GMODES[mode]
        sc = False
        if m == 'nx, ny, lx, ly':
            kw.update(nx=nx, ny=ny, lx=lx, ly=ly)
            vx, vy = [lx, 0], [0, ly]
        elif m == 'nx, lx':
            kw.update(nx=nx, lx=lx)
            ny = nx
            vx, vy = [lx, 0], [0, lx]
        elif m == 'nx':
            kw.update(nx=nx)
            ny = nx
            lx = kw['optic'].pupilSize
            vx, vy = [lx, 0], [0, lx]
        elif m == 'nx, lx vector':
            vx = [real('lx0'), real('lx1')]
            kw.update(nx=nx, lx=list(vx))
            ny = nx
            vy = turn(vx)
        elif m == 'nx, lx, ly vectors':
            vx, vy = [real('lx0'), real('lx1')], [real('ly0'), real('ly1')]
            kw.update(nx=nx, lx=tuple(vx), ly=NP.array(vy))
            ny = nx
        elif m == 'nx, dx':
            kw.update(nx=nx, dx=lx)
            ny = nx
            vx, vy = [lx, 0], [0, lx]
            sc = True
        elif m == 'nx, ny, dx, dy vectors':
            vx, vy = [real('lx0'), real('lx1')], [real('ly0'), real('ly1')]
            kw.update(nx=nx, ny=ny, dx=NP.array(vx), dy=NP.array(vy))
            sc = True
        else:
            dx, dy = real('dx'), real('dy')
            u.assume(tm.lt(ZERO, dx.v), tm.lt(ZERO, dy.v), tm.lt(ZERO, lx.v), tm.lt(ZERO, ly.v))
            kw.update(lx=lx, dx=dx)
            if m == 'lx, dx':
                ly, dy = lx, dx
            else:
                kw.update(ly=ly, dy=dy)
            vx, vy = [lx, 0], [0, ly]

            def cnt(l, d):
                t = tm.floor(tm.div(tm.add(tm.div(l.v, d.v), tm.lit(pysym.Fraction(1, 10))), tm.lit(2)))
                return NumI(tm.add(tm.mul(t, tm.lit(2, I)), tm.lit(2, I)))
            nx, ny = cnt(lx, dx), cnt(ly, dy)
        i, j = index(u, nx, 'i'), index(u, ny, 'j')
        u.e.ghosts = [((j.v, i.v),)]
        flux = kw['flux'] = real('fl')
        (ax, kx), (ay, ky) = step(u, nx, i), step(u, ny, j)
        rv = c.b.RayVector.asGrid(**kw)
        if sc:
            ax, ay = kx, ky
        px, py = [add(mul(ax, p), mul(ay, q)) for p, q in zip(vx, vy)]
        bundle(c, rv, mul(nx, ny), (j.v, i.v), px, py, flux)
    return go


def captured(c):
    """the stop points are those at which the sag was asked for"""
    w = c.w
    got = []
    o = w.m_sag

    def m_sag(s, x, y):
        if isinstance(x, (A, SArr)):
            got.append((x.copy(), y.copy()))
        return o(s, x, y)
    w.m_sag = m_sag
    return got


def own(u, *xs):
    """nothing random is shared between the rays"""
    u.post('every random ray has draws of its own', tm.const(not any(
        t.op == 'var' and str(t.args[0]).startswith('rng') for x in xs for t in tm.subterms(term(x)))))


def u_grid_random(case):
    def go(u):
        c = setup(u, case)
        got = captured(c)
        n = intv('nr')
        u.assume(tm.le(tm.IONE, n.v))
        k = index(u, n)
        vx, vy = [real('lx0'), real('lx1')], [real('ly0'), real('ly1')]
        det = sub(mul(vx[0], vy[1]), mul(vx[1], vy[0]))
        u.assume(tm.lt(ZERO, det.v))
        rng = [None, 7, c.w.pkg and NP.random.default_rng(7)][u.e.choose(3)]
        rv = c.b.RayVector.asGrid(nx=3, lx=vx, ly=vy, nrandom=n, rng=rng, **c.kw)
        if len(got) != 1 or not isinstance(got[0][0], A):
            u.post('one sag evaluation of the random points', tm.FALSE)
            return
        px, py = got[0][0].get(k.v), got[0][1].get(k.v)
        bundle(c, rv, n, k, px, py, 1.0)
        own(u, px, py)
        h = tm.div(det.v, tm.lit(2))
        for nm, q in (('first', sub(mul(px, vy[1]), mul(py, vy[0]))), ('second', sub(mul(py, vx[0]), mul(px, vx[1])))):
            u.post('random points inside the parallelogram: %s coordinate' % nm,
                   tm.land(tm.le(tm.neg(h), term(q)), tm.le(term(q), h)))
        if rng == 7:
            n1 = len(got)
            c.b.RayVector.asGrid(nx=3, lx=vx, ly=vy, nrandom=n, rng=NP.random.default_rng(7), **c.kw)
            q = got[n1]
            peq(u, 'a seed and a generator of that seed give the same points', [q[0].get(k.v), q[1].get(k.v)], [px, py])
    return go


def u_polar(case, given):
    def go(u):
        c = setup(u, case)
        kw = dict(c.kw)
        n = intv('nh')
        u.assume(tm.le(tm.IONE, n.v))
        k = index(u, n)
        nrad, naz = intv('nrad'), intv('naz')
        outer, inner, kf = real('outer'), real('inner'), 6
        if given:
            kf = intv('kf')
            kw.update(outer=outer, inner=inner, kfold=kf)
        else:
            opt = kw.get('optic')
            if opt is None:
                kw.update(outer=outer)
                inner = 0
            else:
                outer = div(opt.pupilSize, 2)
                inner = 0
                if u.e.choose(2):
                    opt.pupilObscuration = real('obsc')
                    inner = div(mul(opt.pupilSize, opt.pupilObscuration), 2)

        def hexapolar(outer_=1.0, inner_=0.0, nrad_=5, naz_=30, kfold_=6, rth_=False):
            peq(u, 'hexapolar: outer radius', outer_, outer)
            peq(u, 'hexapolar: inner radius', inner_, inner)
            peq(u, 'hexapolar: number of rings', nrad_, nrad)
            peq(u, 'hexapolar: number of azimuths', naz_, naz)
            peq(u, 'hexapolar: azimuthal symmetry', kfold_, kf)
            r, t = arr('hr', n), arr('ht', n)
            return (r, t) if rth_ is True else (r * NP.cos(t), r * NP.sin(t))

        def contract(outer=1.0, inner=0.0, nrad=5, naz=30, kfold=6, rth=False):
            return hexapolar(outer, inner, nrad, naz, kfold, rth)
        replace(c.w, 'batoid.utils', 'hexapolar', contract)
        flux = kw['flux'] = real('fl')
        rv = c.b.RayVector.asPolar(nrad=nrad, naz=naz, **kw)
        r, t = tm.app('hr', (k.v,)), tm.app('ht', (k.v,))
        bundle(c, rv, n, k, mk(tm.mul(r, tm.fn1('cos', t))), mk(tm.mul(r, tm.fn1('sin', t))), flux)
    return go


def u_polar_random(case):
    def go(u):
        c = setup(u, case)
        got = captured(c)
        n = intv('nr')
        u.assume(tm.le(tm.IONE, n.v))
        k = index(u, n)
        outer, inner = real('outer'), real('inner')
        u.assume(tm.le(ZERO, inner.v), tm.lt(inner.v, outer.v))
        rng = [None, 7][u.e.choose(2)]
        rv = c.b.RayVector.asPolar(outer=outer, inner=inner, nrandom=n, rng=rng, **c.kw)
        if len(got) != 1 or not isinstance(got[0][0], A):
            u.post('one sag evaluation of the random points', tm.FALSE)
            return
        px, py = got[0][0].get(k.v), got[0][1].get(k.v)
        bundle(c, rv, n, k, px, py, 1.0)
        own(u, px, py)
        r2 = term(add(mul(px, px), mul(py, py)))
        u.post('random points inside the annulus', tm.land(tm.le(tm.mul(inner.v, inner.v), r2), tm.le(r2, tm.mul(outer.v, outer.v))))
    return go


def u_spokes(mode, case):
    def go(u):
        c = setup(u, case)
        kw = dict(c.kw)
        nr, ns = intv('nrings'), intv('nspokes')
        u.assume(tm.le(tm.IONE, nr.v), tm.le(tm.IONE, ns.v))
        outer, inner = real('outer'), real('inner')
        u.assume(tm.le(ZERO, inner.v), tm.lt(inner.v, outer.v))
        flux = real('fl')
        if mode == 0:
            kw.update(outer=outer, inner=inner, rings=nr, spokes=ns, flux=flux)
        elif mode == 1:
            kw.update(rings=arr('ring', nr), spokes=arr('spoke', ns), flux=flux)
        elif mode == 2:
            kw.update(outer=outer, inner=inner, rings=nr, spacing='GQ')
            if u.e.choose(2):
                ns = add(mul(2, nr), 1)
            else:
                kw['spokes'] = ns
        else:
            # radii from the optic
            kw.update(rings=nr, spokes=ns, flux=flux)
            outer, inner = div(kw['optic'].pupilSize, 2), 0
        i, j = index(u, nr, 'i'), index(u, ns, 'j')
        ang = mk(tm.div(tm.mul(tm.mul(tm.lit(2), PI), tm.toreal(j.v)), tm.toreal(val(ns))))
        if mode == 2:
            E2 = div(mul(inner, inner), mul(outer, outer))
            L = NumR(tm.app('leg_x', (nr.v, i.v)))
            W = NumR(tm.app('leg_w', (nr.v, i.v)))
            u.e.assume(tm.lt(tm.lit(-1), L.v))
            q = add(mul(inner, inner), mul(sub(mul(outer, outer), mul(inner, inner)), div(add(1, L), 2)))
            u.assume(tm.le(ZERO, term(q)))
            r = NumR(tm.sqrt(term(q)))
            u.assume(tm.le(ZERO, r.v), tm.eq(tm.mul(r.v, r.v), term(q)))
            flux = div(mul(mul(mk(PI), sub(1, E2)), W), mul(2, ns))
            rr = div(r, outer)
            roots(u, [term(rr)])
        elif mode == 1:
            r, ang = mk(tm.app('ring', (i.v,))), mk(tm.app('spoke', (j.v,)))
        else:
            if u.e.branch(tm.eq(nr.v, tm.IONE)):
                r = inner
            else:
                r = add(inner, div(mul(i, sub(outer, inner)), sub(nr, 1)))
        rv = c.b.RayVector.asSpokes(**kw)
        t = term(ang)
        bundle(c, rv, mul(nr, ns), (j.v, i.v), mul(r, mk(tm.fn1('cos', t))), mul(r, mk(tm.fn1('sin', t))), flux)
    return go


def u_fan(case):
    def go(u):
        c = setup(u, case)
        nx, ny = intv('nx'), intv('ny')
        u.assume(tm.le(tm.IONE, nx.v), tm.le(tm.IONE, ny.v), tm.lt(tm.lit(2, I), tm.add(nx.v, ny.v)))
        lx, ly = real('lx'), real('ly')
        bx, by = u.e.branch(tm.lt(tm.IONE, nx.v)), u.e.branch(tm.lt(tm.IONE, ny.v))
        flux = real('fl')
        first = bx and (not by or u.e.choose(2) == 0)
        if first:
            i = index(u, nx, 'i')
            ax, kx = step(u, nx, i)
            px, py, loc = mul(ax, lx), 0.0, (i.v,)
        else:
            i = index(u, ny, 'i')
            ax, kx = step(u, ny, i)
            px, py, loc = 0.0, mul(ax, ly), (i.v,)
        rv = c.b.RayVector.asFan(nx=nx, ny=ny, lx=lx, ly=ly, flux=flux, **c.kw)
        n = add(nx if bx else 0, ny if by else 0)
        if bx and by:
            ix = ('cat', 0 if first else 1, i.v)
        else:
            ix = i.v
        u.e.ghosts = [(i.v,)]
        bundle(c, rv, n, ix, px, py, flux)
    return go


def u_fields(case):
    def go(u):
        c = setup(u, case)
        w, b = c.w, c.b
        kw = {k: v for k, v in c.kw.items() if k in ('backDist', 'medium', 'stopSurface', 'wavelength', 'optic')}
        n = intv('n')
        u.assume(tm.le(tm.IONE, n.v))
        k = index(u, n)
        u.e.ghosts = [(k.v,)]
        tx, ty = arr('tx', n), arr('ty', n)
        pj = u.e.choose(2)

        def contract(x, y, projection='postel'):
            u.post('the field angles asked for', tm.const(x is tx and y is ty))
            u.post('the projection asked for', tm.const(projection == ('zemax' if pj else 'postel')))
            return tuple(arr('dir' + q, n) for q in 'xyz')
        replace(w, 'batoid.utils', 'fieldToDirCos', contract)
        if pj:
            kw['projection'] = 'zemax'
        px = py = 0
        if u.e.choose(2):
            px, py = kw['x'], kw['y'] = real('px'), real('py')
        flux = kw['flux'] = real('fl')
        rv = b.RayVector.fromFieldAngles(tx, ty, **kw)
        f = {}
        for q in RVF:
            a = getattr(rv, '_' + q)
            posts_true(u, 'one ray per field angle: ' + q, pysym.cmp('==', a.slen(), n))
            f[q] = a.get(k.v)
        peq(u, 'coordinate system of the stop (origin)', rv.coordSys.origin, c.so)
        peq(u, 'coordinate system of the stop (axes)', rv.coordSys.rot, c.sr)
        d = [mk(tm.app('dir' + q, (k.v,))) for q in 'xyz']
        p = [px, py, c.S(px, py)]
        for q, dd, pp in zip('xyz', d, p):
            peq(u, 'velocity is the direction over the index: ' + q, mul(f['v' + q], c.n), dd)
            peq(u, 'starts the requested distance before the pupil point: ' + q, f[q], sub(pp, mul(c.back, dd)))
        peq(u, 'at the pupil point at time zero', f['t'], neg(mul(c.back, c.n)))
        peq(u, 'flux as requested', f['flux'], flux)
        peq(u, 'wavelength as requested', f['wavelength'], c.wl)
        for q in ('vignetted', 'failed'):
            peq(u, 'no ray starts ' + q, f[q], False)
    return go


def u_errors(u):
    w, b = begin(u, BWorld)
    R_ = b.RayVector
    d = [0.0, 0.0, -1.0]
    wl = real('wl')
    for nm, f in (('three of nx, dx, lx', lambda: R_.asGrid(nx=3, lx=real('a'), dx=real('c'), dirCos=d, wavelength=wl)),
                  ('one of nx, dx, lx', lambda: R_.asGrid(nx=3, dirCos=d, wavelength=wl)),
                  ('none of nx, dx, lx', lambda: R_.asGrid(dirCos=d, wavelength=wl)),
                  ('asGrid without wavelength', lambda: R_.asGrid(nx=3, lx=real('a'), dirCos=d)),
                  ('asPolar without wavelength', lambda: R_.asPolar(outer=real('a'), nrad=2, naz=6, dirCos=d)),
                  ('asSpokes without wavelength', lambda: R_.asSpokes(outer=real('a'), rings=2, spokes=6, dirCos=d)),
                  ('fromStop without wavelength', lambda: R_.fromStop(real('x'), real('y'), dirCos=d)),
                  ('fromFieldAngles without wavelength', lambda: R_.fromFieldAngles(real('x'), real('y')))):
        u.post('refused: ' + nm, tm.const(isfail(f, ValueError)))


def hexa(outer, frac, nrad, naz, kf):
    """rings from outer to inner; each a multiple of kf azimuths, at most naz*rho/outer but at least kf;
    one point when the radius is zero"""
    out = []
    F = pysym.Fraction
    for i in range(nrad):
        q = F(1) if nrad == 1 else 1 - (1 - frac) * F(i, nrad - 1)
        m = max(int(naz * q // kf) * kf, kf)
        if i == nrad - 1 and q == 0:
            m = 1
        for a in range(m):
            out.append((q, F(a, m)))
    return out


def u_hexapolar(u):
    w, b = begin(u)
    f = w.pkg.load('batoid.utils').hexapolar
    F = pysym.Fraction
    outer = real('outer')
    u.assume(tm.lt(ZERO, outer.v))
    for nrad, naz, kf in ((1, 7, 6), (2, 12, 6), (3, 13, 4), (4, 9, 1), (3, 5, 6), (2, 20, 5), (5, 30, 6), (6, 24, 3)):
        for fr in (F(0), F(1, 2), F(3, 5)):
            inner = mul(outer, mk(tm.lit(fr))) if fr else 0.0
            want = hexa(outer, fr, nrad, naz, kf)
            what = 'hexapolar(nrad=%d, naz=%d, kfold=%d, inner=%s outer)' % (nrad, naz, kf, fr)
            rr, th = f(outer=outer, inner=inner, nrad=nrad, naz=naz, kfold=kf, rth=True)
            x, y = f(outer, inner, nrad, naz, kf)
            if not (len(rr) == len(th) == len(x) == len(y) == len(want)):
                u.post(what + ': number of points', tm.FALSE)
                continue
            peq(u, what + ': radii', rr, [mul(outer, mk(tm.lit(q))) for q, a in want])
            peq(u, what + ': azimuths', th, [mk(tm.mul(tm.mul(tm.lit(2), PI), tm.lit(a))) for q, a in want])
            peq(u, what + ': x', x, [mk(tm.mul(term(r), tm.fn1('cos', term(t)))) for r, t in zip(rr, th)])
            peq(u, what + ': y', y, [mk(tm.mul(term(r), tm.fn1('sin', term(t)))) for r, t in zip(rr, th)])


def units(tier='quick'):
    r = []
    for k in range(len(CASES)):
        r.append(punit('RayVector.fromStop ' + LBL[k], [RV + 'fromStop', RV + '_finish'], u_fromstop(k)))
    for m in range(len(GMODES)):
        ks = (1, 5) if GMODES[m] == 'nx' else (0, 2, 3) if m in (0, 2) else (0, 2)
        if tier == 'quick':
            # the cases that split the path most are left to the source point, where there are fewer paths
            ks = {'nx': (1, 5), 'nx, lx': (0,), 'nx, lx vector': (2, 3)}.get(GMODES[m], (2,))
        for k in ks:
            r.append(punit('RayVector.asGrid %s %s' % (GMODES[m], LBL[k]), [RV + 'asGrid', RV + '_finish'], u_grid(m, k)))
    r.append(punit('RayVector.asGrid nrandom', [RV + 'asGrid', RV + '_finish'], u_grid_random(0)))
    for k in range(len(CASES)):
        r.append(punit('RayVector.asPolar ' + LBL[k], [RV + 'asPolar', RV + '_finish'], u_polar(k, k in (0, 2, 4))))
    r.append(punit('RayVector.asPolar default radius', [RV + 'asPolar', RV + '_finish'], u_polar(4, False)))
    r.append(punit('RayVector.asPolar nrandom', [RV + 'asPolar', RV + '_finish'], u_polar_random(0)))
    for m, k in ((0, 0), (0, 2), (0, 3), (1, 1), (2, 4), (3, 1), (3, 5)):
        r.append(punit('RayVector.asSpokes %d %s' % (m, LBL[k]), [RV + 'asSpokes', RV + '_finish'], u_spokes(m, k)))
    for k in (2,) if tier == 'quick' else (0, 2, 3):
        r.append(punit('RayVector.asFan ' + LBL[k], [RV + 'asFan', RV + 'asGrid', RV + '_finish',
                                                     'batoid/rayVector.py::concatenateRayVectors'], u_fan(k)))
    for k in (0, 1, 2, 3):
        r.append(punit('RayVector.fromFieldAngles ' + LBL[k], [RV + 'fromFieldAngles', RV + 'propagate'], u_fields(k)))
    r.append(punit('bundles: refused arguments', [RV + 'asGrid', RV + 'asPolar', RV + 'asSpokes', RV + 'fromStop',
                                                  RV + 'fromFieldAngles'], u_errors))
    h = punit('hexapolar', ['batoid/utils.py::hexapolar'], u_hexapolar)
    h.bounded = 'at most 6 rings, 30 azimuths, kfold 1, 3, 4, 5, 6, inner/outer 0, 1/2, 3/5; any outer radius'
    r.append(h)
    return r
