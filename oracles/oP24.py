"""Run under AddressSanitizer: an access outside an array ends the process, the check names the case."""
import numpy as np, batoid, ref

HUGE = [0., 1e-300, 1., -1., .5, 1e3, -1e7, 1e9, -3e9, 1e18, -1e300, 1.7e308, np.nextafter(1, 2), np.nextafter(1, 0)]


def queries(rng, marks, n=60):
    m = np.asarray(marks, float)
    q = [np.array(HUGE), m, np.nextafter(m, np.inf), np.nextafter(m, -np.inf), rng.uniform(m.min()-1, m.max()+1, n)]
    if len(m) > 1:
        q += [m[:-1]+.5*np.diff(m)]
    return np.concatenate(q)


def rays(rng, n, scale=2., fail=True):
    a = rng.normal(size=(7, n))*scale
    a[5] = -np.abs(a[5])-.3
    return batoid.RayVector(*[q.copy() for q in a], rng.uniform(3e-7, 9e-7, n), rng.uniform(.5, 1, n), rng.uniform(size=n) < .2, (rng.uniform(size=n) < .2) & fail)


def surfaces(rng):
    R = 9.
    yield 'Plane', batoid.Plane(), [0.]
    yield 'Tilted', batoid.Tilted(.1, -.2), [0.]
    yield 'Paraboloid', batoid.Paraboloid(R), [0., R, -R]
    yield 'Sphere', batoid.Sphere(-R), [0., R, -R]
    yield 'Quadric', batoid.Quadric(R, .7), [0., R/np.sqrt(1.7)]
    for c in ([], [1e-3], [1e-3, 1e-4], list(rng.normal(size=int(rng.integers(3, 20)))*1e-6)):
        for i in (1, 2, 5):
            yield 'Asphere %d from %d' % (len(c), i), batoid.Asphere(R, -.5, c, i), [0., 1.]
            yield 'Asphere %d from %d, array' % (len(c), i), batoid.Asphere(R, -.5, np.array(c), i), [0., 1.]
    for k in (1, 2, 3, 4, 7, 11, int(rng.integers(12, 60))):
        yield 'Zernike %d' % k, batoid.Zernike(rng.normal(size=k)*1e-3, 1.3, float(rng.choice([0., .4])), .1, -.2), [0., 1.3]
    for nx, ny in ((2, 2), (2, 3), (3, 2), (2, 7), (5, 2), (4, 4), tuple(int(q) for q in rng.integers(2, 12, 2))):
        xs, ys = np.linspace(-1, 1, nx), np.linspace(-.5, 2, ny)
        m = list(xs)+list(ys)
        for nan in ('nan', 'zero'):
            yield 'Bicubic %dx%d %s' % (nx, ny, nan), batoid.Bicubic(xs, ys, rng.normal(size=(ny, nx))*.1, nanpolicy=nan), m
            yield 'Bicubic %dx%d given slopes' % (nx, ny), batoid.Bicubic(xs, ys, *rng.normal(size=(4, ny, nx))*.1, nanpolicy=nan), m
    for k in (1, 2, 3, 6):
        it = [[batoid.Plane(), batoid.Asphere(R, 0., [1e-3, 1e-5]), batoid.Zernike([0, 1e-3, 1e-3], 2.), batoid.Bicubic([0., 1.], [0., 1.], np.zeros((2, 2))),
               batoid.Quadric(R, 0.)][rng.integers(5)] for _ in range(k)]
        yield 'Sum %d' % k, batoid.Sum(it), [0., 1.]


def obscurations(rng):
    yield 'circle', batoid.ObscCircle(1., .1, .2), [1.1]
    yield 'annulus', batoid.ObscAnnulus(.5, 1., .1, .2), [1.1]
    yield 'rectangle', batoid.ObscRectangle(1., .5, .1, .2, .3), [.6]
    yield 'ray', batoid.ObscRay(.2, .3, .1, .2), [.1]
    for k in (3, 4, 5, 9, int(rng.integers(10, 40))):
        v = rng.normal(size=(2, k))
        if rng.uniform() < .5:
            v = np.round(v*2)/2
        yield 'polygon %d' % k, batoid.ObscPolygon(v[0], v[1]), list(v.ravel())
    for k in (1, 2, 5):
        it = [[batoid.ObscCircle(.4, .1, .1), batoid.ObscRay(.1, .1, 0, 0), batoid.ObscNegation(batoid.ObscCircle(2.)), batoid.ObscPolygon([0, 1, 1.], [0, 0, 1.])][rng.integers(4)] for _ in range(k)]
        yield 'union %d' % k, batoid.ObscUnion(it), [0.]
        yield 'intersection %d' % k, batoid.ObscIntersection(it), [0.]


def media(rng):
    yield 'const', batoid.ConstMedium(1.3), [1.]
    for k in (2, 3, 4, int(rng.integers(5, 40))):
        w = np.cumsum(rng.uniform(.1, 1, k))*1e-7
        yield 'table %d' % k, batoid.TableMedium(w, rng.uniform(1, 2, k)), list(w)
    yield 'sellmeier', batoid.SellmeierMedium(*ref.SILICA), [5e-7]
    yield 'sumita', batoid.SumitaMedium(2.2, -1e-2, 1e-2, 1e-4, 1e-5, -1e-6), [5e-7]
    yield 'air', batoid.Air(), [5e-7]


def run(rec, rng, tier):
    rec.rule = 'every kind x smallest and other lengths x query points at, just beside and far from every node, under AddressSanitizer'
    rec.bound = 'sampled lengths and points'

    def go(what, fn, ok=()):
        rec.count(what.split(' ')[0])
        rec.at(what)
        try:
            return fn()
        except ok:
            return None
        except Exception as x:
            rec.bad('%s: raises %r' % (what, x))
    for _ in range(6 if tier == 'thorough' else 1):
        for nm, s, marks in surfaces(rng):
            q = queries(rng, marks, 30)
            x, y = np.meshgrid(q, q[rng.integers(0, len(q), 25)])
            for n in (0, 1, 2):
                go('sag %s n=%d' % (nm, n), lambda: s.sag(x.ravel()[:n], y.ravel()[:n]))
                go('normal %s n=%d' % (nm, n), lambda: s.normal(x.ravel()[:n], y.ravel()[:n]))
            z = go('sag %s' % nm, lambda: s.sag(x, y))
            rec.check(z is not None and z.shape == x.shape, 'one height per point', surface=nm)
            z = go('normal %s' % nm, lambda: s.normal(x, y))
            rec.check(z is not None and z.shape == x.shape+(3,), 'one normal per point', surface=nm)
            for n in (0, 1, 2, 3, 17):
                batoid.global_vars._batoid_max_threads = int(rng.choice([1, 2, 8, 40]))
                for sc in (.5, 1e3):
                    w = dict(n=n)
                    cs = ref.randcs(rng)
                    go('intersect %s n=%d' % (nm, n), lambda: s.intersect(rays(rng, n, sc), coordSys=cs))
                    go('reflect %s n=%d' % (nm, n), lambda: s.reflect(rays(rng, n, sc), coordSys=cs))
                    go('refract %s n=%d' % (nm, n), lambda: s.refract(rays(rng, n, sc), batoid.ConstMedium(1.1), batoid.TableMedium([1e-7, 1e-6], [1.2, 1.4]), coordSys=cs))
                    go('rSplit %s n=%d' % (nm, n), lambda: s.rSplit(rays(rng, n, sc), batoid.ConstMedium(1.1), batoid.ConstMedium(1.4), batoid.SimpleCoating(.1, .9), coordSys=cs))
                    go('screen %s n=%d' % (nm, n), lambda: batoid.Plane().refractScreen(rays(rng, n, sc), s, coordSys=cs))
                    go('screen on %s n=%d' % (nm, n), lambda: s.refractScreen(rays(rng, n, sc), batoid.Plane(), coordSys=cs))
            go('withCoating %s' % nm, lambda: s.intersect(rays(rng, 5), coating=batoid.SimpleCoating(.2, .3)))
        for nm, o, marks in obscurations(rng):
            q = queries(rng, marks, 30)
            x, y = np.meshgrid(q, q[rng.integers(0, len(q), 40)])
            for sh in ((0,), (1,), (2,), x.shape):
                m = int(np.prod(sh))
                r = go('contains %s %r' % (nm, sh), lambda: o.contains(x.ravel()[:m].reshape(sh), y.ravel()[:m].reshape(sh)))
                rec.check(r is not None and np.shape(r) == sh, 'one answer per point', obsc=nm, shape=list(sh), got=repr(np.shape(r)))
            for n in (0, 1, 2, 33):
                batoid.global_vars._batoid_max_threads = int(rng.choice([1, 2, 8, 40]))
                go('obscure %s n=%d' % (nm, n), lambda: o.obscure(rays(rng, n)))
            if isinstance(o, batoid.ObscPolygon):
                for a in (0, 1, 2, 5, 40):
                    for b in (0, 1, 2, 33):
                        X, Y = np.sort(rng.choice(np.concatenate([marks, rng.normal(size=50)*2]), a)), np.sort(rng.choice(np.concatenate([marks, rng.normal(size=50)*2]), b))
                        r = go('containsGrid %s %dx%d' % (nm, a, b), lambda: o.containsGrid(X, Y))
                        rec.check(r is not None and r.shape == (b, a), 'one answer per grid point', obsc=nm, shape=[b, a])
        for nm, m, marks in media(rng):
            w = np.concatenate([np.asarray(marks)*f for f in (1, 1-1e-16, 1+3e-16, .5, 2, 1e-3, 1e3)]+[rng.uniform(1e-8, 1e-5, 100)])
            for sh in ((0,), (1,), (2,), (len(w),), (7, len(w)//7)):
                k = int(np.prod(sh))
                r = go('getN %s %r' % (nm, sh), lambda: m.getN(w[:k].reshape(sh)))
                rec.check(r is not None and np.shape(r) == sh, 'one index per wavelength', medium=nm, shape=list(sh))
            go('getN %s scalar' % nm, lambda: m.getN(float(w[0])))
            for n in (0, 1, 9):
                go('refract %s n=%d' % (nm, n), lambda: batoid.Plane().refract(rays(rng, n), m, m))
        # ray batches
        for n in (0, 1, 2, 3, 50):
            for th in (1, 2, 7, 8, 64):
                batoid.global_vars._batoid_max_threads = th
                r = rays(rng, n)
                w = 'n=%d threads=%d' % (n, th)
                go('propagate '+w, lambda: r.copy().propagate(1.5))
                go('positionAtTime '+w, lambda: r.positionAtTime(1.5))
                go('phase '+w, lambda: r.phase([0., 1., 2.], 0.))
                go('amplitude '+w, lambda: r.amplitude([0., 1., 2.], 0.))
                go('sumAmplitude '+w, lambda: r.sumAmplitude([0., 1., 2.], 0.))
                go('toCoordSys '+w, lambda: r.copy().toCoordSys(ref.randcs(rng)))
                go('concatenate '+w, lambda: batoid.concatenateRayVectors([r, r[:0], r]))
                go('slice '+w, lambda: [r[:], r[::2], r[n:], r[np.zeros(n, bool)]])
                go('equal '+w, lambda: (r == r.copy(), r == rays(rng, n+1)))
                go('obscure '+w, lambda: batoid.ObscCircle(1.).obscure(r.copy()))
                for k in 'x y z vx vy vz t wavelength flux vignetted failed r v k kx ky kz omega'.split():
                    a = go('read %s %s' % (k, w), lambda: np.array(getattr(r, k)))
                    rec.check(a is not None and len(a) == n, 'one value per ray', field=k, n=n)
        batoid.global_vars._batoid_max_threads = 4
        for n in (1, 2, 3, 8):
            kw = dict(backDist=3., wavelength=5e-7, dirCos=[0, 0, -1.], medium=batoid.ConstMedium(1.), stopSurface=batoid.Interface(batoid.Plane()))
            go('asGrid %d' % n, lambda: batoid.RayVector.asGrid(nx=n, lx=1., **kw), ok=(ValueError, ZeroDivisionError))
            go('asPolar %d' % n, lambda: batoid.RayVector.asPolar(outer=1., inner=.2, nrad=n, naz=7, **kw), ok=(ValueError,))
            go('asSpokes %d' % n, lambda: batoid.RayVector.asSpokes(outer=1., inner=.2, rings=n, spokes=n, **kw), ok=(ValueError,))
    # whole systems
    for nm in ('HSC.yaml', 'LSST_r.yaml', 'DECam.yaml'):
        t = batoid.Optic.fromYaml(nm)
        for n in (0, 1, 30):
            x = rng.normal(size=(2, n))
            r = batoid.RayVector(x[0], x[1], np.full(n, 14.), np.zeros(n), np.zeros(n), np.full(n, -1.), np.zeros(n), np.full(n, 6.2e-7), np.ones(n))
            go('trace %s n=%d' % (nm, n), lambda: t.trace(r.copy()))
            go('traceFull %s n=%d' % (nm, n), lambda: t.traceFull(r.copy()))
