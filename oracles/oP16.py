import numpy as np, batoid, ref
from batoid import RayVector
from oP17 import ref as dircos, NM


def bowl(rng):
    R, k = rng.uniform(20, 40)*rng.choice([-1, 1]), rng.choice([-2., -1., 0., .5])
    return ref.Sf('Quadric(%g,%g)' % (R, k), batoid.Quadric(R, k), ref.conic(R, k)[0], 4.)


def stop(rng):
    k = rng.integers(4)
    sf = [ref.plane, lambda: ref.tilted(rng), lambda: bowl(rng), lambda: ref.paraboloid(rng)][k]()
    c = batoid.CoordSys() if rng.uniform() < .3 else ref.randcs(rng, 1., big=False)
    return sf, c, batoid.Interface(sf.surf, coordSys=c)


def cs(rng):
    return batoid.CoordSys() if rng.uniform() < .4 else ref.randcs(rng, 2.)


def grid1(l, n):
    if n == 1:
        return np.zeros(1)
    if n == 2:
        return np.array([-.5, 0.])*l
    if n % 2:
        return (np.arange(n)-(n-1)//2)*l/(n-1)
    return (np.arange(n)-n//2)*l/(n-2)


def bundle(rec, what, rv, px, py, sf, sc, oc, med, wl, flux, back, dc=None, source=None):
    """the contract of every generated bundle: stop points (px, py) in stop coordinates"""
    px, py = np.asarray(px, float).ravel(), np.asarray(py, float).ravel()
    N = len(px)
    if not rec.check(len(rv) == N, 'one ray per requested point', got=len(rv), want=N, **what):
        return
    rec.check(rv.coordSys == oc, 'coordinate system is the one asked for', **what)
    n = float(med.getN(wl))
    ps = np.column_stack([px, py, sf.sag(px, py)])
    p = ref.tolocal(oc, ref.toglobal(sc, ps))
    r, v = rv.r, rv.v
    sp = np.sqrt((v**2).sum(1))
    rec.close(sp*n, np.ones(N), 'rays travel at the speed of the medium', atol=1e-12, **what)
    u = v/sp[:, None]
    off = p-r
    along = (off*u).sum(1)
    rec.close(off-along[:, None]*u, np.zeros((N, 3)), 'rays cross the stop at the requested points', atol=1e-9*(1+back), rtol=0, **what)
    rec.check(not rv.failed.any() and not rv.vignetted.any(), 'no ray starts failed or vignetted', **what)
    rec.close(rv.wavelength, np.full(N, wl), 'wavelength as requested', atol=0, rtol=0, **what)
    rec.close(rv.flux, np.broadcast_to(flux, (N,)), 'flux as requested', atol=0, rtol=0, **what)
    if source is None:
        d = np.asarray(dc, float)
        d = d/np.sqrt(d@d)
        rec.close(u, np.broadcast_to(d, (N, 3)), 'requested direction', atol=1e-12, **what)
        vert = ref.tolocal(oc, ref.toglobal(sc, np.array([0., 0., float(sf.sag(0., 0.))])))
        rec.close((r-vert)@d-rv.t/n, np.full(N, -back), 'one plane wave, the requested distance before the stop', atol=1e-10*(1+back), rtol=0, **what)
        if N:
            ph = rv.phase(r[0], rv.t[0])
            rec.close(ph*wl, np.zeros(N), 'phases agree with one plane wave', atol=1e-10*(1+back), rtol=0, **what)
    else:
        s = ref.tolocal(oc, np.asarray(source, float))
        rec.close(r-u*(rv.t/n)[:, None], np.broadcast_to(s, (N, 3)), 'one spherical wave from the source', atol=1e-10*(1+np.abs(s).max()), rtol=0, **what)
        rec.check(np.all(along > -1e-9), 'rays head away from the source towards the stop', **what)


def common(rng):
    sf, sc, st = stop(rng)
    oc = cs(rng)
    name, med, _ = ref.media(rng)[rng.integers(5)]
    wl = rng.uniform(320e-9, 1000e-9)
    back = float(rng.choice([0., 1., 40., rng.uniform(.1, 100)]))
    kw = dict(stopSurface=st, medium=med, wavelength=wl, backDist=back, coordSys=oc)
    q = dict(sf=sf, sc=sc, oc=oc, med=med, wl=wl, back=back)
    m = rng.integers(4)
    if m == 0:
        d = rng.normal(size=3)*rng.uniform(.3, 3)
        kw['dirCos'], q['dc'] = [d, list(d), tuple(d)][rng.integers(3)], d
    elif m == 1:
        d = [np.array([0, 0, -1.]), np.array([1., 0, 0]), np.array([0, -1., 0]), np.array([0, 0, 1.])][rng.integers(4)]
        kw['dirCos'], q['dc'] = d, d
    elif m == 2:
        pj = str(rng.choice(NM))
        t = rng.normal(size=2)*.1
        kw.update(theta_x=float(t[0]), theta_y=float(t[1]), projection=pj)
        q['dc'] = dircos(pj, *t)
        if pj == 'lambert':
            q['dc'] = np.array(q['dc'])
    else:
        s = rng.normal(size=3)*5+np.array([0, 0, 30.])*rng.choice([1, -1])
        kw['source'], q['source'] = [s, list(s)][rng.integers(2)], s
    return kw, q, dict(stop=sf.name, medium=name, back=back, mode=int(m))


def flux1(rng):
    return float(rng.choice([1., .5, rng.uniform(0, 3)]))


def g_grid(rec, rng):
    kw, q, what = common(rng)
    nx, ny = (int(k) for k in rng.integers(1, 9, 2))
    if rng.uniform() < .3:
        ny = nx
    th = rng.uniform(0, 2*np.pi)
    vec = rng.uniform() < .4
    L = rng.uniform(.5, 3)
    L2 = rng.uniform(.5, 3)
    lx, ly = (L, L2) if not vec else (L*np.array([np.cos(th), np.sin(th)]), L2*np.array([-np.sin(th+.3), np.cos(th+.3)]))
    mode = rng.integers(3)
    args = {}

    def rot(a):
        return a if np.isscalar(a) else np.array([-a[1], a[0]])
    dfl_y = rng.uniform() < .4           # y follows x
    if dfl_y:
        ny, ly = nx, rot(lx)
    if mode == 0:
        args = dict(nx=nx, lx=lx) if dfl_y else dict(nx=nx, ny=ny, lx=lx, ly=ly)
        ax, ay = grid1(1., nx), grid1(1., ny)
    elif mode == 1:
        lx, ly = np.multiply(lx, .3), np.multiply(ly, .3)
        if not vec:
            lx, ly = float(lx), float(ly)
        dx, dy = lx, ly
        args = dict(nx=nx, dx=dx) if dfl_y else dict(nx=nx, ny=ny, dx=dx, dy=dy)
        ax, ay = (np.arange(n)-n//2 for n in (nx, ny))
    else:
        if vec:
            lx, ly = L, L if dfl_y else L2
            vec = False
        fx, fy = rng.uniform(1.2, 7.5, 2)
        if dfl_y:
            fy = fx
        dx, dy = lx/fx, ly/fy
        args = dict(lx=lx, dx=dx) if dfl_y else dict(lx=lx, dx=dx, ly=ly, dy=dy)
        nx, ny = (int((f+.1)//2)*2+2 for f in (fx, fy))
        ax, ay = grid1(1., nx), grid1(1., ny)
    X, Y = np.meshgrid(ax, ay)
    vx = np.array([lx, 0.]) if np.isscalar(lx) else lx
    vy = np.array([0., ly]) if np.isscalar(ly) else ly
    P = X.ravel()[:, None]*vx + Y.ravel()[:, None]*vy
    fl = flux1(rng)
    what.update(nx=nx, ny=ny, how=int(mode), vector=bool(vec), kind='grid')
    rv = rec.attempt('asGrid', lambda: RayVector.asGrid(flux=fl, **args, **kw), **what)
    if rv is not None:
        bundle(rec, what, rv, P[:, 0], P[:, 1], flux=fl, **q)
    # random
    m = int(rng.integers(1, 200))
    s = int(rng.integers(1000))
    lx, ly = rng.normal(size=(2, 2))
    rv = rec.attempt('asGrid random', lambda: RayVector.asGrid(nx=3, lx=lx, ly=ly, nrandom=m, rng=s, flux=fl, **kw), **what)
    rv2 = rec.attempt('asGrid random', lambda: RayVector.asGrid(nx=3, lx=lx, ly=ly, nrandom=m, rng=np.random.default_rng(s), flux=fl, **kw), **what)
    if rv is not None and rv2 is not None:
        rec.check(rv == rv2, 'a seed and a generator of that seed give the same rays', **what)
        if np.any(np.abs(ref.vlocal(q['sc'], rv.v@q['oc'].rot.T)[:, 2])*q['med'].getN(q['wl']) < .7):
            return
        px, py = onstop(rec, rv, q)
        bundle(rec, dict(what, kind='random grid'), rv, px, py, flux=fl, **q)
        ab = np.linalg.solve(np.array([lx, ly]).T, np.array([px, py]))
        rec.check(len(rv) == m and np.all(np.abs(ab) <= .5+1e-7), 'random rays inside the parallelogram', **what)
        spread(rec, ab[0]+.5, ab[1]+.5, what)


def spread(rec, a, b, what):
    """two independent coordinates, each uniform on the unit interval"""
    m = len(a)
    for c in (a, b):
        rec.check(len(np.unique(np.round(c, 10))) > .99*m-1, 'every random ray has its own place', **what)
        if m > 30:
            h = np.sort(c)
            ks = np.max(np.abs(h-(np.arange(m)+.5)/m))
            rec.check(ks < 3.5/np.sqrt(m), 'random rays cover the area evenly', **what)
    if m > 30:
        cor = np.mean((a-.5)*(b-.5))*12
        rec.check(abs(cor) < 7/np.sqrt(m), 'random rays cover the area evenly in both coordinates', **what)


def onstop(rec, rv, q):
    """where rays cross the stop (by following them), in stop coordinates"""
    p, v = ref.tolocal(q['sc'], ref.toglobal(q['oc'], rv.r)), ref.vlocal(q['sc'], rv.v@q['oc'].rot.T)
    def sag(x, y):
        w = q['sf'].sag(x, y)
        return np.where(np.isfinite(w), w, 0.)
    s = -p[:, 2]/v[:, 2]
    for _ in range(300):
        e = p+v*s[:, None]
        s = s-(e[:, 2]-sag(e[:, 0], e[:, 1]))/v[:, 2]
    e = p+v*s[:, None]
    return e[:, 0], e[:, 1]


def g_polar(rec, rng):
    kw, q, what = common(rng)
    outer = rng.uniform(.5, 2.)
    inner = 0. if rng.uniform() < .5 else rng.uniform(.1, .9)*outer
    nrad, naz, kf = int(rng.integers(1, 8)), int(rng.integers(1, 40)), int(rng.choice([6, 6, 1, 4, 5]))
    fl = flux1(rng)
    what.update(nrad=nrad, naz=naz, kfold=kf, inner=inner, outer=outer, kind='polar')
    a = dict(outer=outer, nrad=nrad, naz=naz)
    if inner or rng.uniform() < .5:
        a['inner'] = inner
    if kf != 6 or rng.uniform() < .5:
        a['kfold'] = kf
    rv = rec.attempt('asPolar', lambda: RayVector.asPolar(flux=fl, **a, **kw), **what)
    pr, pt = [], []
    ok = True
    x, y = rec.attempt('hexapolar', lambda: batoid.utils.hexapolar(outer=outer, inner=inner, nrad=nrad, naz=naz, kfold=kf), **what)
    rr, tt = batoid.utils.hexapolar(outer=outer, inner=inner, nrad=nrad, naz=naz, kfold=kf, rth=True)
    rec.close([x, y], [rr*np.cos(tt), rr*np.sin(tt)], 'hexapolar: cartesian and polar forms agree', atol=1e-14, **what)
    i = 0
    for rho in np.linspace(outer, inner, nrad):
        j = i
        while j < len(rr) and abs(rr[j]-rho) < 1e-12:
            j += 1
        m = j-i
        if rho == 0:
            ok &= m == 1
        else:
            f = naz*rho/outer
            ok &= m % kf == 0 and m >= kf and (m <= f+1e-9 or m == kf) and m > f-kf-1e-9
            ok &= bool(np.allclose(tt[i:j], 2*np.pi*np.arange(m)/max(m, 1), atol=1e-12))
        i = j
    rec.check(ok and i == len(rr), 'hexapolar rings: equally spaced radii, kfold multiples of equally spaced azimuths', **what)
    if rv is not None:
        bundle(rec, what, rv, x, y, flux=fl, **q)
    if 'inner' in a and inner:
        m, s = int(rng.integers(1, 100)), int(rng.integers(1000))
        rv = rec.attempt('asPolar random', lambda: RayVector.asPolar(outer=outer, inner=inner, nrandom=m, rng=s, flux=fl, **kw), **what)
        if rv is not None and np.all(np.abs(ref.vlocal(q['sc'], rv.v@q['oc'].rot.T)[:, 2])*q['med'].getN(q['wl']) > .7):
            px, py = onstop(rec, rv, q)
            bundle(rec, dict(what, kind='random polar'), rv, px, py, flux=fl, **q)
            r = np.hypot(px, py)
            rec.check(len(rv) == m and np.all((r > inner-1e-7) & (r < outer+1e-7)), 'random rays inside the annulus', **what)
            spread(rec, (r*r-inner**2)/(outer**2-inner**2), np.arctan2(py, px)/2/np.pi % 1, what)


def g_spokes(rec, rng):
    kw, q, what = common(rng)
    outer = rng.uniform(.5, 2.)
    inner = 0. if rng.uniform() < .5 else rng.uniform(.1, .9)*outer
    nr, ns = int(rng.integers(1, 7)), int(rng.integers(1, 9))
    m = rng.integers(4)
    fl = flux1(rng)
    what.update(rings=nr, spokes=ns, kind='spokes', how=int(m))
    if m == 0:
        a = dict(outer=outer, inner=inner, rings=nr, spokes=ns)
        R, S = np.linspace(inner, outer, nr), 2*np.pi*np.arange(ns)/ns
    elif m == 1:
        R, S = rng.uniform(.1, outer, nr), rng.uniform(0, 6, ns)
        a = dict(rings=R, spokes=S)
    elif m == 2:
        R, S = rng.uniform(.1, outer, nr), 2*np.pi*np.arange(ns)/ns
        a = dict(rings=list(R), spokes=ns)
    else:
        a = dict(outer=outer, inner=inner, rings=nr, spacing='GQ')
        if rng.uniform() < .5:
            a['spokes'] = ns
        else:
            ns = 2*nr+1
        rv = rec.attempt('asSpokes', lambda: RayVector.asSpokes(**a, **kw), **what)
        if rv is None:
            return
        L, w = np.polynomial.legendre.leggauss(nr)
        e2 = (inner/outer)**2
        R = outer*np.sqrt(e2+(1-e2)*(1+L)/2)
        T, RR = np.meshgrid(2*np.pi*np.arange(ns)/ns, R, indexing='ij')
        bundle(rec, what, rv, RR*np.cos(T), RR*np.sin(T), flux=np.array(rv.flux), **q)
        for p in range(min(2*nr, 5)):
            got = float((rv.flux*(RR.ravel()/outer)**(2*p)).sum())
            rec.close(got, np.pi*(1-e2**(p+1))/(p+1), 'Gaussian quadrature weights integrate even powers of the radius', atol=1e-12, p=p, **what)
        return
    rv = rec.attempt('asSpokes', lambda: RayVector.asSpokes(flux=fl, **a, **kw), **what)
    T, RR = np.meshgrid(S, R, indexing='ij')
    if rv is not None:
        bundle(rec, what, rv, RR*np.cos(T), RR*np.sin(T), flux=fl, **q)


def g_stop(rec, rng):
    kw, q, what = common(rng)
    n = int(rng.choice([1, 1, 2, 5, 300]))
    x, y = rng.uniform(-1, 1, (2, n))
    fl = flux1(rng) if rng.uniform() < .5 else rng.uniform(0, 2, n)
    what.update(n=n, kind='fromStop')
    X, Y = x, y
    m = rng.integers(4)
    if m == 0 and n == 1:
        X, Y = float(x[0]), float(y[0])
    elif m == 1:
        Y = float(y[0])
        y = np.full(n, y[0])
    elif m == 2:
        X, Y = x.tolist(), y.tolist()
    kx, ky = x.copy(), y.copy()
    rv = rec.attempt('fromStop', lambda: RayVector.fromStop(X, Y, flux=fl, **kw), **what)
    rec.check(np.array_equal(kx, x) and np.array_equal(ky, y), 'the pupil points given are not changed', **what)
    if rv is not None:
        bundle(rec, what, rv, x, y, flux=fl, **q)


def g_fan(rec, rng):
    kw, q, what = common(rng)
    nx, ny = int(rng.integers(1, 8)), int(rng.integers(2, 8))
    lx, ly = rng.uniform(.5, 2., 2)
    what.update(nx=nx, ny=ny, kind='fan')
    rv = rec.attempt('asFan', lambda: RayVector.asFan(nx=nx, ny=ny, lx=lx, ly=ly, **kw), **what)
    if rv is not None:
        px = np.concatenate([grid1(lx, nx) if nx > 1 else [], np.zeros(ny)])
        py = np.concatenate([np.zeros(nx if nx > 1 else 0), grid1(ly, ny)])
        bundle(rec, what, rv, px, py, flux=1., **q)


def g_fields(rec, rng):
    sf, sc, st = stop(rng)
    name, med, _ = ref.media(rng)[rng.integers(5)]
    wl, back = rng.uniform(320e-9, 1000e-9), float(rng.choice([0., 1., 40.]))
    n = int(rng.choice([1, 2, 50]))
    tx, ty = rng.normal(size=(2, n))*.1
    pj = str(rng.choice(NM))
    x, y = rng.uniform(-.5, .5, 2)
    fl = flux1(rng)
    what = dict(kind='fields', projection=pj, n=n, medium=name, stop=sf.name, back=back)
    a = dict(x=x, y=y) if rng.uniform() < .7 else {}
    if not a:
        x = y = 0.
    rv = rec.attempt('fromFieldAngles', lambda: RayVector.fromFieldAngles(tx, ty, projection=pj, stopSurface=st, medium=med,
                     wavelength=wl, backDist=back, flux=fl, **a), **what)
    if rv is None or not rec.check(len(rv) == n and rv.coordSys == sc, 'one ray per field angle', **what):
        return
    N = float(med.getN(wl))
    d = dircos(pj, tx, ty).T
    rec.close(rv.v*N, d, 'rays travel in the requested directions at the speed of the medium', atol=1e-9, **what)
    p = np.array([x, y, float(sf.sag(x, y))])
    rec.close(rv.r+d*back, np.broadcast_to(p, (n, 3)), 'rays reach the pupil point after the requested distance', atol=1e-9*(1+back), **what)
    rec.close(rv.t, np.full(n, -back*N), 'rays are at the pupil point at time zero', atol=1e-11*(1+back), **what)
    rec.close(rv.flux, np.full(n, fl), 'flux as requested', atol=0, rtol=0, **what)
    rec.close(rv.wavelength, np.full(n, wl), 'wavelength as requested', atol=0, rtol=0, **what)
    rec.check(not rv.failed.any() and not rv.vignetted.any(), 'no ray starts failed or vignetted', **what)


def g_optic(rec, rng):
    """values taken from the optic, and overridden by explicit arguments"""
    sf, sc, st = stop(rng)
    oc = cs(rng)
    name, med, _ = ref.media(rng)[rng.integers(5)]
    back, D, ob = rng.uniform(1, 20), rng.uniform(1, 3), rng.uniform(.2, .7)
    opt = batoid.CompoundOptic([batoid.Detector(batoid.Plane(), name='D', coordSys=oc)], name='O', coordSys=oc,
                               inMedium=med, stopSurface=st, backDist=back, pupilSize=D, pupilObscuration=ob)
    wl = rng.uniform(320e-9, 1000e-9)
    dc = rng.normal(size=3)
    dc[2] -= 2
    q = dict(sf=sf, sc=sc, oc=oc, med=med, wl=wl, back=back, dc=dc)
    kw = dict(optic=opt, wavelength=wl, dirCos=dc)
    w = dict(stop=sf.name, medium=name, kind='from optic')
    nx = int(rng.integers(3, 8))
    g = grid1(D, nx)
    X, Y = np.meshgrid(g, g)
    for nm, fn, x, y in (
            ('asGrid', lambda k: RayVector.asGrid(nx=nx, **k), X, Y),
            ('asPolar', lambda k: RayVector.asPolar(nrad=3, naz=12, **k), *batoid.utils.hexapolar(D/2, D*ob/2, 3, 12)),
            ('asSpokes', lambda k: RayVector.asSpokes(rings=3, spokes=4, **k), np.outer([1, 0, -1, 0], np.linspace(0, D/2, 3)), np.outer([0, 1, 0, -1], np.linspace(0, D/2, 3))),
            ('fromStop', lambda k: RayVector.fromStop(.3, .2, **k), [.3], [.2])):
        rv = rec.attempt(nm, lambda: fn(kw), **w)
        if rv is not None:
            bundle(rec, dict(w, how=nm), rv, x, y, flux=1., **q)
        sf2, sc2, st2 = stop(rng)
        oc2 = cs(rng)
        o = dict(stopSurface=st2, coordSys=oc2, medium=batoid.ConstMedium(1.5), backDist=7.)
        rv = rec.attempt(nm, lambda: fn(dict(kw, **o)), **w)
        if rv is not None:
            bundle(rec, dict(w, how=nm+' overridden'), rv, x, y, flux=1., **dict(q, sf=sf2, sc=sc2, oc=oc2, med=o['medium'], back=7.))
    for nm, fn in (('asGrid', lambda: RayVector.asGrid(nx=4, lx=1., dirCos=dc, wavelength=wl)),
                   ('asPolar', lambda: RayVector.asPolar(outer=1., nrad=2, naz=6, dirCos=dc, wavelength=wl)),
                   ('asSpokes', lambda: RayVector.asSpokes(outer=1., rings=2, spokes=3, dirCos=dc, wavelength=wl)),
                   ('fromStop', lambda: RayVector.fromStop(.1, .2, dirCos=dc, wavelength=wl))):
        rv = rec.attempt(nm+' defaults', fn)
        if rv is not None:
            rec.close(((rv.r@dc)/np.sqrt(dc@dc)), np.full(len(rv), -40.), 'defaults: 40 m before the global x-y plane in vacuum', atol=1e-9, how=nm)
            rec.close((rv.v**2).sum(1), np.ones(len(rv)), 'defaults: 40 m before the global x-y plane in vacuum', atol=1e-12, how=nm)
            rec.check(rv.coordSys == batoid.CoordSys(), 'default coordinate system is global', how=nm)


def run(rec, rng, tier):
    rec.rule = 'bundle kind x stop surface and system x medium x direction/projection/source x pattern sizes incl. smallest'
    rec.bound = 'sampled configurations'
    for k in range(300 if tier == 'thorough' else 45):
        for g in (g_grid, g_polar, g_spokes, g_stop, g_fan, g_fields):
            g(rec, rng)
        if k % 4 == 0:
            g_optic(rec, rng)
    dc = [0, 0, -1.]
    for nm, fn in (('two of nx, dx, lx', lambda: RayVector.asGrid(nx=3, lx=1., dx=.1, dirCos=dc, wavelength=1e-6)),
                   ('two of nx, dx, lx', lambda: RayVector.asGrid(nx=3, dirCos=dc, wavelength=1e-6)),
                   ('wavelength needed', lambda: RayVector.asGrid(nx=3, lx=1., dirCos=dc)),
                   ('wavelength needed', lambda: RayVector.asPolar(outer=1., nrad=2, naz=6, dirCos=dc)),
                   ('wavelength needed', lambda: RayVector.asSpokes(outer=1., rings=2, spokes=3, dirCos=dc)),
                   ('wavelength needed', lambda: RayVector.fromStop(0., 0., dirCos=dc)),
                   ('wavelength needed', lambda: RayVector.fromFieldAngles(0., 0.))):
        rec.raises(nm, ValueError, fn)
