import numpy as np, batoid, ref


def run(rec, rng, tier):
    rec.rule = 'surface kind x random parameters x points on a disc, its centre, edges and outside'
    rec.bound = 'sampled parameters and points'
    for _ in range(40 if tier == 'thorough' else 6):
        for f in ref.surfaces(rng):
            one(rec, rng, f)
        for imin in (1, 2, 3):
            for n in (0, 1, 2, 5):
                one(rec, rng, ref.asphere(rng, imin, n))
        bicub(rec, rng)
        edges(rec, rng)
        zern(rec, rng)


def one(rec, rng, f):
    x, y = f.pts(rng, 40)
    x[0], y[0] = f.ctr
    want = f.sag(x, y)
    got = rec.attempt('sag of an array', lambda: f.surf.sag(x, y), surface=f.name)
    if got is None:
        return
    rec.close(got, want, 'sag equals the documented formula', atol=1e-12, rtol=1e-11, surface=f.name, x=x, y=y)
    # shapes, layouts and number types
    s = rec.attempt('sag of scalars', lambda: f.surf.sag(float(x[3]), float(y[3])), surface=f.name)
    rec.close(s, want[3], 'scalar and array sag agree', atol=1e-12, rtol=1e-11, surface=f.name)
    rec.check(np.ndim(s) == 0, 'scalar sag is a scalar', surface=f.name)
    X, Y = x.reshape(5, 8), y.reshape(5, 8)
    for nm, (a, b) in dict(c=(X, Y), f=(np.asfortranarray(X), np.asfortranarray(Y)), t=(X.T, Y.T),
                           mixed=(X, np.asfortranarray(Y)),
                           strided=(np.repeat(X, 2, axis=1)[:, ::2], np.repeat(Y, 3, axis=0)[::3]),
                           rev=(X[::-1, ::-1], Y[::-1, ::-1])).items():
        g = rec.attempt('sag of a 2-d array', lambda: f.surf.sag(a, b), surface=f.name, layout=nm)
        if g is not None:
            rec.close(g, f.sag(a, b), 'sag of a 2-d array, layout ' + nm, atol=1e-12, rtol=1e-11, surface=f.name)
    for ty in (int, np.float32, list):
        if ty is list:
            a, b, aa, bb = x.tolist(), y.tolist(), x, y
        else:
            a, b = x.astype(ty), y.astype(ty)
            aa, bb = a.astype(float), b.astype(float)
        g = rec.attempt('sag of other number types', lambda: f.surf.sag(a, b), surface=f.name, type=ty.__name__)
        if g is not None:
            rec.close(g, f.sag(aa, bb), 'sag of number type ' + ty.__name__, atol=1e-12, rtol=1e-11, surface=f.name)
    g = rec.attempt('sag of integer scalars', lambda: f.surf.sag(1, 0), surface=f.name)
    if g is not None and f.rad > 1.01 and f.ctr == (0., 0.):
        rec.close(g, f.sag(np.array(1.), np.array(0.)), 'sag of integer scalars', atol=1e-12, rtol=1e-11, surface=f.name)
    rec.close(f.surf.sag(x[:1], y[:1]), want[:1], 'sag of a length-one array', atol=1e-12, rtol=1e-11, surface=f.name)


def bicub(rec, rng):
    for pol in ('nan', 'zero'):
        for flip in (False, True):
            f = ref.bicubic(rng, pol, flip)
            s = f.surf
            xs, ys = s.xs, s.ys
            X, Y = np.meshgrid(xs[:-1], ys[:-1])
            # nodes: evaluated a hair inside the cell they start
            ex, ey = 1e-9*(xs[1]-xs[0]), 1e-9*(ys[1]-ys[0])
            rec.close(s.sag(X+ex, Y+ey), s.zs[:-1, :-1], 'bicubic reproduces node heights', atol=1e-7, rtol=0)
            h = 1e-4*(xs[1]-xs[0])
            d = (s.sag(X[1:, 1:]+h, Y[1:, 1:]+ey)-s.sag(X[1:, 1:]-h, Y[1:, 1:]+ey))/(2*h)
            rec.close(d, s.dzdxs[1:-1, 1:-1], 'bicubic reproduces x slopes', atol=1e-5, rtol=0)
            h = 1e-4*(ys[1]-ys[0])
            d = (s.sag(X[1:, 1:]+ex, Y[1:, 1:]+h)-s.sag(X[1:, 1:]+ex, Y[1:, 1:]-h))/(2*h)
            rec.close(d, s.dzdys[1:-1, 1:-1], 'bicubic reproduces y slopes', atol=1e-5, rtol=0)
            sx, sy = abs(xs[-1]-xs[0]), abs(ys[-1]-ys[0])
            q = np.concatenate([rng.uniform(-1.5, 1.5, 60)*sx])
            r = np.concatenate([rng.uniform(-1.5, 1.5, 60)*sy])
            rec.close(s.sag(q, r), f.sag(q, r), 'bicubic in and out of its grid', atol=1e-12, rtol=1e-11, pol=pol)
            g = np.array([1e6, -1e6, 0., 0., xs[0]-1e-6*(xs[1]-xs[0]), 0.])
            k = np.array([0., 0., 1e6, -1e6, 0., ys[0]-1e-6*(ys[1]-ys[0])])
            rec.close(s.sag(g, k), f.sag(g, k), 'bicubic far outside', atol=0, rtol=0, pol=pol)
    # derivatives estimated from heights when not given: exact for a bilinear-in-each surface
    nx, ny = rng.integers(4, 9, 2)
    xs, ys = np.linspace(-1, 1.2, nx), np.linspace(-.9, 1, ny)
    a, b, c, d = rng.normal(size=4)
    F = lambda x, y: a+b*x+c*y+d*x*y
    X, Y = np.meshgrid(xs, ys)
    s = rec.attempt('bicubic from heights alone', lambda: batoid.Bicubic(xs, ys, F(X, Y)))
    if s is not None:
        q, r = rng.uniform(-.99, 1.19, 50), rng.uniform(-.89, .99, 50)
        rec.close(s.sag(q, r), F(q, r), 'bicubic with estimated slopes reproduces a bilinear height', atol=1e-11)
        rec.close(s.dzdxs, b+d*Y, 'estimated x slopes', atol=1e-10)
        rec.close(s.dzdys, c+d*X, 'estimated y slopes', atol=1e-10)
        rec.close(s.d2zdxdys, d+0*X, 'estimated mixed slopes', atol=1e-9)
    z = F(X, Y)
    z0 = z.copy()
    s = batoid.Bicubic(xs, ys, z)
    before = s.sag(.1, .1)
    z[:] = 7
    rec.close(s.sag(.1, .1), before, 'changing the input array afterwards does not change the surface', atol=0, rtol=0)
    # integer and non-contiguous node data
    s = rec.attempt('bicubic from integers', lambda: batoid.Bicubic([0, 1, 2, 3], [0, 1, 2], np.arange(12).reshape(3, 4)))
    if s is not None:
        rec.close(s.sag(.5, .5), 2.5, 'bicubic from integer node data', atol=1e-12)
    zt = np.ascontiguousarray(z0.T).T
    s = rec.attempt('bicubic from a transposed array', lambda: batoid.Bicubic(xs, ys, zt))
    if s is not None:
        rec.close(s.sag(q, r), F(q, r), 'bicubic from a transposed array', atol=1e-11)


def edges(rec, rng):
    R = ref.sgnR(rng)
    for s in (batoid.Sphere(R), batoid.Quadric(R, 0.), batoid.Quadric(R, .5), batoid.Asphere(R, .5, [1e-6])):
        x = np.array([1.3*abs(R), 0.])
        y = np.array([0., -2*abs(R)])
        g = s.sag(x, y)
        rec.check(np.all(np.isnan(g)), 'no height beyond the rim', surface=repr(s), got=g)
    rec.close(batoid.Sphere(R).sag(R*(1-1e-12), 0.), R, 'sphere height at its rim', atol=1e-4)
    for k in (-1., -2., .3):
        rec.close(batoid.Quadric(R, k).sag(0., 0.), 0., 'conic vertex is at the origin', atol=0, rtol=0)
    rec.close(batoid.Quadric(R, 0.).sag(.3, .2), batoid.Sphere(R).sag(.3, .2), 'conic 0 is the sphere', atol=1e-12)
    rec.close(batoid.Quadric(R, -1.).sag(.3, .2), batoid.Paraboloid(R).sag(.3, .2), 'conic -1 is the paraboloid', atol=1e-12)
    rec.close(batoid.Asphere(R, .2, []).sag(.3, .2), batoid.Quadric(R, .2).sag(.3, .2), 'no coefficients: the conic', atol=1e-13)
    rec.close(batoid.Asphere(R, .2, [1, 2]).sag(.3, .2),
              batoid.Quadric(R, .2).sag(.3, .2)+.13**2+2*.13**3, 'integer coefficients', atol=1e-12)
    a, b = batoid.Paraboloid(R), batoid.Tilted(.1, .2)
    rec.close((a+b).sag(.4, .5), a.sag(.4, .5)+b.sag(.4, .5), 'a + b is the sum', atol=1e-14)
    rec.close(batoid.Sum(a, b).sag(.4, .5), batoid.Sum([a, b]).sag(.4, .5), 'Sum(a, b) is Sum([a, b])', atol=0, rtol=0)
    rec.close(batoid.Sum((a, b)).sag(.4, .5), batoid.Sum([a, b]).sag(.4, .5), 'Sum((a, b)) is Sum([a, b])', atol=0, rtol=0)


NOLL = {1: (0, 0), 2: (1, 1), 3: (1, -1), 4: (2, 0), 5: (2, -2), 6: (2, 2), 7: (3, -1), 8: (3, 1), 9: (3, -3), 10: (3, 3), 11: (4, 0)}


def zern(rec, rng):
    """circular Zernikes by their textbook formulas (Noll 1976)"""
    Ro = rng.uniform(.8, 2.)
    x0, y0 = rng.normal(size=2)*.3
    r, t = Ro*np.sqrt(rng.uniform(0, 1, 20)), rng.uniform(0, 2*np.pi, 20)
    x, y = x0+r*np.cos(t), y0+r*np.sin(t)
    u = r/Ro
    rad = {(0, 0): 1+0*u, (1, 1): u, (2, 0): 2*u**2-1, (2, 2): u**2, (3, 1): 3*u**3-2*u, (3, 3): u**3, (4, 0): 6*u**4-6*u**2+1}
    for j, (n, m) in NOLL.items():
        c = np.zeros(j+1)
        c[j] = 1.
        ang = np.ones_like(t) if m == 0 else np.sqrt(2)*(np.cos(m*t) if m > 0 else np.sin(-m*t))
        want = np.sqrt(n+1)*rad[n, abs(m)]*ang
        s = batoid.Zernike(c, R_outer=Ro, x_origin=x0, y_origin=y0)
        rec.close(s.sag(x, y), want, 'Noll Zernike %d' % j, atol=1e-10, rtol=1e-10)
    # annular: rotationally symmetric defocus term of Mahajan
    e = rng.uniform(.1, .7)
    s = batoid.Zernike([0, 0, 0, 0, 1.], R_outer=Ro, R_inner=e*Ro)
    want = np.sqrt(3)*(2*u**2-1-e**2)/(1-e**2)
    rec.close(s.sag(r*np.cos(t), r*np.sin(t)), want, 'annular Zernike 4', atol=1e-10, rtol=1e-10)
