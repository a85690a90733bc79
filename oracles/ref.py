"""Independent reference implementations used by the bounded monitors: surface heights, gradients,
rotation matrices, Fresnel-free ray optics, membership of obscurations.  Plain numpy, written from the
documented formulas, not from the code under test."""
import numpy as np
import batoid


# ------------------------------------------------------------------ rotations, coordinate systems
def axang(axis, a):
    """rotation by a about a unit axis (Rodrigues)"""
    n = np.asarray(axis, float)
    n = n/np.sqrt(n@n)
    K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    return np.eye(3) + np.sin(a)*K + (1-np.cos(a))*(K@K)


def randrot(rng, big=True):
    return axang(rng.normal(size=3), rng.uniform(-np.pi, np.pi)*(1 if big else 0.1))


def randcs(rng, scale=1.0, big=True):
    return batoid.CoordSys(origin=rng.normal(size=3)*scale, rot=randrot(rng, big))


# ------------------------------------------------------------------ surfaces
class Sf:
    """surface with its documented height as a function, and the radius of a safe query disc"""

    def __init__(s, name, surf, sag, rad, grad=None, kind='analytic', ctr=(0., 0.)):
        s.name, s.surf, s.sag, s.rad, s.kind, s.ctr = name, surf, sag, rad, kind, ctr
        s._grad = grad

    def pts(s, rng, n):
        r = s.rad*np.sqrt(rng.uniform(0, 1, n))
        t = rng.uniform(0, 2*np.pi, n)
        return s.ctr[0]+r*np.cos(t), s.ctr[1]+r*np.sin(t)

    def grad(s, x, y):
        """central differences with Richardson extrapolation of the reference height"""
        if s._grad is not None:
            return s._grad(x, y)
        h = s.rad*3e-4

        def d(f):
            return (8*(f(h)-f(-h)) - (f(2*h)-f(-2*h)))/(12*h)
        return d(lambda e: s.sag(x+e, y)), d(lambda e: s.sag(x, y+e))

    def normal(s, x, y):
        gx, gy = s.grad(x, y)
        n = np.stack([-gx, -gy, np.ones_like(gx*gy)], axis=-1)
        return n/np.sqrt((n*n).sum(-1))[..., None]


def conic(R, k):
    def sag(x, y):
        r2 = np.asarray(x)**2+np.asarray(y)**2
        return r2/(R*(1+np.sqrt(1-(1+k)*r2/R**2)))

    def grad(x, y):
        r2 = np.asarray(x)**2+np.asarray(y)**2
        f = 1/(R*np.sqrt(1-(1+k)*r2/R**2))
        return x*f, y*f
    return sag, grad


def plane():
    z = lambda x, y: np.zeros(np.broadcast(x, y).shape)
    return Sf('Plane', batoid.Plane(), z, 2.0, lambda x, y: (z(x, y), z(x, y)))


def tilted(rng):
    a, b = rng.uniform(-.4, .4, 2)
    o = lambda x, y: np.ones(np.broadcast(x, y).shape)
    return Sf('Tilted', batoid.Tilted(a, b), lambda x, y: a*np.asarray(x)+b*np.asarray(y), 2.0,
              lambda x, y: (a*o(x, y), b*o(x, y)), kind='tilted')


def sgnR(rng, lo=3., hi=20.):
    return rng.uniform(lo, hi)*rng.choice([-1, 1])


def paraboloid(rng):
    R = sgnR(rng)
    return Sf('Paraboloid(%g)' % R, batoid.Paraboloid(R), lambda x, y: (np.asarray(x)**2+np.asarray(y)**2)/(2*R), 2.0,
              lambda x, y: (x/R, y/R))


def sphere(rng):
    R = sgnR(rng)
    s = lambda x, y: R*(1-np.sqrt(1-(np.asarray(x)**2+np.asarray(y)**2)/R**2))
    return Sf('Sphere(%g)' % R, batoid.Sphere(R), s, min(2.0, .8*abs(R)), conic(R, 0.)[1])


def quadric(rng, k=None):
    R = sgnR(rng)
    k = rng.choice([-3., -1.5, -1., -.5, 0., .7, 2.]) if k is None else k
    s, g = conic(R, k)
    return Sf('Quadric(%g,%g)' % (R, k), batoid.Quadric(R, k), s, min(2.0, .5*abs(R)), g)


def asphere(rng, imin=None, n=None):
    R = sgnR(rng, 8, 20)
    k = rng.choice([-1.5, -1., -.5, 0., .7])
    imin = rng.integers(1, 4) if imin is None else imin
    n = rng.integers(1, 5) if n is None else n
    c = rng.uniform(-1, 1, n)*1e-3*0.3**np.arange(n)
    s0, g0 = conic(R, k)

    def s(x, y):
        r2 = np.asarray(x)**2+np.asarray(y)**2
        return s0(x, y) + sum(ci*r2**(i+imin) for i, ci in enumerate(c))

    def g(x, y):
        r2 = np.asarray(x)**2+np.asarray(y)**2
        f = sum(ci*2*(i+imin)*r2**(i+imin-1) for i, ci in enumerate(c))
        a, b = g0(x, y)
        return a+f*x, b+f*y
    return Sf('Asphere(%g,%g,%r,%d)' % (R, k, c.tolist(), imin), batoid.Asphere(R, k, list(c), imin=int(imin)), s, 1.5, g,
              kind='iter')


def zernike(rng):
    import galsim
    n = int(rng.choice([2, 5, 12, 23]))
    c = np.concatenate([[0], rng.normal(size=n-1)*2e-4])
    Ro, Ri = rng.uniform(1.5, 2.5), rng.choice([0., rng.uniform(.2, 1.)])
    x0, y0 = (0., 0.) if rng.uniform() < .4 else rng.normal(size=2)*.2
    # annular Zernikes by Gram-Schmidt free route: galsim's own evaluation
    Z = galsim.zernike.Zernike(c, Ro, Ri)
    def sag(x, y):
        x, y = np.broadcast_arrays(np.asarray(x, float), np.asarray(y, float))
        return Z(x.ravel()-x0, y.ravel()-y0).reshape(x.shape)
    return Sf('Zernike%d' % n, batoid.Zernike(c, Ro, Ri, x0, y0), sag, 1.5, kind='iter', ctr=(x0, y0))


def hermite(xs, ys, z, zx, zy, zxy, pol):
    x0, y0 = xs[0], ys[0]
    dx, dy = (xs[-1]-xs[0])/(len(xs)-1), (ys[-1]-ys[0])/(len(ys)-1)

    def basis(t):
        return ((2*t**3-3*t**2+1, -2*t**3+3*t**2), (t**3-2*t**2+t, t**3-t**2))

    def sag(x, y):
        x, y = np.broadcast_arrays(np.asarray(x, float), np.asarray(y, float))
        u, v = (x-x0)/dx, (y-y0)/dy
        i, j = np.floor(u), np.floor(v)
        out = ~((i >= 0) & (j >= 0) & (i < len(xs)-1) & (j < len(ys)-1))
        ii, jj = (np.clip(np.nan_to_num(q), 0, m-2).astype(int) for q, m in ((i, len(xs)), (j, len(ys))))
        u, v = u-i, v-j
        (h, k), (g, l) = basis(u), basis(v)
        r = 0
        for a in (0, 1):
            for b in (0, 1):
                r = r + h[a]*g[b]*z[jj+b, ii+a] + k[a]*g[b]*dx*zx[jj+b, ii+a] \
                    + h[a]*l[b]*dy*zy[jj+b, ii+a] + k[a]*l[b]*dx*dy*zxy[jj+b, ii+a]
        return np.where(out, np.nan if pol == 'nan' else 0., r)
    return sag


def bicubic(rng, pol=None, flip=False, full=True):
    nx, ny = rng.integers(5, 12, 2)
    xs, ys = np.linspace(-2.5, 2.6, nx), np.linspace(-2.4, 2.7, ny)
    if flip:
        xs, ys = xs[::-1], ys[::-1]
    R = sgnR(rng, 10, 20)
    X, Y = np.meshgrid(xs, ys)
    a, b = rng.uniform(.5, 1.5, 2)
    A = 0.02
    f = (X**2+Y**2)/(2*R) + A*np.sin(a*X)*np.cos(b*Y)
    fx = X/R + A*a*np.cos(a*X)*np.cos(b*Y)
    fy = Y/R - A*b*np.sin(a*X)*np.sin(b*Y)
    fxy = -A*a*b*np.cos(a*X)*np.sin(b*Y)
    pol = pol or rng.choice(['nan', 'zero'])
    return Sf('Bicubic%dx%d' % (nx, ny), batoid.Bicubic(xs, ys, f, fx, fy, fxy, nanpolicy=str(pol)),
              hermite(xs, ys, f, fx, fy, fxy, pol), 1.0, kind='iter')   # rays must also start above the patch


def summed(rng, n=None, nest=False):
    n = n or int(rng.integers(1, 4))
    parts = [quadric(rng)]+[[asphere, zernike, bicubic, paraboloid][rng.integers(4)](rng) for _ in range(n)]
    if nest:
        parts.append(summed(rng, 1))
    return Sf('Sum(%s)' % ','.join(p.name for p in parts), batoid.Sum([p.surf for p in parts]),
              lambda x, y: sum(p.sag(x, y) for p in parts), min(p.rad for p in parts)*.7,
              kind='iter')


def surfaces(rng, reps=1):
    out = []
    for _ in range(reps):
        out += [plane(), tilted(rng), paraboloid(rng), sphere(rng), quadric(rng), quadric(rng, -1.),
                asphere(rng), zernike(rng), bicubic(rng), summed(rng), summed(rng, 2, True)]
    return out


# ------------------------------------------------------------------ media
def sellmeier(B1, B2, B3, C1, C2, C3):
    def n(w):
        L = (np.asarray(w, float)*1e6)**2
        return np.sqrt(1+B1*L/(L-C1)+B2*L/(L-C2)+B3*L/(L-C3))
    return n


def sumita(A):
    def n(w):
        x = np.asarray(w, float)*1e6
        return np.sqrt(A[0]+A[1]*x**2+A[2]*x**-2+A[3]*x**-4+A[4]*x**-6+A[5]*x**-8)
    return n


def air(P, T, W):
    """Filippenko 1982 as documented: P kPa, T K, H2O kPa"""
    P_, T_, W_ = P*7.50061683, T-273.15, W*7.50061683

    def n(w):
        s2 = 1/(np.asarray(w, float)*1e6)**2
        v = 64.328+29498.1/(146-s2)+255.4/(41-s2)
        v = v*P_*(1+(1.049-0.0157*T_)*1e-6*P_)/(720.883*(1+0.003661*T_))
        v = v-(0.0624-0.000680*s2)/(1+0.003661*T_)*W_
        return 1+v/1e6
    return n


SILICA = (0.6961663, 0.4079426, 0.8974794, 0.0684043**2, 0.1162414**2, 9.896161**2)


def media(rng):
    """(name, medium, index function)"""
    ws = np.sort(rng.uniform(300e-9, 1100e-9, int(rng.integers(3, 9))))
    ws[0], ws[-1] = 290e-9, 1150e-9
    ns = rng.uniform(1.2, 1.8, len(ws))
    A = [2.2, -1e-2, 1e-2, 1e-4, 1e-5, -1e-6]
    c = rng.uniform(1., 2.)
    P, T, W = rng.uniform(50, 110), rng.uniform(260, 310), rng.uniform(0, 3)
    return [
        ('Const', batoid.ConstMedium(c), lambda w: c+0*np.asarray(w, float)),
        ('Sellmeier', batoid.SellmeierMedium(*SILICA), sellmeier(*SILICA)),
        ('Sumita', batoid.SumitaMedium(*A), sumita(A)),
        ('Table', batoid.TableMedium(ws, ns), lambda w: np.interp(np.asarray(w, float), ws, ns, left=np.nan, right=np.nan)),
        ('Air', batoid.Air(P, T, W), air(P, T, W)),
    ]


# ------------------------------------------------------------------ rays
def rays(rng, sf, n, speed=1.0, wl=500e-9, slope=.25, z0=None, dirn=None, cs=None, jitter=.3):
    """rays aimed at random points of the surface disc, from above (dirn=-1) or below"""
    x, y = sf.pts(rng, n)
    z = sf.sag(x, y)
    z = np.where(np.isfinite(z), z, 0.)
    dirn = rng.choice([-1., 1.]) if dirn is None else dirn
    vx, vy = rng.uniform(-slope, slope, (2, n))
    vz = dirn*np.ones(n)
    nn = np.sqrt(vx*vx+vy*vy+1)
    sp = speed if np.ndim(speed) else np.full(n, speed)
    vx, vy, vz = vx/nn*sp, vy/nn*sp, vz/nn*sp
    L = (4. if z0 is None else z0)*(1+jitter*rng.uniform(-1, 1, n))/sp
    wl = np.broadcast_to(wl, (n,)).astype(float)
    t = rng.normal(size=n)
    fl = rng.uniform(.2, 1.5, n)
    return batoid.RayVector(x-vx*L, y-vy*L, z-vz*L, vx, vy, vz, t, np.array(wl), fl)


def data(rv):
    """all eleven per-ray quantities, as a matrix"""
    return np.column_stack([rv.x, rv.y, rv.z, rv.vx, rv.vy, rv.vz, rv.t, rv.wavelength, rv.flux,
                            rv.vignetted.astype(float), rv.failed.astype(float)])


def tolocal(cs, p):
    return (np.asarray(p)-cs.origin)@cs.rot


def toglobal(cs, p):
    return np.asarray(p)@cs.rot.T+cs.origin


def vlocal(cs, v):
    return np.asarray(v)@cs.rot


def same(a, b, tol=0.):
    a, b = data(a) if isinstance(a, batoid.RayVector) else a, data(b) if isinstance(b, batoid.RayVector) else b
    if a.shape != b.shape:
        return False
    if tol == 0:
        return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))
    return bool(np.all((np.abs(a-b) <= tol*(1+np.abs(b))) | (np.isnan(a) & np.isnan(b)) | (a == b)))
