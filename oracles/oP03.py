import numpy as np, batoid
import kern
from batoid import RayVector


def run(rec, rng, tier):
    kern.sweep(rec, rng, tier, kern.OPS, {'P03'}, reps=8)
    for _ in range(60 if tier == 'thorough' else 15):
        conics(rec, rng)
        iterated(rec, rng)


def mkconic(rng):
    R = rng.choice([-1, 1])*10**rng.uniform(-1, 2)
    k = rng.integers(4)
    if k == 0:
        return batoid.Paraboloid(R), 'Paraboloid', R, -1.0, 0.0
    if k == 1:
        return batoid.Sphere(R), 'Sphere', R, 0.0, 1.0
    c = rng.choice([-3., -1.5, -1., -.7, -1e-3, 0., .4, 2., rng.uniform(-4, 2)])
    return batoid.Quadric(R, c), 'Quadric', R, c, 1+c


def conics(rec, rng):
    """lines through a point of the sheet, in any direction: both crossings are known in closed form"""
    surf, nm, R, c, k1 = mkconic(rng)
    n = 60
    lim = abs(R)*(.9/np.sqrt(k1) if k1 > 0 else 3.)
    rho, th = lim*np.sqrt(rng.uniform(0, 1, n)), rng.uniform(0, 2*np.pi, n)
    x, y = rho*np.cos(th), rho*np.sin(th)
    x[:6], y[3:6] = 0., 0.
    P = np.column_stack([x, y, rho2z(x*x+y*y, R, k1)])
    v = rng.normal(size=(n, 3))*10**rng.uniform(-2, 2, (n, 1))
    v[::5] *= [1, 1, 0.]
    v[1::7] *= [0, 0, 1.]
    v[2::7] *= [0, 1., 1.]
    v[3::7] *= [1., 0, 1.]
    v[4::11] *= [1., 0, 0]
    v[(v == 0).all(-1)] = [0, 0, 1.]
    v /= np.sqrt((v*v).sum(-1))[:, None]
    s = abs(R)*rng.normal(size=n)*10**rng.uniform(-3, 1, n)
    s[::6] = 0.
    p0 = P-v*s[:, None]
    # along the line the defining polynomial is A (t-s)^2 + G (t-s)
    A = v[:, 0]**2+v[:, 1]**2+k1*v[:, 2]**2
    G = 2*(P[:, 0]*v[:, 0]+P[:, 1]*v[:, 1]-R*v[:, 2]+k1*P[:, 2]*v[:, 2])
    rv = RayVector(*p0.T, *v.T, np.zeros(n), np.full(n, 5e-7), np.ones(n))
    what = dict(surface='%s(R=%.4g,k=%.4g)' % (nm, R, c), start='any', direction='any')
    out = rec.attempt('intersect', lambda: surf.intersect(rv.copy()), **what)
    if out is None:
        return
    with np.errstate(all='ignore'):
        dv = -G/A
        other = np.isfinite(dv) & (np.abs(dv) < 1e5*abs(R))
        dv = np.where(other, dv, 0)
        z1, z2 = P[:, 2], P[:, 2]+v[:, 2]*dv
        on2 = other & (R*(R-k1*z2) >= 0)
        unsure = np.abs(R-k1*z2) < 1e-6*abs(R)
        first = ~on2 | (np.abs(z1) <= np.abs(z2))
        tie = on2 & (np.abs(np.abs(z1)-np.abs(z2)) < 1e-7*abs(R))
        size = abs(R)+np.abs(s)+np.abs(dv)
        cond = np.abs(G)/abs(R)                   # grazing lines are ill-conditioned
        good = (cond > 1e-3) & ~(unsure & other) & (np.abs(A)*np.abs(s) < 1e3*np.abs(G)) & (other | (np.abs(A) < 1e-12))
        hit = good
    rec.check(np.all(~out.failed[hit]), 'a line that meets the sheet is found', **what)
    g = hit & ~out.failed
    Q = np.array(out.r)
    tol = 1e-9*(size+1)/np.clip(cond, 1e-3, 1)
    e1 = np.abs(Q-P).max(-1)
    e2 = np.abs(Q-(P+v*dv[:, None])).max(-1)
    rec.check(np.all((np.minimum(e1, e2) < tol)[g]), 'the result is a crossing of the line and the surface', **what)
    u = g & ~tie
    rec.check(np.all(np.where(first, e1 < tol, e2 < tol)[u]),
              'the crossing on the sheet, and of two the one nearer the height of the vertex', **what)
    rec.check(np.all((R*(R-k1*Q[:, 2]) > -1e-6*R*R)[g]), 'the result is on the sheet', **what)
    rec.check(np.all((np.abs(p0+v*np.array(out.t)[:, None]-Q).max(-1) < 1e-10*(size+1))[g]), 'on the line at its own time', **what)
    # lines that certainly miss: discriminant negative with a margin
    p = rng.normal(size=(n, 3))*abs(R)*2
    A = v[:, 0]**2+v[:, 1]**2+k1*v[:, 2]**2
    B = 2*(p[:, 0]*v[:, 0]+p[:, 1]*v[:, 1]-R*v[:, 2]+k1*p[:, 2]*v[:, 2])
    C = p[:, 0]**2+p[:, 1]**2-2*R*p[:, 2]+k1*p[:, 2]**2
    m = B*B-4*A*C < -1e-6*(B*B+np.abs(4*A*C))
    rv = RayVector(*p.T, *v.T, np.zeros(n), np.full(n, 5e-7), np.ones(n))
    out = surf.intersect(rv)
    rec.check(np.all(out.failed[m] & out.vignetted[m]), 'a line that misses the surface is failed', **what)


def rho2z(r2, R, k1):
    return r2/(R*(1+np.sqrt(np.maximum(0, 1-k1*r2/R/R))))


def iterated(rec, rng):
    """surfaces solved by iteration: a reported crossing satisfies the equation to the stated tolerance"""
    R = rng.choice([-1, 1])*rng.uniform(3, 20)
    q = np.linspace(-3, 3, 7)
    X, Y = np.meshgrid(q, q)
    S = [batoid.Asphere(R, rng.uniform(-1.2, .3), list(rng.normal(size=3)*[1e-4, 1e-6, 1e-8])),
         batoid.Zernike([0, .1, .2, .05, .01, .02, -.01, .003], R_outer=2.),
         batoid.Sum([batoid.Quadric(R, -1.1), batoid.Zernike([0]*4+[1e-2, 1e-3], R_outer=2.)]),
         batoid.Sum([batoid.Plane(), batoid.Paraboloid(R)]),
         batoid.Bicubic(q, q, .02*np.sin(X)*np.cos(Y), .02*np.cos(X)*np.cos(Y), -.02*np.sin(X)*np.sin(Y), -.02*np.cos(X)*np.sin(Y))]
    n = 40
    for f in S:
        x, y = rng.uniform(-1.5, 1.5, (2, n))
        v = np.column_stack([*(rng.normal(size=(2, n))*rng.choice([.05, .5, 1.5])), rng.choice([-1., 1.], n)])
        v /= np.sqrt((v*v).sum(-1))[:, None]*rng.uniform(1, 1.6)
        P = np.column_stack([x, y, f.sag(x, y)])
        s = rng.uniform(-3, 3, n)
        s[::8] = 0
        p0 = P-v*s[:, None]
        out = f.intersect(RayVector(*p0.T, *v.T, np.zeros(n), np.full(n, 5e-7), np.ones(n)))
        g = ~out.failed
        what = dict(surface=type(f).__name__)
        rec.check(np.all(np.abs(f.sag(out.x, out.y)-out.z)[g] < 3e-12), 'solved by iteration: the surface equation holds to 1e-12', **what)
        rec.check(np.all(np.abs(p0+v*np.array(out.t)[:, None]-out.r).max(-1)[g] < 1e-13*50), 'on the line at its own time', **what)
