import numpy as np, batoid, ref


def run(rec, rng, tier):
    rec.rule = 'surface kind x random parameters x points; reference derivatives by formula or 4th-order differences'
    rec.bound = 'sampled parameters and points'
    for _ in range(40 if tier == 'thorough' else 8):
        for f in ref.surfaces(rng):
            one(rec, rng, f)
        for imin in (1, 2, 3):
            for n in (0, 1, 2, 5):
                one(rec, rng, ref.asphere(rng, imin, n))
        one(rec, rng, ref.bicubic(rng, flip=True))
        outside(rec, rng)


def perp(f, nrm, x, y):
    gx, gy = f.grad(x, y)
    return np.abs(nrm[..., 0]+gx*nrm[..., 2])+np.abs(nrm[..., 1]+gy*nrm[..., 2])


def one(rec, rng, f):
    x, y = f.pts(rng, 40)
    x[0], y[0] = f.ctr
    n = rec.attempt('normal of an array', lambda: f.surf.normal(x, y), surface=f.name)
    if n is None:
        return
    rec.check(n.shape == (40, 3), 'one normal per point', surface=f.name)
    if f.kind == 'tilted':
        tilted(rec, f, n, x, y)
        return
    tol = {'analytic': 1e-11}.get(f.kind, 2e-7)
    rec.close((n*n).sum(-1), np.ones(40), 'normal has length one', atol=1e-12, surface=f.name, x=x, y=y)
    rec.check(np.all(n[:, 2] > 0), 'normal points up', surface=f.name)
    want = f.normal(x, y)
    if f.name.startswith('Bicubic') or 'Bicubic' in f.name:
        # slopes are continuous but kinked at cell borders: keep off them for the difference quotient
        got, want = n[1:], want[1:]
    else:
        got = n
    rec.close(got, want, 'normal is perpendicular to the surface', atol=tol, rtol=tol, surface=f.name, x=x, y=y)
    # other shapes and types
    s = rec.attempt('normal of scalars', lambda: f.surf.normal(float(x[3]), float(y[3])), surface=f.name)
    rec.close(s, n[3], 'scalar and array normals agree', atol=1e-13, rtol=1e-12, surface=f.name)
    X, Y = x.reshape(5, 8), y.reshape(5, 8)
    for nm, (a, b) in dict(c=(X, Y), f=(np.asfortranarray(X), np.asfortranarray(Y)), t=(X.T, Y.T),
                           strided=(np.repeat(X, 2, axis=1)[:, ::2], np.repeat(Y, 3, axis=0)[::3])).items():
        g = rec.attempt('normal of a 2-d array', lambda: f.surf.normal(a, b), surface=f.name, layout=nm)
        if g is not None:
            w = n.reshape(5, 8, 3)
            w = w.transpose(1, 0, 2) if nm == 't' else w
            rec.close(g, w, 'normal of a 2-d array, layout ' + nm, atol=1e-13, rtol=1e-12, surface=f.name)
    g = rec.attempt('normal of float32', lambda: f.surf.normal(x.astype(np.float32), y.astype(np.float32)), surface=f.name)
    if g is not None:
        rec.close(g, f.surf.normal(x.astype(np.float32).astype(float), y.astype(np.float32).astype(float)),
                  'normal of float32', atol=1e-13, surface=f.name)


def tilted(rec, f, n, x, y):
    """known finding: Tilted.normal is unit and upward but not perpendicular to the plane"""
    a, b = f.surf.tanx, f.surf.tany
    want = f.normal(x, y)
    ok = np.all(np.abs(n-want) < 1e-11)
    rec.count('tilted normal')
    if ok:
        return
    listed = np.broadcast_to([-a, -b, np.sqrt(1-a*a-b*b)], n.shape)
    if np.all((np.abs(n-listed) < 1e-12)):
        rec.known.append(dict(id='tilted-normal', case=dict(tanx=a, tany=b, normal=n[0].tolist(), perpendicular=want[0].tolist())))
    else:
        rec.bad('tilted normal is neither perpendicular nor the recorded one', got=n[:2], want=want[:2], tanx=a, tany=b)


def outside(rec, rng):
    for pol in ('nan', 'zero'):
        f = ref.bicubic(rng, pol)
        q = np.array([9., -9., 0., 0., 5., -3.5])
        r = np.array([0., 0., 9., -9., 5., 4.])
        n, s = f.surf.normal(q, r), f.surf.sag(q, r)
        if pol == 'nan':
            rec.check(np.all(np.isnan(n)) and np.all(np.isnan(s)), 'no sag: no normal', got=n)
        else:
            rec.close(n, np.tile([0, 0, 1.], (6, 1)), 'zero sag outside: vertical normal', atol=0, rtol=0)
    R = ref.sgnR(rng)
    for s in (batoid.Sphere(R), batoid.Quadric(R, .5), batoid.Asphere(R, .5, [1e-6])):
        n = s.normal(np.array([1.5*abs(R), 0.]), np.array([0., -2*abs(R)]))
        rec.check(np.all(np.isnan(n)), 'no sag beyond the rim: no normal', surface=repr(s), got=n)
    x, y = rng.uniform(-.5, .5, (2, 10))
    rec.close(batoid.Quadric(R, 0.).normal(x, y), batoid.Sphere(R).normal(x, y), 'conic 0 is the sphere', atol=1e-12)
    rec.close(batoid.Quadric(R, -1.).normal(x, y), batoid.Paraboloid(R).normal(x, y), 'conic -1 is the paraboloid', atol=1e-12)
