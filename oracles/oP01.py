import numpy as np, batoid, ref
from kern import F11


def cs(rng):
    k = rng.uniform()
    if k < .15:
        return batoid.CoordSys()
    if k < .3:
        return batoid.CoordSys(origin=rng.normal(size=3)*10)
    if k < .4:
        return batoid.CoordSys(rot=ref.randrot(rng))
    return ref.randcs(rng, rng.choice([1., 100.]))


def near(rng, A):
    """a slightly misaligned neighbour, on any scale down to rounding"""
    e = 10**rng.uniform(-12, -3)
    o = A.origin+rng.normal(size=3)*e*(rng.uniform(size=3) < .5)
    return batoid.CoordSys(origin=o, rot=A.rot@ref.axang(rng.normal(size=3), e) if rng.uniform() < .5 else A.rot)


def batch(rng, n, c):
    d = {k: rng.normal(size=n) for k in F11[:9]}
    d['vignetted'], d['failed'] = rng.uniform(size=n) < .3, rng.uniform(size=n) < .3
    return batoid.RayVector(*[d[k] for k in F11], coordSys=c), d


def rays_ok(rec, r, d, A, B, clause, what):
    p = ref.tolocal(B, ref.toglobal(A, np.column_stack([d[k] for k in 'xyz'])))
    v = ref.vlocal(B, np.column_stack([d['v'+k] for k in 'xyz'])@A.rot.T)
    for i, k in enumerate('xyz'):
        rec.close(getattr(r, k), p[:, i], clause+': position', atol=2e-14*(10+np.abs(A.origin).max()+np.abs(B.origin).max()), rtol=1e-13, **what)
        rec.close(getattr(r, 'v'+k), v[:, i], clause+': velocity', atol=1e-13, rtol=1e-13, **what)
    for k in F11[6:]:
        rec.close(np.array(getattr(r, k), float), d[k].astype(float), clause+': %s untouched' % k, atol=0, rtol=0, **what)
    rec.check(r.coordSys == B, clause+': coordinate system recorded', **what)


def run(rec, rng, tier):
    rec.rule = 'pairs and triples of coordinate systems x batches, arrays, scalars x entry points x thread counts'
    rec.bound = 'sampled systems and points'
    gv = batoid.global_vars
    for _ in range(200 if tier == 'thorough' else 40):
        A, B, C = cs(rng), cs(rng), cs(rng)
        if rng.uniform() < .4:
            A = batoid.CoordSys() if rng.uniform() < .5 else batoid.CoordSys(rot=ref.randrot(rng))
            B = near(rng, A)
            C = near(rng, B) if rng.uniform() < .5 else C
        n = int(rng.choice([0, 1, 2, 30, 300]))
        what = dict(n=n)
        gv._batoid_max_threads = int(rng.choice([1, 2, 4, 8]))
        AB, BA, BC, AC = (batoid.CoordTransform(*q) for q in ((A, B), (B, A), (B, C), (A, C)))
        for nm, fn in dict(toCoordSys=lambda r: r.toCoordSys(B), method=lambda r: AB.applyForward(r),
                           function=lambda r: batoid.applyForwardTransform(AB, r)).items():
            r, d = batch(rng, n, A)
            out = rec.attempt('transform', lambda: fn(r), how=nm, **what)
            rays_ok(rec, r, d, A, B, 'forward', dict(what, how=nm))
            rec.check(out is r, 'returns the batch it was given', how=nm)
        r, d = batch(rng, n, B)
        rec.attempt('reverse', lambda: AB.applyReverse(r), **what)
        rays_ok(rec, r, d, B, A, 'reverse', what)
        r, d = batch(rng, n, B)
        rec.attempt('reverse', lambda: batoid.applyReverseTransform(AB, r), **what)
        rays_ok(rec, r, d, B, A, 'reverse function', what)
        r, d = batch(rng, n, A)
        rec.attempt('there and back', lambda: AB.applyReverse(AB.applyForward(r)), **what)
        rays_ok(rec, r, d, A, A, 'there and back', what)
        r.toCoordSys(B).toCoordSys(C)
        rays_ok(rec, r, d, A, C, 'by way of a third system', what)
        # arrays
        x, y, z = rng.normal(size=(3, max(n, 1)))*5
        keep = x.copy(), y.copy(), z.copy()
        P = np.column_stack([x, y, z])
        W = ref.tolocal(B, ref.toglobal(A, P)).T
        U = ref.tolocal(A, ref.toglobal(B, P)).T
        for nm, (ct, f, w) in dict(fwd=(AB, 'applyForwardArray', W), rev=(AB, 'applyReverseArray', U)).items():
            g = rec.attempt(f, lambda: getattr(ct, f)(x, y, z))
            if g is None:
                continue
            rec.close(g, w, f, atol=1e-10, rtol=1e-11)
            rec.check(all(np.array_equal(a, b) for a, b in zip((x, y, z), keep)), f+' leaves its inputs alone')
            s = rec.attempt(f+' of scalars', lambda: getattr(ct, f)(float(x[0]), float(y[0]), float(z[0])))
            rec.close(s, w[:, 0], f+' of scalars', atol=1e-10, rtol=1e-11)
            rec.check(np.shape(s) == (3,), f+' of scalars is one point')
            m = 12
            xx, yy, zz = rng.normal(size=(3, 3, 4))
            k2 = xx.copy(), yy.copy(), zz.copy()
            for lay, (a, b, c) in dict(c=(xx, yy, zz), f=tuple(map(np.asfortranarray, (xx, yy, zz))), t=(xx.T, yy.T, zz.T),
                                       lists=(xx[0].tolist(), yy[0].tolist(), zz[0].tolist()),
                                       ints=(np.arange(3), np.arange(3)*2, np.arange(3)-1),
                                       step=(xx[:, ::2], yy[:, ::2], zz[:, ::2]), f32=(xx.astype('f4'), yy.astype('f4'), zz.astype('f4'))).items():
                g = rec.attempt(f, lambda: getattr(ct, f)(a, b, c), layout=lay)
                a, b, c = (np.asarray(q, float) for q in (a, b, c))
                q = np.stack([a, b, c], axis=-1)
                ww = ref.tolocal(B, ref.toglobal(A, q)) if nm == 'fwd' else ref.tolocal(A, ref.toglobal(B, q))
                rec.close(g, np.moveaxis(ww, -1, 0), f+' of any layout', atol=1e-9, rtol=1e-10, layout=lay)
            rec.check(all(np.array_equal(a, b) for a, b in zip((xx, yy, zz), k2)), f+' leaves its inputs alone')
        # in-place array versions
        a, b, c = x.copy(), y.copy(), z.copy()
        rec.attempt('arrays in place', lambda: batoid.trace.applyForwardTransformArrays(AB, a, b, c))
        rec.close(np.array([a, b, c]), W, 'applyForwardTransformArrays', atol=1e-10, rtol=1e-11)
        rec.attempt('arrays in place', lambda: batoid.trace.applyReverseTransformArrays(AB, a, b, c))
        rec.close(np.array([a, b, c]), np.array(keep), 'applyReverseTransformArrays undoes it', atol=1e-9, rtol=1e-10)
        a, b, c = x.copy(), y.copy(), z.copy()
        batoid.trace.applyReverseTransformArrays(AB, a, b, c)
        rec.close(np.array([a, b, c]), U, 'applyReverseTransformArrays', atol=1e-10, rtol=1e-11)
        # lengths and angles
        if n > 2:
            r, d = batch(rng, n, A)
            r0, v0 = r.r.copy(), r.v.copy()
            r.toCoordSys(B)
            rec.close(np.sqrt(((r.r[1:]-r.r[:-1])**2).sum(1)), np.sqrt(((r0[1:]-r0[:-1])**2).sum(1)), 'distances preserved', atol=1e-9)
            rec.close((r.v[1:]*r.v[:-1]).sum(1), (v0[1:]*v0[:-1]).sum(1), 'angles preserved', atol=1e-11)
        # the points of a system as others see them
        q = rng.normal(size=(7, 3))
        rec.close(A.toGlobal(q), ref.toglobal(A, q), 'toGlobal', atol=1e-10)
        rec.close(A.toLocal(q), ref.tolocal(A, q), 'toLocal', atol=1e-10)
        rec.close(A.toLocal(A.toGlobal(q)), q, 'toLocal undoes toGlobal', atol=1e-9)
        rec.close(A.toGlobal(q[0]), ref.toglobal(A, q[0]), 'toGlobal of one vector', atol=1e-10)
        rec.close(A.toLocal(list(q[0])), ref.tolocal(A, q[0]), 'toLocal of one vector', atol=1e-10)
        k = q.copy()
        A.toLocal(q), A.toGlobal(q)
        rec.check(np.array_equal(q, k), 'toLocal and toGlobal leave their inputs alone')
        kept(rec, A, B)
    gv._batoid_max_threads = 8


def kept(rec, A, B):
    a, b = A.copy(), B.copy()
    t = batoid.CoordTransform(A, B)
    t.applyForwardArray(1., 2., 3.)
    r = batoid.RayVector(1., 2., 3., 0., 0., 1., coordSys=A)
    r.toCoordSys(B)
    rec.check(np.array_equal(A.origin, a.origin) and np.array_equal(A.rot, a.rot) and np.array_equal(B.origin, b.origin)
              and np.array_equal(B.rot, b.rot), 'the systems themselves are not changed')
