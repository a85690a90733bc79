import numpy as np, batoid, pickle, copy, ref
from batoid import RayVector
F = 'x y z vx vy vz t wavelength flux vignetted failed'.split()


def cs(rng):
    return batoid.CoordSys() if rng.uniform() < .3 else ref.randcs(rng, 3.)


def batch(rng, n, c=None):
    d = {k: rng.normal(size=n) for k in F[:9]}
    d['vignetted'], d['failed'] = rng.uniform(size=n) < .3, rng.uniform(size=n) < .3
    c = cs(rng) if c is None else c
    return RayVector(*[d[k] for k in F], coordSys=c), d, c


def has(rec, rv, d, c, clause, **what):
    n = len(d['x'])
    if not rec.check(len(rv) == n and all(np.shape(getattr(rv, k)) == (n,) for k in F), clause+': length', got=len(rv), want=n, **what):
        return False
    ok = all(np.array_equal(getattr(rv, k), d[k]) for k in F)
    rec.check(ok, clause+': every quantity of every ray', bad=[k for k in F if not np.array_equal(getattr(rv, k), d[k])], **what)
    rec.check(rv.coordSys == c, clause+': coordinate system', **what)
    return ok


def clone(d):
    return {k: v.copy() for k, v in d.items()}


def apart(rec, a, b, clause, **what):
    rec.check(not any(np.shares_memory(getattr(a, k), getattr(b, k)) for k in F), clause+': shares storage', **what)


def index(rec, rng, n):
    rv, d, c = batch(rng, n)
    if rng.uniform() < .5:
        rv._rv
    for i in sorted(set([0, 1, -1, n-1, n, n+3, -n, -n-1] + [int(k) for k in rng.integers(-n-2, n+3, 4)])):
        for I in (i, np.int64(i), np.int32(i)):
            what = dict(n=n, i=i, type=type(I).__name__)
            if -n <= i < n:
                s = rec.attempt('indexing', lambda: rv[I], **what)
                if s is not None:
                    has(rec, s, {k: v[[i]] for k, v in d.items()}, c, 'one ray', **what)
                    apart(rec, s, rv, 'one ray', **what)
                    if i >= 0 and n:
                        rec.check(s == rv[i-n], 'index i-n is index i', **what)
            else:
                rec.raises('index out of range', IndexError, lambda: rv[I], **what)
    for _ in range(8):
        a, b = [None if rng.uniform() < .2 else int(k) for k in rng.integers(-n-3, n+4, 2)]
        st = [None, 1, 2, 3, -1, -2][rng.integers(6)]
        sl = slice(a, b, st)
        s = rec.attempt('slicing', lambda: rv[sl], n=n, sl=repr(sl))
        if s is not None:
            has(rec, s, {k: v[sl] for k, v in d.items()}, c, 'slice', n=n, sl=repr(sl))
            apart(rec, s, rv, 'slice', n=n, sl=repr(sl))
    m = rng.uniform(size=n) < .5
    for nm, ix in dict(mask=m, ints=rng.integers(-n, n, 5) if n else np.zeros(0, int), where=np.where(m)[0], allm=np.ones(n, bool),
                       list=[int(k) for k in rng.integers(0, n, 3)] if n else slice(0, 0)).items():
        s = rec.attempt('indexing by '+nm, lambda: rv[ix], n=n)
        if s is not None:
            has(rec, s, {k: v[ix] for k, v in d.items()}, c, 'indexing by '+nm, n=n)
            apart(rec, s, rv, 'indexing by '+nm, n=n)
    its = rec.attempt('iterating', lambda: [r for _, r in zip(range(n+2), rv)], n=n)
    if its is not None:
        rec.check(len(its) == n, 'iteration visits every ray once', n=n, got=len(its))
        for i, r in enumerate(its[:5]):
            has(rec, r, {k: v[[i]] for k, v in d.items()}, c, 'iteration', n=n, i=i)
    has(rec, rv, d, c, 'indexing leaves the batch alone')


def copies(rec, rng, n):
    rv, d, c = batch(rng, n)
    if rng.uniform() < .5:
        rv._rv
    for nm, fn in dict(copy=lambda: rv.copy(), pickle=lambda: pickle.loads(pickle.dumps(rv)), deepcopy=lambda: copy.deepcopy(rv),
                       slice=lambda: rv[:], concat=lambda: batoid.concatenateRayVectors([rv])).items():
        q = rec.attempt(nm, fn, n=n)
        if q is None:
            continue
        has(rec, q, d, c, nm, n=n)
        apart(rec, q, rv, nm, n=n)
        rec.check(q == rv and rv == q and not (q != rv), nm+' is equal', n=n)
        rec.check(q.coordSys is not rv.coordSys or nm in ('slice', 'concat'), nm+' has its own coordinate system', n=n)
        k = n
        if n:
            # changing one leaves the other
            q.propagate(1.5)
            has(rec, rv, d, c, 'changing a %s leaves the original alone' % nm, n=n)
            rec.check(q != rv or not np.any(d['vx']), 'a changed %s is not equal' % nm, n=n)
            e = {f: getattr(q, f).copy() for f in F}
            r2 = fn()
            q2 = fn()
            rv2 = rv.copy()
            r2.toCoordSys(ref.randcs(rng))
            r2.x[:] = 7
            r2.vignetted[:] = True
            has(rec, q2, d, c, 'changing a %s leaves the others alone' % nm, n=n)
            has(rec, q, e, c, 'changing a %s leaves the others alone' % nm, n=n)
            has(rec, rv, d, c, 'changing a %s leaves the original alone' % nm, n=n)
    # constructor copies
    a = clone(d)
    r = RayVector(*[a[k] for k in F], coordSys=c)
    for k in F:
        a[k][...] = 1
    has(rec, r, d, c, 'the constructor copies its arguments', n=n)
    sc = RayVector(1, 2, 3, 0, 0, 1)
    rec.check(len(sc) == 1 and sc.x[0] == 1. and sc.t[0] == 0. and sc.flux[0] == 1. and not sc.vignetted[0] and not sc.failed[0]
              and sc.wavelength[0] == 0., 'one ray from scalars')
    if n:
        b = RayVector(d['x'], 2., 3, 0, 0, np.array([1.]), coordSys=c)
        has(rec, b, dict(x=d['x'], y=np.full(n, 2.), z=np.full(n, 3.), vx=np.zeros(n), vy=np.zeros(n), vz=np.ones(n), t=np.zeros(n),
                         wavelength=np.zeros(n), flux=np.ones(n), vignetted=np.zeros(n, bool), failed=np.zeros(n, bool)), c, 'scalars are spread', n=n)


def equality(rec, rng, n):
    rv, d, c = batch(rng, n)
    e = RayVector(*[d[k] for k in F], coordSys=c)
    rec.check(rv == e and e == rv and not (rv != e), 'the same data are equal', n=n)
    rec.check(rv._hash() == e._hash(), 'equal batches have equal _hash', n=n)
    if n:
        for k in F:
            for j in sorted({0, n-1, int(rng.integers(n))}):
                g = clone(d)
                g[k][j] = (not g[k][j]) if k in F[9:] else g[k][j]+rng.choice([1e-9, 1., -3.])
                o = RayVector(*[g[q] for q in F], coordSys=c)
                rec.check(not (rv == o) and rv != o and not (o == rv), 'a difference in one quantity of one ray shows', n=n, field=k, ray=j)
        p = rng.permutation(n)
        o = RayVector(*[d[k][p] for k in F], coordSys=c)
        rec.check((rv == o) == bool(np.array_equal(p, np.arange(n))), 'order matters', n=n)
        o = rv[:n-1]
        rec.check(rv != o and o != rv, 'a shorter batch differs', n=n)
    c2 = c.shiftGlobal([1e-3, 0, 0])
    c3 = batoid.CoordSys(c.origin, ref.randrot(rng))
    for k in (c2, c3):
        o = RayVector(*[d[q] for q in F], coordSys=k)
        rec.check(rv != o and not (o == rv), 'another coordinate system differs', n=n)
    rec.check(rv != 1 and not (rv == None) and rv != 'x', 'not equal to other kinds', n=n)   # noqa: E711


def join(rec, rng):
    ns = [int(k) for k in rng.choice([0, 1, 2, 7, 40], rng.integers(1, 5))]
    c0 = cs(rng)
    bs = [batch(rng, n, c0 if rng.uniform() < .5 or i == 0 else None) for i, n in enumerate(ns)]
    keep = [(clone(d), c) for _, d, c in bs]
    j = rec.attempt('joining', lambda: batoid.concatenateRayVectors([b[0] for b in bs]), ns=ns)
    if j is None:
        return
    want = {k: [] for k in F}
    for rv, d, c in bs:
        p = ref.tolocal(c0, ref.toglobal(c, np.column_stack([d[k] for k in 'xyz']).reshape(-1, 3))) if c is not c0 else np.column_stack([d[k] for k in 'xyz'])
        v = ref.vlocal(c0, np.column_stack([d['v'+k] for k in 'xyz']).reshape(-1, 3)@c.rot.T) if c is not c0 else np.column_stack([d['v'+k] for k in 'xyz'])
        for i, k in enumerate('xyz'):
            want[k].append(p[:, i])
            want['v'+k].append(v[:, i])
        for k in F[6:]:
            want[k].append(d[k])
    if rec.check(len(j) == sum(ns), 'joining lists all rays', ns=ns, got=len(j)):
        for k in F:
            rec.close(np.array(getattr(j, k), float), np.concatenate(want[k]).astype(float), 'joining lists all rays in order in the first system', atol=1e-10, field=k, ns=ns)
        rec.check(j.coordSys == c0, 'joined batch is in the first coordinate system', ns=ns)
    for (rv, _, _), (d, c) in zip(bs, keep):
        has(rec, rv, d, c, 'joining leaves its parts alone', ns=ns)
        apart(rec, rv, j, 'joined batch', ns=ns)


def derived(rec, rng, n):
    rv, d, c = batch(rng, n)
    rec.close(rv.r, np.column_stack([d[k] for k in 'xyz']), 'r', atol=0, rtol=0)
    rec.close(rv.v, np.column_stack([d['v'+k] for k in 'xyz']), 'v', atol=0, rtol=0)
    v = rv.v
    w = 2*np.pi*v/(d['wavelength']*(v*v).sum(1))[:, None]
    rec.close(rv.k, w, 'k = 2 pi v/(wavelength v^2)')
    rec.close(np.column_stack([rv.kx, rv.ky, rv.kz]).reshape(-1, 3), w, 'kx, ky, kz')
    rec.close(rv.omega, 2*np.pi/d['wavelength'], 'omega = 2 pi/wavelength')
    if n:
        e = rec.attempt('repr', lambda: eval(repr(rv[:3]), dict(vars(batoid), array=np.array, RayVector=RayVector, CoordSys=batoid.CoordSys, np=np)))
        if e is not None:
            rec.check(len(e) == min(n, 3), 'repr evaluates')


def histories(rec, rng):
    """random histories of slicing, copying, joining and mutating, against plain arrays"""
    c = cs(rng)
    rv, d, _ = batch(rng, int(rng.integers(1, 12)), c)
    pool = [(rv, d, c)]
    for step in range(12):
        rv, d, c = pool[rng.integers(len(pool))]
        n = len(d['x'])
        op = rng.integers(6)
        if op == 0 and n:
            i = int(rng.integers(-n, n))
            pool.append((rv[i], {k: v[[i]].copy() for k, v in d.items()}, c))
        elif op == 1:
            sl = slice(None, None, int(rng.choice([1, 2, -1])))
            pool.append((rv[sl], {k: v[sl].copy() for k, v in d.items()}, c))
        elif op == 2:
            pool.append((rv.copy(), clone(d), c))
        elif op == 3 and len(pool) > 1:
            o = pool[rng.integers(len(pool))]
            if o[2] == c and n+len(o[1]['x']) < 200:
                pool.append((batoid.concatenateRayVectors([rv, o[0]]), {k: np.concatenate([d[k], o[1][k]]) for k in F}, c))
        elif op == 4:
            t = float(rng.normal())
            rv.propagate(t)
            for k in 'xyz':
                d[k] = d[k]+d['v'+k]*(t-d['t'])
            d['t'] = np.full(n, t)
            for k in F[:9]:
                d[k] = np.where(d['failed'], getattr(rv, k), d[k])
        else:
            pool.append((pickle.loads(pickle.dumps(rv)), clone(d), c))
        for rv, d, c in pool:
            ok = len(rv) == len(d['x']) and all(np.allclose(getattr(rv, k), d[k], rtol=1e-12, atol=1e-12) for k in F) and rv.coordSys == c
            rec.check(ok, 'values after a history of operations', step=step)


def run(rec, rng, tier):
    rec.rule = 'batch lengths 0..1000 x index kinds x copying/joining/mutating histories x single-field differences'
    rec.bound = 'sampled batches and histories'
    for _ in range(60 if tier == 'thorough' else 10):
        for n in (0, 1, 2, 3, 17, 1000):
            index(rec, rng, n)
            copies(rec, rng, n)
            equality(rec, rng, n)
            derived(rec, rng, n)
        for _ in range(5):
            join(rec, rng)
            histories(rec, rng)
