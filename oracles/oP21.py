import numpy as np, batoid, pickle, copy, ref

L = np.linspace(-1, 1, 5)


def num(rng):
    k = rng.integers(4)
    return [float(rng.normal()*3), float(rng.normal()*1e-7), float(np.round(rng.normal()*4)), np.float64(rng.normal())][k]


def grid(rng):
    nx, ny = rng.integers(3, 6, 2)
    xs, ys = np.linspace(-1, 1, nx), np.linspace(-2, 1, ny)
    return dict(xs=xs, ys=ys, zs=rng.normal(size=(ny, nx)), dzdxs=rng.normal(size=(ny, nx)), dzdys=rng.normal(size=(ny, nx)),
                d2zdxdys=rng.normal(size=(ny, nx)), nanpolicy=str(rng.choice(['nan', 'zero'])))


def pos(rng):
    return float(rng.uniform(.1, 3))


def smallsurf(rng):
    return [lambda: batoid.Plane(), lambda: batoid.Paraboloid(num(rng)+10), lambda: batoid.Quadric(num(rng)+10, num(rng))][rng.integers(3)]()


def smallobsc(rng):
    return [lambda: batoid.ObscCircle(pos(rng), num(rng)), lambda: batoid.ObscRay(pos(rng), num(rng)),
            lambda: batoid.ObscRectangle(pos(rng), pos(rng), 0., num(rng))][rng.integers(3)]()


# kind -> (constructor from a dict of parameters, random parameters)
KINDS = dict(
    Plane=(lambda: batoid.Plane(), lambda r: {}),
    Tilted=(lambda tanx, tany: batoid.Tilted(tanx, tany), lambda r: dict(tanx=num(r), tany=num(r))),
    Paraboloid=(lambda R: batoid.Paraboloid(R), lambda r: dict(R=num(r))),
    Sphere=(lambda R: batoid.Sphere(R), lambda r: dict(R=num(r))),
    Quadric=(lambda R, k: batoid.Quadric(R, k), lambda r: dict(R=num(r), k=num(r))),
    Asphere=(lambda R, k, c, i: batoid.Asphere(R, k, c, i), lambda r: dict(R=num(r), k=num(r), c=[[float(q) for q in r.normal(size=3)], r.normal(size=2)][r.integers(2)], i=int(r.integers(1, 4)))),
    Zernike=(lambda c, Ro, Ri, x, y: batoid.Zernike(c, Ro, Ri, x, y),
             lambda r: dict(c=r.normal(size=r.integers(2, 12)), Ro=float(r.choice([1., 1.5, r.uniform(2, 3)])), Ri=float(r.choice([0., .3])), x=float(r.choice([0., r.normal()])), y=float(r.choice([0., r.normal()])))),
    Bicubic=(lambda **k: batoid.Bicubic(**k), grid),
    Sum=(lambda a, b: batoid.Sum([a, b]), lambda r: dict(a=smallsurf(r), b=smallsurf(r))),
    ConstMedium=(lambda n: batoid.ConstMedium(n), lambda r: dict(n=pos(r))),
    TableMedium=(lambda w, n: batoid.TableMedium(w, n), lambda r: (lambda m: dict(w=np.cumsum(r.uniform(.1, 1, m))*1e-6, n=r.uniform(1, 2, m)))(int(r.integers(2, 6)))),
    SellmeierMedium=(lambda **k: batoid.SellmeierMedium(*[k[q] for q in ('B1', 'B2', 'B3', 'C1', 'C2', 'C3')]),
                     lambda r: {k: float(v*r.uniform(.9, 1.1)) for k, v in zip(('B1', 'B2', 'B3', 'C1', 'C2', 'C3'), ref.SILICA)}),
    SumitaMedium=(lambda **k: batoid.SumitaMedium(*[k['A%d' % i] for i in range(6)]),
                  lambda r: {'A%d' % k: float(v*r.uniform(.9, 1.1)) for k, v in enumerate([2.2, -1e-2, 1e-2, 1e-4, 1e-5, -1e-6])}),
    Air=(lambda p, t, h: batoid.Air(p, t, h), lambda r: dict(p=60+num(r), t=290+num(r), h=pos(r))),
    SimpleCoating=(lambda a, b: batoid.SimpleCoating(a, b), lambda r: dict(a=float(r.uniform()), b=float(r.uniform()))),
    ObscCircle=(lambda r, x, y: batoid.ObscCircle(r, x, y), lambda r: dict(r=pos(r), x=num(r), y=float(r.choice([0., r.normal()])))),
    ObscAnnulus=(lambda i, o, x, y: batoid.ObscAnnulus(i, o, x, y), lambda r: dict(i=pos(r), o=3+pos(r), x=float(r.choice([0., r.normal()])), y=num(r))),
    ObscRectangle=(lambda w, h, x, y, t: batoid.ObscRectangle(w, h, x, y, t),
                   lambda r: dict(w=pos(r), h=pos(r), x=float(r.choice([0., r.normal()])), y=float(r.choice([0., r.normal()])), t=float(r.choice([0., r.normal()])))),
    ObscRay=(lambda w, t, x, y: batoid.ObscRay(w, t, x, y), lambda r: dict(w=pos(r), t=num(r), x=float(r.choice([0., r.normal()])), y=float(r.choice([0., r.normal()])))),
    ObscPolygon=(lambda xs, ys: batoid.ObscPolygon(xs, ys), lambda r: (lambda m: dict(xs=r.normal(size=m), ys=r.normal(size=m)))(int(r.integers(3, 7)))),
    ObscNegation=(lambda o: batoid.ObscNegation(o), lambda r: dict(o=smallobsc(r))),
    ObscUnion=(lambda a, b: batoid.ObscUnion([a, b]), lambda r: dict(a=smallobsc(r), b=smallobsc(r))),
    ObscIntersection=(lambda a, b: batoid.ObscIntersection([a, b]), lambda r: dict(a=smallobsc(r), b=smallobsc(r))),
    CoordSys=(lambda o, R: batoid.CoordSys(o, R), lambda r: dict(o=r.normal(size=3), R=ref.randrot(r))),
    Lattice=(lambda a, p: batoid.Lattice(a, p), lambda r: (lambda d: dict(a=r.normal(size=r.integers(1, 4, d)), p=r.normal(size=(d, d))))(int(r.integers(1, 4)))),
    CoordTransform=(lambda a, b: batoid.CoordTransform(a, b), lambda r: dict(a=ref.randcs(r), b=ref.randcs(r))),
)


def behaves(a, b):
    """observably the same"""
    x, y = np.meshgrid(np.linspace(-1.7, 1.3, 9), np.linspace(-1.1, 1.9, 7))
    same = lambda p, q: np.array_equal(p, q, equal_nan=True)
    if isinstance(a, batoid.surface.Surface):
        return same(a.sag(x, y), b.sag(x, y)) and same(a.normal(x.ravel(), y.ravel()), b.normal(x.ravel(), y.ravel()))
    if isinstance(a, batoid.Medium):
        w = np.linspace(300e-9, 3000e-9, 30)
        return same(a.getN(w), b.getN(w))
    if isinstance(a, batoid.coating.Coating):
        return a.getCoefs(5e-7, .5) == b.getCoefs(5e-7, .5) and a.getReflect(5e-7, .5) == b.getReflect(5e-7, .5) and a.getTransmit(5e-7, .5) == b.getTransmit(5e-7, .5)
    if isinstance(a, batoid.obscuration.Obscuration):
        ok = same(a.contains(x, y), b.contains(x, y))
        if isinstance(a, batoid.ObscPolygon):
            ok &= same(a.containsGrid(x[0], y[:, 0]), b.containsGrid(x[0], y[:, 0]))
        return ok
    if isinstance(a, batoid.CoordSys):
        return same(a.origin, b.origin) and same(a.rot, b.rot) and same(a.toGlobal(np.ones(3)), b.toGlobal(np.ones(3)))
    if isinstance(a, batoid.Lattice):
        return same(a.coords, b.coords) and same(a.array, b.array)
    if isinstance(a, batoid.CoordTransform):
        return same(a.applyForwardArray(1., 2., 3.), b.applyForwardArray(1., 2., 3.)) and same(a.applyReverseArray(1., 2., 3.), b.applyReverseArray(1., 2., 3.))
    raise RuntimeError(type(a))


def tweak(rng, k, v):
    """a value differing a little, in one place"""
    if isinstance(v, str):
        return 'zero' if v == 'nan' else 'nan'
    if isinstance(v, bool):
        return not v
    if isinstance(v, (int, np.integer)):
        return v+1
    if k in ('Ro', 'Ri'):
        return v+float(rng.choice([1e-9, 1.])) if k == 'Ro' else v+float(rng.choice([1e-9, .25]))
    if isinstance(v, float):
        return v+float(rng.choice([1e-9*max(1., abs(v)), 1., -.25]))
    if isinstance(v, list):
        w = list(v)
        j = rng.integers(len(w))
        w[j] = tweak(rng, k, w[j])
        return w
    if isinstance(v, np.ndarray):
        w = v.copy()
        j = rng.integers(w.size)
        w.ravel()[j] += rng.choice([1e-9, .5])
        return w
    if isinstance(v, batoid.surface.Surface):
        return batoid.Sphere(23.5)
    if isinstance(v, batoid.obscuration.Obscuration):
        return batoid.ObscCircle(7.25)
    if isinstance(v, batoid.CoordSys):
        return batoid.CoordSys(v.origin+np.array([0, 1e-9, 0]), v.rot) if rng.uniform() < .5 else batoid.CoordSys(v.origin, v.rot@ref.randrot(rng))
    raise RuntimeError(type(v))


def dup(v):
    return v.copy() if isinstance(v, np.ndarray) else list(v) if isinstance(v, list) else v


def equal(rec, a, b, clause, hashed=True, **what):
    rec.check((a == b) is True or bool(a == b), clause+': equal', **what)
    rec.check(bool(b == a) and not (a != b) and not (b != a), clause+': == and != agree, both ways round', **what)
    if hashed:
        rec.check(hash(a) == hash(b), clause+': equal hashes', **what)
    rec.check(behaves(a, b), clause+': behaves identically', **what)


def unequal(rec, a, b, clause, **what):
    rec.check(not (a == b) and not (b == a) and (a != b) and (b != a), clause, **what)


def run(rec, rng, tier):
    rec.rule = 'every kind x random parameters x every single-field change x every pair of kinds x pickle/copy/repr'
    rec.bound = 'sampled parameter values'
    ns = dict(vars(batoid), array=np.array, np=np)
    for _ in range(60 if tier == 'thorough' else 12):
        pool = []
        for kind, (mk, par) in KINDS.items():
            p = par(rng)
            what = dict(kind=kind, params={k: repr(v) for k, v in p.items()})
            a = rec.attempt('construction', lambda: mk(**p), **what)
            if a is None:
                continue
            hashed = kind != 'CoordTransform'
            b = mk(**{k: dup(v) for k, v in p.items()})
            pool.append((kind, a))
            equal(rec, a, b, 'same definition', hashed, **what)
            # every field separates
            for k, v in p.items():
                for _ in range(2):
                    q = dict(p)
                    q[k] = tweak(rng, k, dup(v))
                    c = rec.attempt('construction', lambda: mk(**q), **what)
                    if c is not None:
                        unequal(rec, a, c, 'a difference in one parameter shows', field=k, **what)
                        rec.check(not hashed or hash(c) == hash(mk(**q)), 'hash of equal objects', field=k, **what)
                if isinstance(v, np.ndarray) and v.ndim == 1 and kind in ('TableMedium', 'ObscPolygon', 'Zernike', 'Asphere'):
                    q = {f: (np.append(w, w[-1]*1.01+.01) if isinstance(w, np.ndarray) else w) for f, w in p.items()}
                    c = rec.attempt('construction', lambda: mk(**q), **what)
                    if c is not None:
                        rec.attempt('comparison of different lengths', lambda: unequal(rec, a, c, 'different numbers of parameters show', **what), **what)
            for nm, fn in dict(pickle=lambda: pickle.loads(pickle.dumps(a)), pickle2=lambda: pickle.loads(pickle.dumps(a, protocol=2)),
                               copy=lambda: copy.copy(a), deepcopy=lambda: copy.deepcopy(a),
                               twice=lambda: pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(a))))).items():
                c = rec.attempt(nm, fn, **what)
                if c is not None and rec.check(type(c) is type(a), nm+' keeps the kind', **what):
                    equal(rec, a, c, nm, hashed, **what)
            if kind != 'CoordTransform':
                with np.printoptions(precision=17, threshold=100000, floatmode='unique'):
                    s = repr(a)
                c = rec.attempt('evaluating the printed form', lambda: eval(s, ns), text=s[:300], **what)
                if c is not None and rec.check(type(c) is type(a), 'printed form keeps the kind', **what):
                    equal(rec, a, c, 'printed form', hashed, text=s[:300], **what)
        for i, (k, a) in enumerate(pool):
            for j, (l, b) in enumerate(pool):
                if i < j:
                    rec.attempt('comparison of kinds', lambda: unequal(rec, a, b, 'different kinds are never equal', kinds=[k, l]), kinds=[k, l])
            for o in (None, 1, 'x', (), object()):
                unequal(rec, a, o, 'not equal to anything else', kind=k, other=repr(o))
        # kinds with the same parameters
        R, k = 10+pos(rng), num(rng)
        same = [batoid.Paraboloid(R), batoid.Sphere(R), batoid.Quadric(R, 0.), batoid.Quadric(R, -1.), batoid.Asphere(R, 0., [0.]), batoid.Asphere(R, 0., []),
                batoid.Sum([batoid.Sphere(R)]), batoid.Plane(), batoid.Tilted(0., 0.), batoid.Sum([batoid.Plane()]), batoid.ConstMedium(R),
                batoid.ObscCircle(R), batoid.ObscAnnulus(0., R), batoid.ObscRectangle(R, k), batoid.ObscRay(R, k), batoid.ObscUnion([batoid.ObscCircle(R)]),
                batoid.ObscIntersection([batoid.ObscCircle(R)]), batoid.ObscNegation(batoid.ObscCircle(R)), batoid.SimpleCoating(R, k),
                batoid.SellmeierMedium(1, 1, 1, 0, 0, 0), batoid.SumitaMedium(1, 1, 1, 0, 0, 0)]
        for i, a in enumerate(same):
            for j, b in enumerate(same):
                if i != j:
                    unequal(rec, a, b, 'different kinds are never equal', kinds=[repr(a), repr(b)])
        # order in unions
        a, b = smallobsc(rng), batoid.ObscCircle(9.5)
        for cl in (batoid.ObscUnion, batoid.ObscIntersection):
            u, w = cl([a, b]), cl([b, a])
            rec.check((u == w) == (w == u) and (not (u == w) or hash(u) == hash(w)), 'equal unions have equal hashes')
            rec.check(cl(a, b) == cl([a, b]) == cl((a, b)), 'the ways of listing parts agree')
        # elements of systems
        import opt
        o = opt.tree(rng, 1)
        c = rec.attempt('pickling a system', lambda: pickle.loads(pickle.dumps(o)))
        if c is not None:
            rec.check(c == o and o == c and hash(c) == hash(o), 'a pickled system is equal')
            r = opt.beam(rng, 20)
            rec.check(ref.same(c.trace(r.copy()), o.trace(r.copy())), 'a pickled system traces identically')
        with np.printoptions(precision=17, threshold=100000, floatmode='unique'):
            e = o if False else opt.leaf(rng, 'a', 0., skips=False)
            s = repr(e)
        c = rec.attempt('evaluating a printed element', lambda: eval(s, ns), text=s[:300])
        if c is not None:
            rec.check(c == e, 'a printed element is equal', text=s[:300])
