import numpy as np, batoid, ref


def rot(x, y, x0, y0, th):
    dx, dy = x-x0, y-y0
    return dx*np.cos(th)+dy*np.sin(th), -dx*np.sin(th)+dy*np.cos(th)


def cyc(v):
    return np.concatenate([v, v[:1]])


def inpoly(px, py, x, y):
    """even-odd: number of edges straddling the point's height, to its right, counted half-open"""
    n = 0
    X, Y = cyc(px), cyc(py)
    with np.errstate(all='ignore'):
        for i in range(len(px)):
            x1, y1, x2, y2 = X[i], Y[i], X[i+1], Y[i+1]
            st = (y1 > y) != (y2 > y)
            n = n+(st & (x < (x2-x1)*(y-y1)/(y2-y1)+x1))
    return n % 2 == 1


def edgedist(px, py, x, y):
    X, Y = cyc(px), cyc(py)
    d = np.full(np.shape(x), np.inf)
    for i in range(len(px)):
        ex, ey = X[i+1]-X[i], Y[i+1]-Y[i]
        L = ex*ex+ey*ey
        u = np.clip(((x-X[i])*ex+(y-Y[i])*ey)/(L if L > 0 else 1), 0, 1)
        d = np.minimum(d, np.hypot(x-X[i]-u*ex, y-Y[i]-u*ey))
    return d


def shapes(rng):
    x0, y0 = rng.normal(size=2)*.5 if rng.uniform() < .7 else (0., 0.)
    r, r2 = np.sort(rng.uniform(.1, 2, 2))
    w, h = rng.uniform(.2, 3, 2)
    th = rng.choice([0., rng.uniform(-7, 7), np.pi/2])
    if rng.uniform() < .3:
        r = 0.
    out = [
        ('circle', batoid.ObscCircle(r2, x0, y0), lambda x, y: r2-np.hypot(x-x0, y-y0)),
        ('annulus', batoid.ObscAnnulus(r, r2, x0, y0),
         lambda x, y: np.minimum(r2-np.hypot(x-x0, y-y0), np.hypot(x-x0, y-y0)-r if r > 0 else 9e9)),
        ('rectangle', batoid.ObscRectangle(w, h, x0, y0, th),
         lambda x, y: np.minimum(w/2-np.abs(rot(x, y, x0, y0, th)[0]), h/2-np.abs(rot(x, y, x0, y0, th)[1]))),
        ('ray', batoid.ObscRay(w, th, x0, y0),
         lambda x, y: np.minimum(w/2-np.abs(rot(x, y, x0, y0, th)[1]), rot(x, y, x0, y0, th)[0])),
        ('circle defaults', batoid.ObscCircle(r2), lambda x, y: r2-np.hypot(x, y)),
        ('annulus defaults', batoid.ObscAnnulus(r, r2), lambda x, y: np.minimum(r2-np.hypot(x, y), np.hypot(x, y)-r if r > 0 else 9e9)),
        ('rectangle defaults', batoid.ObscRectangle(w, h), lambda x, y: np.minimum(w/2-np.abs(x), h/2-np.abs(y))),
    ]
    return out


def polys(rng):
    k = int(rng.integers(3, 9))
    a = np.sort(rng.uniform(0, 2*np.pi, k))
    star = np.tile([1., .4], k)
    aa = np.linspace(0, 2*np.pi, 2*k, endpoint=False)
    out = [(np.cos(a)*1.5+.2, np.sin(a)*1.2-.1), (star*np.cos(aa)*1.8, star*np.sin(aa)*1.5),
           tuple(rng.uniform(-1.5, 1.5, (2, k))),                         # self-intersecting
           (np.array([-1., 1., 1., -1.]), np.array([-1., -1., 1., 1.])),
           (np.array([-1., -1., 1., 1., 0.]), np.array([1., -1., -1., 1., 0.2]))]
    px, py = out[int(rng.integers(len(out)))]
    out.append((np.append(px, px[0]), np.append(py, py[0])))              # explicitly closed
    out.append((px[::-1].copy(), py[::-1].copy()))
    out.append((rng.integers(-3, 4, k).astype(float), rng.integers(-3, 4, k).astype(float)))
    return out


def ask(rec, o, x, y, name):
    return rec.attempt('contains must not raise', lambda: np.array([o.contains(float(a), float(b)) for a, b in zip(x, y)]),
                       shape=name)


def run(rec, rng, tier):
    rec.rule = 'shape x random parameters x points away from the border (and on grid lines through vertices)'
    rec.bound = 'sampled shapes and points'
    for _ in range(60 if tier == 'thorough' else 12):
        sh = shapes(rng)
        x, y = rng.uniform(-2.5, 2.5, (2, 60))
        regs = []
        for nm, o, d in sh:
            c0 = (getattr(o, 'x', 0.), getattr(o, 'y', 0.))
            X, Y = np.append(x, [c0[0]+1e-6, c0[0]-1e-6, c0[0], c0[0], 0., 0.]), np.append(y, [c0[1], c0[1], c0[1]+1e-6, c0[1], 0., c0[1]])
            g = ask(rec, o, X, Y, nm)
            if g is None:
                continue
            v = d(X, Y)
            s = np.abs(v) > 1e-9
            rec.check(np.array_equal(g[s], v[s] > 0), nm+' contains the documented region', shape=repr(o))
            regs.append((o, v[:60] > 0, np.abs(v[:60]) > 1e-9))
        for px, py in polys(rng):
            polygon(rec, rng, px, py, x, y)
        px, py = polys(rng)[0]
        regs.append((batoid.ObscPolygon(px, py), inpoly(px, py, x, y), edgedist(px, py, x, y) > 1e-9))
        combine(rec, rng, regs, x, y)


def polygon(rec, rng, px, py, x, y):
    o = rec.attempt('polygon', lambda: batoid.ObscPolygon(px, py), xs=px, ys=py)
    if o is None:
        return
    # include the heights of the vertices themselves
    xv, yv = rng.uniform(-2.5, 2.5, 3*len(py)), np.tile(py, 3)
    X, Y = np.concatenate([x, xv]), np.concatenate([y, yv])
    g = ask(rec, o, X, Y, 'polygon')
    if g is None:
        return
    s = edgedist(px, py, X, Y) > 1e-9
    w = inpoly(px, py, X, Y)
    rec.check(np.array_equal(g[s], w[s]), 'polygon: even-odd rule over all edges', xs=px, ys=py,
              bad=np.column_stack([X, Y])[s][g[s] != w[s]][:4])
    gx = np.sort(rng.uniform(-2.6, 2.6, int(rng.integers(1, 12))))
    gy = np.sort(np.concatenate([rng.uniform(-2.6, 2.6, int(rng.integers(1, 12))), rng.choice(py, 2)]))
    grid(rec, o, px, py, gx, gy)
    lo, hi = min(px)-1, max(px)+1
    grid(rec, o, px, py, np.linspace(lo, hi, 7), np.linspace(min(py)-1, max(py)+1, 5))
    grid(rec, o, px, py, np.array([(lo+hi)/2]), np.array([py[0]+1e-3]))
    grid(rec, o, px, py, np.array([hi+5, hi+6]), np.array([0., .1]))
    grid(rec, o, px, py, np.linspace(lo, hi, 6), np.array([max(py)+1, max(py)+2]))
    grid(rec, o, px, py, np.linspace(lo, hi, 6).tolist(), [-.25, .3])
    grid(rec, o, px, py, np.arange(-2, 3), np.arange(-2, 3))
    grid(rec, o, px, py, np.linspace(lo, hi, 9)[::2], np.linspace(-1, 1, 9)[::2])
    grid(rec, o, px, py, np.zeros(0), np.array([.1]))
    grid(rec, o, px, py, np.array([.1]), np.zeros(0))


def grid(rec, o, px, py, gx, gy):
    out = rec.attempt('containsGrid', lambda: o.containsGrid(gx, gy), xs=px, ys=py, xgrid=gx, ygrid=gy)
    if out is None:
        return
    gx, gy = np.asarray(gx, float), np.asarray(gy, float)
    rec.check(out.shape == (len(gy), len(gx)) and out.dtype == bool, 'one answer per grid cell', xgrid=gx, ygrid=gy)
    if out.size == 0:
        return
    X, Y = np.meshgrid(gx, gy)
    s = edgedist(px, py, X, Y) > 1e-9
    w = np.array([[o.contains(a, b) for a in gx] for b in gy]).reshape(out.shape)
    rec.check(set(np.unique(out.view(np.uint8))) <= {0, 1}, 'grid answers are booleans', xs=px, ys=py)
    rec.check(np.array_equal(out[s], w[s]), 'grid answers are the point answers', xs=px, ys=py, xgrid=gx, ygrid=gy,
              bad=np.argwhere((out != w) & s)[:4])
    w = inpoly(px, py, X, Y)
    rec.check(np.array_equal(out[s], w[s]), 'grid answers follow the even-odd rule', xs=px, ys=py, xgrid=gx, ygrid=gy)


def combine(rec, rng, regs, x, y):
    for o, w, s in regs:
        g = ask(rec, batoid.ObscNegation(o), x, y, 'negation')
        rec.check(g is not None and np.array_equal(g[s], ~w[s]), 'negation is the complement', of=repr(o))
        g = ask(rec, batoid.ObscNegation(batoid.ObscNegation(o)), x, y, 'double negation')
        rec.check(g is not None and np.array_equal(g[s], w[s]), 'double negation', of=repr(o))
    for k in list(range(1, len(regs)+1)):
        j = rng.choice(len(regs), k, replace=False)
        os = [regs[i][0] for i in j]
        s = np.all([regs[i][2] for i in j], axis=0)
        u, n = np.any([regs[i][1] for i in j], axis=0), np.all([regs[i][1] for i in j], axis=0)
        for how, mk in (('arguments', lambda c: c(*os)), ('list', lambda c: c(os)), ('tuple', lambda c: c(tuple(os)))):
            a = rec.attempt('union', lambda: mk(batoid.ObscUnion), members=k, how=how)
            b = rec.attempt('intersection', lambda: mk(batoid.ObscIntersection), members=k, how=how)
            if a is None or b is None:
                continue
            g = ask(rec, a, x, y, 'union')
            rec.check(np.array_equal(g[s], u[s]), 'union of %d' % k, how=how, members=[repr(o) for o in os])
            g = ask(rec, b, x, y, 'intersection')
            rec.check(np.array_equal(g[s], n[s]), 'intersection of %d' % k, how=how, members=[repr(o) for o in os])
        nst = batoid.ObscUnion(batoid.ObscIntersection(os), batoid.ObscNegation(batoid.ObscUnion(os)))
        g = ask(rec, nst, x, y, 'nested')
        rec.check(np.array_equal(g[s], (n | ~u)[s]), 'nested combination', members=k)
