import numpy as np, batoid, ref, opt


def snap(rv):
    return ref.data(rv), rv.coordSys


def eq(a, b, tol=0.):
    return ref.same(a, b, tol) and a.coordSys == b.coordSys


def plain(rec, rng, o, n):
    ls = opt.leaves(o) if not o.skip else [x for i in o.items for x in opt.leaves(i)]
    for rev in (False, True):
        r0 = opt.beam(rng, n)
        if rev:
            r0.vz[:] *= -1
            r0.z[:] = -9
        want = r0.copy()
        for e in (ls[::-1] if rev else ls):
            opt.step(e, want, rev)
        what = dict(reverse=rev, names=[e.name for e in ls], n=n)
        r = r0.copy()
        out = rec.attempt('trace', lambda: o.trace(r, reverse=rev), **what)
        if out is None:
            continue
        rec.check(out is r, 'trace works in place and returns its batch', **what)
        rec.check(eq(out, want), 'trace applies every part once, in order', got=out.r[:2], want=want.r[:2], **what)
        if o.skip:
            continue
        r = r0.copy()
        tf = rec.attempt('traceFull', lambda: o.traceFull(r, reverse=rev), **what)
        if tf is None:
            continue
        rec.check(eq(r, r0), 'traceFull leaves the given rays alone', **what)
        nm = [e.name for e in (ls[::-1] if rev else ls)]
        if not rec.check(list(tf) == nm and [tf[k]['name'] for k in tf] == nm, 'the record has one entry per visited part, in order', got=list(tf), want=nm, **what):
            continue
        prev = r0.copy()
        for k, e in zip(nm, ls[::-1] if rev else ls):
            rec.check(eq(tf[k]['in'], prev), 'the input of a part is the output of the one before', part=k, **what)
            opt.step(e, prev, rev)
            rec.check(eq(tf[k]['out'], prev), 'the output of a part is the part applied to its input', part=k, **what)
        # the parts by themselves
        for e in ls[:3]:
            q, w = r0.copy(), r0.copy()
            rec.check(eq(e.trace(q, reverse=rev), opt.step(e, w, rev)), 'an elementary part is its surface between its media', part=e.name, kind=type(e).__name__, reverse=rev)


def paths(rec, rng, n):
    """named paths, with and without turning back"""
    o = opt.tree(rng, 1, skips=False, kinds=['RefractiveInterface', 'Interface', 'Baffle'], width=5)
    d = {q: p for q, p in opt.parts(o)}
    ls = [(q, p) for q, p in opt.parts(o) if not hasattr(p, 'items')]
    m = len(ls)
    idx = list(range(m))
    if rng.uniform() < .7 and m >= 3:
        # go forward to j, back to i, forward to the end
        j = int(rng.integers(1, m))
        i = int(rng.integers(0, j))
        idx = list(range(j+1))+list(range(j-1, i-1, -1))+list(range(i+1, m))
    elif rng.uniform() < .5:
        idx = list(range(int(rng.integers(1, m+1))))
    if idx and len(idx) > 1 and idx[-1] == 0:
        pass
    path = [ls[i][0] if rng.uniform() < .5 else ls[i][1].name for i in idx]
    try:
        ok = all(o[p] is ls[i][1] for p, i in zip(path, idx))
    except ValueError:
        return
    if not ok:
        return
    # one spelling per part, as the order of parts is taken from the names
    path = [ls[i][0] for i in idx]
    r0 = opt.beam(rng, n)
    want = r0.copy()
    steps = []
    rev = False
    for k, i in enumerate(idx):
        e = ls[i][1]
        if k+1 < len(idx):
            nrev = idx[k+1] < i
        else:
            nrev = True if i == idx[0] else rev
        a = want.copy()
        if nrev == rev:
            opt.step(e, want, rev)
        else:
            e.surface.reflect(want, coordSys=e.coordSys)
            if e.obscuration is not None:
                e.obscuration.obscure(want)
            rev = nrev
        steps.append((e.name, a, want.copy()))
    what = dict(path=path, n=n)
    r = r0.copy()
    out = rec.attempt('trace along a path', lambda: o.trace(r, path=path), **what)
    if out is None:
        return
    rec.check(out is r and eq(out, want), 'tracing along a path applies its parts in order, turning by reflection', **what)
    tf = rec.attempt('traceFull along a path', lambda: o.traceFull(r0, path=path), **what)
    if tf is None:
        return
    ent = list(tf.values())
    if rec.check(len(ent) == len(idx) and [e['name'] for e in ent] == [s[0] for s in steps], 'the record along a path has one entry per step', got=list(tf), **what):
        for e, (nm, a, b) in zip(ent, steps):
            rec.check(eq(e['in'], a) and eq(e['out'], b), 'record along a path: each step links to the next', part=nm, **what)


def back(rec, rng, n):
    """backward tracing along the reversed output rays returns to the input rays"""
    ctr = opt.Ctr()
    m = opt.medium(rng)
    m0 = m
    items = []
    for k in range(int(rng.integers(1, 6))):
        m2 = opt.medium(rng)
        e = opt.leaf(rng, 'e%d' % k, ctr.next(), m1=m, m2=m2, kinds=['RefractiveInterface', 'RefractiveInterface', 'Interface', 'OPDScreen'], skips=False, tilt=.03)
        e.obscuration = None
        m = e.outMedium
        items.append(e)
    if rng.uniform() < .5:
        k = int(rng.integers(0, len(items)))
        items = [batoid.CompoundOptic(items[:k], name='c1'), batoid.CompoundOptic(items[k:], name='c2')] if k else items
    o = batoid.CompoundOptic(items, name='o')
    if any(isinstance(x, batoid.OPDScreen) for x in opt.leaves(o)) and rng.uniform() < .7:
        return
    if any(isinstance(x, batoid.OPDScreen) for x in opt.leaves(o)):
        return     # the screen adds the same delay both ways: not reversible
    r0 = opt.beam(rng, n, med=m0)
    r = o.trace(r0.copy())
    r.toCoordSys(batoid.CoordSys())
    w = ~r.failed
    b = batoid.RayVector(r.x, r.y, r.z, -r.vx, -r.vy, -r.vz, 0., r.wavelength, r.flux, r.vignetted, r.failed)
    # start beyond the last part
    b.propagate(-1.)
    b.t[:] = 0
    q = rec.attempt('backward trace', lambda: o.trace(b.copy(), reverse=True), n=n)
    if q is None:
        return
    q.toCoordSys(batoid.CoordSys())
    w &= ~q.failed
    rec.check(w.sum() >= .5*n, 'backward trace reaches the entrance', alive=int(w.sum()), n=n)
    rec.close(q.v[w], -r0.v[w], 'backward tracing returns to the input directions', atol=1e-8)
    u = r0.v/np.sqrt((r0.v**2).sum(1))[:, None]
    d = q.r-r0.r
    rec.close((d-(d*u).sum(1)[:, None]*u)[w], np.zeros((int(w.sum()), 3)), 'backward tracing returns to the input lines', atol=1e-8)
    # optical path is the same both ways
    s = (d*u).sum(1)/np.sqrt((r0.v**2).sum(1))
    rec.close((q.t-1+s)[w], (r.t-r0.t)[w], 'the way back takes as long as the way there', atol=1e-8)


def split_ref(ls, rv, rev, i, path, minflux, out, budget):
    """every branch of the ray tree, element by element"""
    budget[0] -= 1
    if budget[0] < 0:
        return
    e = ls[i]
    if isinstance(e, batoid.Mirror):
        res = [(e.surface.reflect(rv.copy(), coordSys=e.coordSys), not rev)]
        res = [(q, rev) for q, _ in res]     # folded: a mirror passes rays on to the next part
    elif isinstance(e, batoid.RefractiveInterface):
        a, b, c = (e.outMedium, e.inMedium, e.reverseCoating) if rev else (e.inMedium, e.outMedium, e.forwardCoating)
        t, r = e.surface.rSplit(rv.copy(), a, b, c, coordSys=e.coordSys)
        res = [(t, rev), (r, not rev)]
    else:
        res = [(opt_pass(e, rv.copy()), rev)]
    for q, rv2 in res:
        if e.obscuration is not None:
            e.obscuration.obscure(q)
        w = ~q.vignetted & (q.flux >= minflux)
        q = q[w]
        if len(q) == 0:
            continue
        j = i+(-1 if rv2 else 1)
        if 0 <= j < len(ls):
            split_ref(ls, q, rv2, j, path+[e.name], minflux, out, budget)
        else:
            out.append((rv2, path+[e.name], q))


def opt_pass(e, rv):
    if isinstance(e, batoid.OPDScreen):
        return e.surface.refractScreen(rv, e.screen, coordSys=e.coordSys)
    return e.surface.intersect(rv, coordSys=e.coordSys)


def split(rec, rng, n):
    o = opt.tree(rng, 1, skips=rng.uniform() < .4, kinds=['RefractiveInterface', 'RefractiveInterface', 'Mirror', 'Baffle', 'Interface' if False else 'Baffle', 'OPDScreen'], width=3)
    if o.skip:
        o.skip = False
    ls = opt.leaves(o)
    if not ls or len(ls) > 8:
        return
    r0 = opt.beam(rng, n)
    mf = float(rng.choice([1e-3, 1e-2, .05]))
    for rev in (False, True):
        want, bud = [], [400]
        split_ref(ls, r0.copy(), rev, len(ls)-1 if rev else 0, [], mf, want, bud)
        if bud[0] < 0:
            continue
        what = dict(names=[e.name for e in ls], kinds=[type(e).__name__ for e in ls], minFlux=mf, reverse=rev)
        g = rec.attempt('traceSplit', lambda: o.traceSplit(r0.copy(), minFlux=mf, reverse=rev), **what)
        if g is None:
            continue
        got = [(False, q.path, q) for q in g[0]]+[(True, q.path, q) for q in g[1]]
        key = lambda t: (t[0], t[1])
        if not rec.check(sorted(map(key, got)) == sorted(map(key, want)), 'split tracing follows every branch once',
                         got=sorted(map(key, got))[:6], want=sorted(map(key, want))[:6], **what):
            continue
        for a, b in zip(sorted(got, key=key), sorted(want, key=key)):
            rec.check(eq(a[2], b[2]), 'split tracing: rays of each branch', branch=a[1], **what)


def skipped(rec, rng, n):
    r0 = opt.beam(rng, n)
    for o in (opt.leaf(rng, 'a', 0.), opt.tree(rng, 1)):
        o.skip = True
        c = batoid.CompoundOptic([o], name='c')
        r = r0.copy()
        rec.attempt('skip', lambda: c.trace(r))
        rec.check(eq(r, r0), 'a part marked to be skipped is not applied')
        rec.check(len(o.traceFull(r0.copy())) == 0 and len(c.traceFull(r0.copy())) == 0, 'a skipped part has no entry in the record')
        f, b = c.traceSplit(r0.copy())
        rec.check(len(f) == 1 and len(b) == 0 and eq(f[0], r0), 'a skipped part passes split rays on')
        f, b = c.traceSplit(r0.copy(), reverse=True)
        rec.check(len(b) == 1 and len(f) == 0 and eq(b[0], r0), 'a skipped part passes split rays on backwards')


def run(rec, rng, tier):
    rec.rule = 'random element trees x directions x named paths x split thresholds, against the flattened list of parts'
    rec.bound = 'depth <= 3, width <= 5, at most 100 rays'
    for k in range(400 if tier == 'thorough' else 60):
        n = int(rng.choice([1, 5, 100]))
        plain(rec, rng, opt.tree(rng, int(rng.integers(0, 3))), n)
        paths(rec, rng, n)
        back(rec, rng, 50)
        split(rec, rng, n)
        if k % 5 == 0:
            skipped(rec, rng, n)
