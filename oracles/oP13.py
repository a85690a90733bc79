import numpy as np, batoid, ref, oP12
from kern import F11


def obsc(rng):
    sh = oP12.shapes(rng)
    nm, o, d = sh[rng.integers(len(sh))]
    k = rng.uniform()
    if k < .2:
        return 'negation', batoid.ObscNegation(o), lambda x, y: -d(x, y)
    if k < .4:
        n2, o2, d2 = sh[rng.integers(len(sh))]
        return 'union', batoid.ObscUnion(o, o2), lambda x, y: np.maximum(d(x, y), d2(x, y))
    if k < .5:
        px, py = oP12.polys(rng)[0]
        return 'polygon', batoid.ObscPolygon(px, py), \
            lambda x, y: np.where(oP12.inpoly(px, py, x, y), 1, -1)*oP12.edgedist(px, py, x, y)
    return nm, o, d


def batch(rng, n, cs):
    d = {k: rng.normal(size=n) for k in F11[:7]}
    d['x'], d['y'] = rng.uniform(-2.5, 2.5, (2, n))
    d['wavelength'], d['flux'] = rng.uniform(3e-7, 1e-6, n), rng.uniform(.1, 2, n)
    d['vignetted'], d['failed'] = rng.uniform(size=n) < .3, rng.uniform(size=n) < .2
    return batoid.RayVector(*[d[k] for k in F11], coordSys=cs), d


def flags(rec, r, d, m, what):
    f = d['failed']
    want = d['vignetted'] | (m > 0)
    ok = (np.abs(m) > 1e-9) & ~f
    rec.check(np.array_equal(r.vignetted[ok], want[ok]), 'vignetted: those that were, and those inside', **what)
    rec.check(np.all(r.vignetted[d['vignetted']]), 'vignetting is never cleared', **what)


def run(rec, rng, tier):
    rec.rule = 'shape x placement x batch x way of calling; Interface with an obscuration, each way of tracing'
    rec.bound = 'sampled shapes, placements and rays'
    sizes = [70001, 4099]          # larger than any block of work
    for _ in range(150 if tier == 'thorough' else 30):
        n = sizes.pop() if sizes else int(rng.choice([0, 1, 2, 40, 300]))
        src = ref.randcs(rng, .5)
        nm, o, dist = obsc(rng)
        what = dict(shape=nm, n=n)
        # in place, in the batch's own system
        for how in ('method', 'function'):
            r, d = batch(rng, n, src)
            out = rec.attempt('obscure', lambda: o.obscure(r) if how == 'method' else batoid.obscure(o, r), **what)
            for k in F11[:9]+['failed']:
                rec.close(np.array(getattr(r, k), float), d[k].astype(float), 'obscuring changes no other property: '+k, atol=0, rtol=0, **what)
            rec.check(r.coordSys == src, 'obscuring keeps the coordinate system', **what)
            flags(rec, r, d, dist(d['x'], d['y']), dict(what, how=how))
            if out is not None:
                rec.check(out is r or out == r, 'returns the batch', **what)
        threads(rec, rng, o, dist, src)
        interface(rec, rng, tier)


def threads(rec, rng, o, dist, src):
    r, d = batch(rng, 97, src)
    for th in (1, 3, 8):
        batoid.global_vars._batoid_max_threads = th
        q = batoid.RayVector(*[d[k] for k in F11], coordSys=src)
        batoid.obscure(o, q)
        flags(rec, q, d, dist(d['x'], d['y']), dict(threads=th))


def interface(rec, rng, tier):
    nm, o, dist = obsc(rng)
    cs = ref.randcs(rng, .3)
    f = ref.paraboloid(rng)
    kind = rng.choice(['Mirror', 'RefractiveInterface', 'Detector', 'Baffle', 'OPDScreen'])
    m1, m2 = batoid.ConstMedium(1.1), batoid.ConstMedium(1.4)
    kw = dict(name='E', coordSys=cs, obscuration=o, inMedium=m1, outMedium=m2 if kind == 'RefractiveInterface' else m1)
    if kind == 'OPDScreen':
        el = batoid.optic.OPDScreen(f.surf, batoid.Plane(), **kw)
        el0 = batoid.optic.OPDScreen(f.surf, batoid.Plane(), **dict(kw, obscuration=None))
    else:
        el = getattr(batoid, kind)(f.surf, **kw)
        el0 = getattr(batoid, kind)(f.surf, **dict(kw, obscuration=None))
    n = 60
    b = ref.rays(rng, f, n, speed=1/1.1)
    vg = rng.uniform(size=n) < .2
    src = ref.randcs(rng, .3)
    p = ref.tolocal(src, ref.toglobal(cs, np.column_stack([b.x, b.y, b.z])))
    v = ref.vlocal(src, np.column_stack([b.vx, b.vy, b.vz])@cs.rot.T)
    mk = lambda: batoid.RayVector(*p.T, *v.T, b.t, b.wavelength, b.flux, vg, np.zeros(n, bool), coordSys=src)
    for rev in (False, True):
        for how in ('trace', 'interact', 'traceFull'):
            what = dict(element=kind, shape=nm, how=how, reverse=rev)
            if how == 'trace':
                r = rec.attempt('trace', lambda: el.trace(mk(), reverse=rev), **what)
                q = el0.trace(mk(), reverse=rev)
            elif how == 'interact':
                continue
            else:
                tf = rec.attempt('traceFull', lambda: el.traceFull(mk(), reverse=rev), **what)
                if tf is None:
                    continue
                r = tf['E']['out']
                q = el0.traceFull(mk(), reverse=rev)['E']['out']
            if r is None:
                continue
            m = dist(q.x, q.y)
            ok = (np.abs(m) > 1e-8) & ~q.failed
            rec.check(np.array_equal(r.vignetted[ok], (q.vignetted | (m > 0))[ok]),
                      'an element obscures at its surface intersection', **what)
            for k in F11[:9]+['failed']:
                rec.close(np.array(getattr(r, k), float), np.array(getattr(q, k), float),
                          'an obscuration changes nothing but vignetting: '+k, atol=0, rtol=0, **what)
