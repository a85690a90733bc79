import numpy as np, batoid, ref
from kern import F11


def batch(rng, n, L=1.0, lam=1e-3):
    d = {k: L*rng.normal(size=n) for k in F11[:7]}
    sp = 1/rng.uniform(1, 2, n)
    v = np.sqrt(d['vx']**2+d['vy']**2+d['vz']**2)/sp
    for k in ('vx', 'vy', 'vz'):
        d[k] = d[k]/v
    d['wavelength'], d['flux'] = rng.uniform(lam, 3*lam, n), rng.uniform(.1, 2, n)
    d['vignetted'], d['failed'] = rng.uniform(size=n) < .3, rng.uniform(size=n) < .2
    cs = ref.randcs(rng)
    return batoid.RayVector(*[d[k] for k in F11], coordSys=cs), d, cs


def run(rec, rng, tier):
    rec.rule = 'batch size x random rays x times and points x thread counts'
    rec.bound = 'sampled rays, times and points'
    scales(rec, rng, tier)
    for _ in range(200 if tier == 'thorough' else 40):
        n = int(rng.choice([0, 1, 2, 7, 60, 257]))
        rv, d, cs = batch(rng, n)
        what = dict(n=n)
        batoid.global_vars._batoid_max_threads = int(rng.choice([1, 2, 5, 8]))
        p = np.column_stack([d[k] for k in 'xyz'])
        v = np.column_stack([d['v'+k] for k in 'xyz'])
        T = rng.normal()*rng.choice([0, 1, 10])
        r = rng.normal(size=3)
        pos = p+v*(T-d['t'])[:, None]
        g = rec.attempt('positionAtTime', lambda: rv.positionAtTime(T), **what)
        rec.check(np.shape(g) == (n, 3), 'one position per ray', **what)
        rec.close(g, pos, 'position plus velocity times elapsed time', atol=1e-12, rtol=1e-12, **what)
        same(rec, rv, d, cs, 'positionAtTime changes no ray', what)
        k = 2*np.pi*v/(d['wavelength']*(v*v).sum(-1))[:, None]
        om = 2*np.pi/d['wavelength']
        rec.close(rv.k, k, 'wave vector', atol=0, rtol=1e-12, **what)
        for i, q in enumerate('xyz'):
            rec.close(getattr(rv, 'k'+q), k[:, i], 'wave vector component', atol=1e-9, rtol=1e-12, **what)
        rec.close(rv.omega, om, 'angular frequency', atol=0, rtol=1e-13, **what)
        ph = (k*(r-p)).sum(-1)-om*(T-d['t'])
        g = rec.attempt('phase', lambda: rv.phase(r, T), **what)
        rec.close(g, ph, 'phase is k.(r-r0) - omega (T-t)', atol=1e-8, rtol=1e-10, **what)
        g = rec.attempt('amplitude', lambda: rv.amplitude(r, T), **what)
        rec.close(g, np.exp(1j*ph), 'amplitude is exp(i phase)', atol=1e-8, rtol=0, **what)
        rec.check(np.shape(g) == (n,), 'one amplitude per ray', **what)
        for ign in (True, False):
            use = ~d['failed'] & (~d['vignetted'] if ign else True)
            want = np.sum((d['flux']*np.exp(1j*ph))[use])
            g = rec.attempt('sumAmplitude', lambda: rv.sumAmplitude(r, T, ign), **what)
            rec.close(g, want, 'flux-weighted sum over the rays that count', atol=1e-7, rtol=1e-9, ignoreVignetted=ign, **what)
        use = ~d['failed'] & ~d['vignetted']
        rec.close(rv.sumAmplitude(r, T), np.sum((d['flux']*np.exp(1j*ph))[use]), 'vignetting is honoured by default', atol=1e-7, rtol=1e-9, **what)
        for args in ((list(r), T), (tuple(r), T), (r, int(np.rint(T)))):
            rec.close(rv.sumAmplitude(*args), np.sum((d['flux']*np.exp(1j*((k*(r-p)).sum(-1)-om*(args[1]-d['t']))))[use]),
                      'any way to give point and time', atol=1e-7, rtol=1e-9, **what)
        same(rec, rv, d, cs, 'evaluating phases changes no ray', what)
        # failed rays may carry anything: they do not enter the sum
        if n > 3 and d['failed'].any():
            e = {q: a.copy() for q, a in d.items()}
            for q in F11[:7]+['flux']:
                e[q][d['failed']] = np.nan
            rq = batoid.RayVector(*[e[q] for q in F11], coordSys=cs)
            rec.close(rq.sumAmplitude(r, T), np.sum((d['flux']*np.exp(1j*ph))[use]), 'failed rays carry no weight', atol=1e-7, rtol=1e-9, **what)
        out = rec.attempt('propagate', lambda: rv.propagate(T), **what)
        rec.check(out is rv, 'propagating returns the batch', **what)
        e = dict(d, x=pos[:, 0], y=pos[:, 1], z=pos[:, 2], t=np.full(n, T))
        for q in F11:
            rec.close(np.array(getattr(rv, q), float), e[q].astype(float), 'after propagating: '+q,
                      atol=1e-12 if q in 'xyz' else 0, rtol=1e-12 if q in 'xyz' else 0, **what)
        rec.check(rv.coordSys == cs, 'propagating keeps the coordinate system', **what)
        g = rv.phase(r, T)
        rec.close(g, ph, 'phase is the same after propagating', atol=1e-7, rtol=1e-9, **what)
    batoid.global_vars._batoid_max_threads = 8


def scales(rec, rng, tier):
    """optical wavelengths and distances, nanometre steps, and batches larger than any block size"""
    for L, lam, n in ((1e-9, 5e-7, 9), (1e-7, 5e-7, 64), (1e-3, 3e-7, 33), (30., 5e-7, 101), (3e3, 1e-6, 17), (1e6, 1e-2, 12),
                      (1., 5e-7, 4097), (1., 1e-3, 70001)):
        rv, d, cs = batch(rng, n, L, lam)
        what = dict(n=n, distances=L, wavelengths=lam)
        p, v = np.column_stack([d[k] for k in 'xyz']), np.column_stack([d['v'+k] for k in 'xyz'])
        T, r = L*rng.normal(), L*rng.normal(size=3)
        pos = p+v*(T-d['t'])[:, None]
        k, om = 2*np.pi*v/(d['wavelength']*(v*v).sum(-1))[:, None], 2*np.pi/d['wavelength']
        ph = (k*(r-p)).sum(-1)-om*(T-d['t'])
        tol = 1e-9+1e-14*L/lam*2*np.pi*10
        rec.close(rv.positionAtTime(T), pos, 'position plus velocity times elapsed time', atol=1e-14*L, rtol=1e-13, **what)
        rec.close(rv.phase(r, T), ph, 'phase is k.(r-r0) - omega (T-t)', atol=tol, rtol=0, **what)
        rec.close(rv.amplitude(r, T), np.exp(1j*ph), 'amplitude is exp(i phase)', atol=tol, rtol=0, **what)
        for ign in (True, False):
            use = ~d['failed'] & (~d['vignetted'] if ign else True)
            rec.close(rv.sumAmplitude(r, T, ign), np.sum((d['flux']*np.exp(1j*ph))[use]),
                      'flux-weighted sum over the rays that count', atol=tol*max(n, 1), rtol=1e-9, ignoreVignetted=ign, **what)
        rv.propagate(T)
        rec.close(np.array(rv.r), pos, 'after propagating: position', atol=1e-14*L, rtol=1e-13, **what)
        rec.check(bool((np.array(rv.t) == T).all()), 'after propagating: time', **what)
        rec.close(np.array(rv.v), v, 'after propagating: velocity', atol=0, rtol=0, **what)
        rec.close(rv.phase(r, T), ph, 'phase is the same after propagating', atol=tol, rtol=0, **what)


def same(rec, rv, d, cs, clause, what):
    for q in F11:
        rec.close(np.array(getattr(rv, q), float), d[q].astype(float), clause+': '+q, atol=0, rtol=0, **what)
    rec.check(rv.coordSys == cs, clause, **what)
