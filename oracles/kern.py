"""Contract monitors of the ray kernels (intersect, reflect, refract, rSplit, refractScreen) through the
public API, on randomly placed surfaces and random batches with live, missing, failed and vignetted rays."""
import numpy as np, batoid, ref
from batoid import RayVector

F11 = ['x', 'y', 'z', 'vx', 'vy', 'vz', 't', 'wavelength', 'flux', 'vignetted', 'failed']


def misses(rng, f, n):
    """rays (local coordinates) that certainly never cross the surface, or None"""
    nm = f.name.split('(')[0]
    s = f.surf
    o = np.ones(n)
    a = rng.uniform(0, 2*np.pi, n)
    if nm == 'Plane':
        return rng.normal(size=n), rng.normal(size=n), o*rng.choice([-1, 1]), np.cos(a), np.sin(a), 0*o
    if nm == 'Tilted':
        vx, vy = np.cos(a), np.sin(a)
        v = np.array([vx, vy, vx*s.tanx+vy*s.tany])
        # exactly parallel only in exact arithmetic: use the axis direction
        return None
    if nm == 'Paraboloid':
        return rng.normal(size=n), rng.normal(size=n), -np.sign(s.R)*o, np.cos(a), np.sin(a), 0*o
    if nm in ('Sphere', 'Quadric', 'Asphere'):
        k = 0. if nm == 'Sphere' else s.conic
        if k > -1:
            r = abs(s.R)/np.sqrt(1+k)*rng.uniform(1.05, 3, n)
            return r*np.cos(a), r*np.sin(a), rng.normal(size=n), 0*o, 0*o, o*rng.choice([-1, 1])
        if nm != 'Asphere':
            z = -np.sign(s.R)*min(.3*abs(s.R), .3*abs(s.R/(1+k)) if k < -1 else 1e9)
            return rng.normal(size=n)*.1, rng.normal(size=n)*.1, z*o, np.cos(a), np.sin(a), 0*o
    if nm.startswith('Bicubic') and s.nanpolicy == 'nan':
        return (rng.uniform(4, 9, n), rng.uniform(-9, 9, n), o*0+2., 0*o, 0*o, o*rng.choice([-1, 1]))
    return None


class Batch:
    """a batch with known make-up, in coordinate system src; the surface sits in dst"""

    def __init__(s, rng, f, n=24, speed=1.0, wl=None, slope=.25, special=True, dirn=None, samecs=None):
        wl = rng.uniform(350e-9, 1000e-9, n) if wl is None else wl
        b = ref.rays(rng, f, n, speed=speed, wl=wl, slope=slope, dirn=dirn)
        d = {k: np.array(getattr(b, k)) for k in F11}
        s.kind = np.array(['live']*n, dtype='U4')
        same = rng.uniform() < .2 if samecs is None else samecs
        if special:
            m = misses(rng, f, 5) if same or f.name != 'Plane' else None     # parallel only when exact
            if m is not None:
                j = rng.choice(n, 5, replace=False)
                sp = speed if np.ndim(speed) == 0 else speed[j]
                for k, val in zip(F11[:3], m[:3]):
                    d[k][j] = val
                for k, val in zip(F11[3:6], m[3:]):
                    d[k][j] = val*sp
                s.kind[j] = 'miss'
            j = rng.choice(n, 4, replace=False)
            d['failed'][j] = True
            s.kind[j] = 'dead'
            for i in j[:2]:
                for k in F11[:7]:
                    d[k][i] = np.nan if rng.uniform() < .7 else d[k][i]
            d['flux'][j[0]] = np.nan
            d['vignetted'][rng.choice(n, 6, replace=False)] = True
            d['vignetted'][j[:3]] = True
        s.f, s.n = f, n
        s.dst = ref.randcs(rng, 3.)
        if same and f.name == 'Plane':
            s.dst = batoid.CoordSys(origin=rng.normal(size=3))
        s.src = s.dst if same else ref.randcs(rng, 3.)
        p = np.column_stack([d['x'], d['y'], d['z']])
        v = np.column_stack([d['vx'], d['vy'], d['vz']])
        s.p, s.v = p.copy(), v.copy()                       # local to the surface
        q, w = p, v
        if not same:
            q = ref.tolocal(s.src, ref.toglobal(s.dst, p))
            w = ref.vlocal(s.src, v@s.dst.rot.T)
        for i, k in enumerate('xyz'):
            d[k] = q[:, i]
            d['v'+k] = w[:, i]
        s.d = d

    def rv(s, idx=None):
        idx = slice(None) if idx is None else idx
        return RayVector(*[s.d[k][idx] for k in F11], coordSys=s.src)

    def live(s):
        return s.kind == 'live'


OPS = ('intersect', 'reflect', 'refract', 'rSplit', 'refractScreen')


def apply(op, b, rv, m1=None, m2=None, coating=None, screen=None, cs=True):
    c = b.dst if cs else None
    f = b.f.surf
    if op == 'intersect':
        return [f.intersect(rv, coordSys=c, coating=coating)]
    if op == 'reflect':
        return [f.reflect(rv, coordSys=c, coating=coating)]
    if op == 'refract':
        return [f.refract(rv, m1, m2, coordSys=c, coating=coating)]
    if op == 'rSplit':
        return list(f.rSplit(rv, m1, m2, coating, coordSys=c))
    return [f.refractScreen(rv, screen, coordSys=c)]


class Mon:
    """records only the clauses of the properties asked for"""

    def __init__(s, rec, props):
        s.rec, s.props = rec, props

    def ck(s, prop, ok, clause, **k):
        if prop in s.props:
            s.rec.check(ok, clause, **k)

    def cl(s, prop, got, want, clause, atol=1e-9, rtol=1e-9, **k):
        if prop in s.props:
            s.rec.close(got, want, clause, atol=atol, rtol=rtol, **k)


def vec(rv):
    return np.column_stack([rv.x, rv.y, rv.z]), np.column_stack([rv.vx, rv.vy, rv.vz])


def unit(v):
    return v/np.sqrt((v*v).sum(-1))[:, None]


def one(M, rng, op, f, dirn=None, coated=None, steep=False):
    rec = M.rec
    n = 24
    n1, n2 = rng.uniform(1., 1.7, 2)
    if rng.uniform() < .15:
        n2 = n1
    wlt = np.linspace(300e-9, 1100e-9, 5)
    tab = rng.uniform(1., 1.7, 5)
    if rng.uniform() < .5:
        m2, idx2 = batoid.ConstMedium(n2), lambda w: n2+0*w
    else:
        m2, idx2 = batoid.TableMedium(wlt, tab), lambda w: np.interp(w, wlt, tab, left=np.nan, right=np.nan)
    m1 = batoid.ConstMedium(n1)
    wl = rng.uniform(350e-9, 1000e-9, n)
    if op in ('refract', 'rSplit') and rng.uniform() < .3:
        wl[rng.integers(n)] = 2000e-9          # outside a table: no index
    b = Batch(rng, f, n, speed=1/n1, wl=wl, dirn=dirn, slope=1.2 if steep else .25)
    coated = rng.uniform() < .5 if coated is None else coated
    R, T = rng.uniform(.1, .9, 2)
    coating = batoid.SimpleCoating(R, T) if coated or op == 'rSplit' else None
    sa, sb, sc = rng.uniform(-.2, .2, 3)
    screen = batoid.Sum([batoid.Zernike([0, 0, sa/2, sb/2], 1.), batoid.Paraboloid(20/(sc+.3))])
    szero = rng.uniform() < .2
    if szero:
        screen = batoid.Plane()
    edge = rng.uniform() < .3
    if edge and op == 'refractScreen':
        q = np.linspace(-.5, .5, 5)
        screen = batoid.Bicubic(q, q, np.zeros((5, 5)), nanpolicy='nan')
        szero = False
    bsc = (lambda x, y: (np.abs(x) < .5-1e-9) & (np.abs(y) < .5-1e-9)) if edge else (lambda x, y: np.ones(len(x), bool))
    rv = b.rv()
    what = dict(op=op, surface=f.name, coated=coated)
    out = rec.attempt('%s must not raise' % op, lambda: apply(op, b, rv, m1, m2, coating, screen), **what)
    if out is None:
        return
    live, miss, dead = (b.kind == k for k in ('live', 'miss', 'dead'))
    D = lambda r, k: np.array(getattr(r, k))
    names = ['transmitted', 'reflected'] if op == 'rSplit' else ['']
    if op == 'rSplit':
        M.ck('P09', len(out) == 2, 'two batches', **what)
        M.ck('P09', out[0] is not out[1] and not np.shares_memory(D(out[0], 'x'), D(out[1], 'x')), 'two separate batches', **what)
    for br, r in zip(names, out):
        w = dict(what, branch=br)
        po = {'intersect': ('P03',), 'reflect': ('P03', 'P06'), 'refract': ('P03', 'P07'), 'rSplit': ('P03', 'P09'),
              'refractScreen': ('P03', 'P10')}[op]
        M.ck('P08', len(r) == n, 'batch keeps its length', **w)
        for p_ in po+('P08',):
            M.ck(p_, r.coordSys == b.dst, 'result is in the surface coordinate system', **w)
        P, V = vec(r)
        fl, vg = D(r, 'failed'), D(r, 'vignetted')
        # ---- failed rays are frozen
        for k in F11:
            M.cl('P08', D(r, k)[dead], b.d[k][dead], 'a failed ray keeps its ' + k, atol=0, rtol=0, **w)
        for p_ in ('P08',)+(('P09',) if op == 'rSplit' else ()):
            M.ck(p_, np.all(fl[dead]), 'failed marks are never cleared', **w)
        M.ck('P08', np.all(vg | ~b.d['vignetted']), 'vignetted marks are never cleared', **w)
        if op == 'rSplit':
            for k in F11:
                M.cl('P09', D(r, k)[dead], b.d[k][dead], 'rays that arrive failed carry no unset data: ' + k, atol=0, rtol=0, **w)
        # ---- missing rays
        for p_ in ('P08',)+po:
            M.ck(p_, np.all(fl[miss] & vg[miss]), 'a ray that misses is failed and vignetted', **w)
        M.cl('P11', D(r, 'flux')[miss], b.d['flux'][miss], 'a ray that misses keeps its flux', atol=0, rtol=0, **w)
        # ---- live rays
        t = D(r, 't')
        dt = t-b.d['t']
        w1 = b.d['wavelength']
        ok = live.copy()
        X = f.sag(P[:, 0], P[:, 1])
        iters = f.kind == 'iter'
        if op == 'refractScreen':
            h = screen.sag(P[:, 0], P[:, 1])
            dt = dt-h
            on = bsc(P[:, 0], P[:, 1])
        # expected failure among live rays
        alive = live & ~fl
        P_exp = b.p+b.v*dt[:, None]
        sel = alive
        if op == 'refractScreen':
            sel = alive & on
        for p_ in po:
            M.cl(p_, P[sel], P_exp[sel], '%s: the new position lies on the old line, at the new time' % op, atol=1e-9,
                 rtol=1e-9, **w)
            M.cl(p_, P[sel, 2], X[sel], '%s: the new position satisfies the surface equation' % op,
                 atol=3e-10 if iters else 1e-9, rtol=1e-10, **w)
        M.ck('P08', np.array_equal(fl[live] & ~vg[live], np.zeros(live.sum(), bool)), 'newly failed rays are vignetted too', **w)
        M.cl('P08', D(r, 'wavelength'), b.d['wavelength'], 'wavelengths never change', atol=0, rtol=0, **w)
        for p_ in po:
            M.cl(p_, D(r, 'wavelength'), b.d['wavelength'], 'wavelengths never change', atol=0, rtol=0, **w)
        nn = f.normal(P[:, 0], P[:, 1]) if f.kind == 'analytic' or f.kind == 'tilted' else f.surf.normal(P[:, 0], P[:, 1])
        if f.kind == 'tilted':
            nn = f.surf.normal(P[:, 0], P[:, 1])     # the class's own normal (recorded finding of P04)
        tol = 1e-8
        vi = b.v
        vn = (vi*nn).sum(-1)
        tan = vi-vn[:, None]*nn
        refl = vi-2*vn[:, None]*nn
        if op == 'intersect':
            M.ck('P03', np.all(~fl[live]), 'a ray aimed at the surface is not reported failed', **w)
            for p_ in ('P03', 'P08'):
                M.cl(p_, V[alive], vi[alive], 'intersecting leaves velocities unchanged (re-expressed)', atol=1e-12, **w)
        if f.kind != 'tilted':
            if op == 'reflect':
                M.ck('P06', np.all(~fl[live]), 'a ray aimed at the surface is reflected', **w)
                M.cl('P06', V[alive], refl[alive], 'the normal component of the velocity is reversed', atol=tol, rtol=tol, **w)
                M.cl('P06', (V[alive]**2).sum(-1), (vi[alive]**2).sum(-1), 'reflection preserves speed', atol=1e-12, rtol=1e-12, **w)
            if op == 'rSplit' and br == 'reflected':
                M.ck('P09', np.all(~fl[live & np.isfinite(idx2(w1))]), 'a ray aimed at the surface is reflected', **w)
                M.cl('P09', V[alive], refl[alive], 'reflected velocity', atol=tol, rtol=tol, **w)
            if op == 'refract' or (op == 'rSplit' and br == 'transmitted'):
                p_ = 'P07' if op == 'refract' else 'P09'
                N2 = idx2(w1)
                sin1 = np.sqrt(np.maximum(0, 1-(unit(vi)*nn).sum(-1)**2))
                tir = n1*sin1 > N2*(1+1e-7)
                fine = n1*sin1 < N2*(1-1e-7)
                noidx = ~np.isfinite(N2)
                M.ck(p_, np.all(fl[live & tir] & vg[live & tir]), 'total internal reflection: failed and vignetted', **w)
                M.ck('P08', np.all(fl[live & (tir | noidx)] & vg[live & (tir | noidx)]),
                     'a refraction that cannot be completed fails the ray', **w)
                M.ck(p_, np.all(fl[live & noidx] & vg[live & noidx]), 'no index: failed and vignetted', **w)
                bad = live & (tir | noidx)
                M.ck(p_, not np.any(np.all(np.isfinite(V[bad]), axis=1) & ~fl[bad]), 'no wrong direction', **w)
                g = live & fine & ~noidx
                M.ck(p_, np.all(~fl[g]), 'a refractable ray is not failed', **w)
                g = g & ~fl
                M.cl(p_, np.sqrt((V[g]**2).sum(-1)), 1/N2[g], 'speed is one over the new index', atol=1e-11, rtol=1e-11, **w)
                t1 = n1*(unit(vi)-(unit(vi)*nn).sum(-1)[:, None]*nn)
                u2 = unit(V)
                t2 = N2[:, None]*(u2-(u2*nn).sum(-1)[:, None]*nn)
                M.cl(p_, t2[g], t1[g], 'index times tangential direction is conserved', atol=tol, rtol=tol, **w)
                M.ck(p_, np.all(((u2*nn).sum(-1)*vn)[g] >= -1e-6), 'the ray goes on to the far side', **w)
            if op == 'refractScreen':
                sp = np.sqrt((vi**2).sum(-1))
                if edge:
                    gx = gy = np.zeros(n)
                elif szero:
                    gx = gy = np.zeros(n)
                else:
                    Rr = 20/(sc+.3)
                    gx, gy = sa+P[:, 0]/Rr, sb+P[:, 1]/Rr
                g3 = np.column_stack([gx, gy, 0*gx])
                tang = unit(vi)-(unit(vi)*nn).sum(-1)[:, None]*nn+g3-(g3*nn).sum(-1)[:, None]*nn
                c2 = (tang**2).sum(-1)
                cn = np.sqrt(np.maximum(0, 1-c2))*np.where(vn < 0, -1, 1)
                want = sp[:, None]*(tang+cn[:, None]*nn)
                g = live & on & (c2 < 1-1e-6)
                M.ck('P10', np.all(~fl[g]), 'a ray with a real direction is not failed', **w)
                g = g & ~fl
                M.cl('P10', V[g], want[g], 'the screen gradient is added to the direction cosines', atol=1e-6, rtol=1e-6, **w)
                M.cl('P10', (V[g]**2).sum(-1), (sp**2)[g], 'speed is kept', atol=1e-11, rtol=1e-11, **w)
                q = live & (c2 > 1+1e-6) & on
                M.ck('P10', np.all(fl[q] & vg[q]), 'no real direction left: failed and vignetted', **w)
                if edge:
                    with np.errstate(all='ignore'):
                        # where the plain crossing falls outside the screen
                        pl = b.f.surf.intersect(b.rv(), coordSys=b.dst)
                        off = live & ~pl.failed & ((np.abs(pl.x) > .5+1e-9) | (np.abs(pl.y) > .5+1e-9))
                    M.ck('P10', np.all(fl[off] & vg[off]), 'off the screen: failed and vignetted', **w)
                    M.ck('P08', np.all(fl[off] & vg[off]), 'off the screen: failed and vignetted', **w)
                if szero:
                    pl = b.f.surf.intersect(b.rv(), coordSys=b.dst)
                    g = live & ~pl.failed
                    for k in F11:
                        M.cl('P10', D(r, k)[g].astype(float), D(pl, k)[g].astype(float), 'a flat zero screen is a plain crossing: '+k,
                             atol=1e-10, rtol=1e-10, **w)
        # ---- flux
        F0, F1 = b.d['flux'], D(r, 'flux')
        if op == 'intersect' or (op == 'refract'):
            fac = T if coating else 1.
        elif op == 'reflect':
            fac = R if coating else 1.
        elif op == 'rSplit':
            fac = T if br == 'transmitted' else R
        else:
            fac = 1.
        for p_ in ('P11',)+({'rSplit': ('P09',), 'reflect': ('P06',), 'refract': ('P07',), 'refractScreen': ('P10',)}.get(op, ())
                            if op == 'rSplit' or coating is None else ()):
            M.cl(p_, F1[alive], (F0*fac)[alive], '%s: flux %s' % (op, 'times the coefficient of the branch once' if coating else 'unchanged'),
                 atol=1e-14, rtol=1e-13, **w)
    if op == 'rSplit':
        a, c = out
        for k in F11[:3]+['t', 'wavelength']:
            g = live & ~a.failed & ~c.failed
            M.cl('P09', D(a, k)[g], D(c, k)[g], 'both branches leave from the same point at the same time: '+k, atol=1e-11, **what)
        r1 = b.f.surf.refract(b.rv(), m1, m2, coordSys=b.dst)
        r2 = b.f.surf.reflect(b.rv(), coordSys=b.dst)
        for k in F11[:8]+['failed']:
            g = live & ~r1.failed
            M.cl('P09', D(a, k)[g].astype(float), D(r1, k)[g].astype(float), 'transmitted rays are the refracted ones: '+k, atol=1e-9, **what)
            g = live & ~c.failed
            M.cl('P09', D(c, k)[g].astype(float), D(r2, k)[g].astype(float), 'reflected rays are the reflected ones: '+k, atol=1e-9, **what)
        g = live & np.isfinite(idx2(b.d['wavelength']))
        M.ck('P09', np.array_equal(D(a, 'failed')[g], D(r1, 'failed')[g]), 'transmission fails exactly where refraction does', **what)
        M.ck('P09', not np.any(D(c, 'failed')[g]), 'reflection does not fail where the transmitted ray does', **what)
    # ---- independence: alone, permuted, other thread counts
    if 'P08' in M.props:
        alone_(M, rng, op, b, m1, m2, coating, screen, out, what)


def alone_(M, rng, op, b, m1, m2, coating, screen, out, what):
    full = [ref.data(r) for r in out]
    for i in rng.choice(b.n, 4, replace=False):
        o = apply(op, b, b.rv([i]), m1, m2, coating, screen)
        for r, fu in zip(o, full):
            M.cl('P08', ref.data(r)[0], fu[i], 'a ray alone fares as in its batch', atol=1e-12, rtol=1e-11, **what)
    perm = rng.permutation(b.n)
    o = apply(op, b, b.rv(perm), m1, m2, coating, screen)
    for r, fu in zip(o, full):
        M.cl('P08', ref.data(r), fu[perm], 'the order of a batch does not matter', atol=1e-12, rtol=1e-11, **what)
    big = np.concatenate([perm]*7)
    for th in (1, 2, 5, 8):
        batoid.set_max_threads(th) if hasattr(batoid, 'set_max_threads') else setattr(batoid.global_vars, '_batoid_max_threads', th)
        o = apply(op, b, b.rv(big), m1, m2, coating, screen)
        for r, fu in zip(o, full):
            M.cl('P08', ref.data(r), fu[big], 'the number of threads does not matter', atol=1e-12, rtol=1e-11, threads=th, **what)
    setattr(batoid.global_vars, '_batoid_max_threads', 8)
    # empty batch
    o = M.rec.attempt('%s of an empty batch' % op, lambda: apply(op, b, b.rv(np.zeros(0, int)), m1, m2, coating, screen), **what)
    if o is not None:
        M.ck('P08', all(len(r) == 0 for r in o), 'an empty batch stays empty', **what)


def extremes(M, rng, op):
    """Plane seen at every angle down to 1e-7 of grazing, at all scales: everything has a closed form."""
    rec = M.rec
    n = 64
    n1, n2 = rng.choice([1., 1., 1.3, 1.7, 4.], 2)*rng.choice([1., 1., 1+1e-9, 1+1e-5], 2)
    if rng.uniform() < .2:
        n2 = n1
    c = 10**rng.uniform(-7, 0, n)*rng.choice([-1, 1], n)
    c[:4] = [1., -1., 1e-3, -1e-5]
    if n1 > n2:                                  # some around the critical angle
        c[4:24] *= 0
        c[4:24] += np.sqrt(np.clip(1-(n2/n1*(1-rng.choice([1, -1], 20)*10**rng.uniform(-5, -1, 20)))**2, 1e-12, 1))
    a = rng.uniform(0, 2*np.pi, n)
    a[:8] = np.arange(8)*np.pi/2
    sn = np.sqrt(1-c*c)
    u = np.column_stack([sn*np.cos(a), sn*np.sin(a), c])
    v = u/n1
    dt = 10**rng.uniform(-6, 3, n)*rng.choice([-1, 1], n)
    hit = 10**rng.uniform(-6, 2, (n, 1))*rng.normal(size=(n, 3))
    hit[:, 2] = 0
    if rng.uniform() < .3:
        hit *= 0
    p = hit-v*dt[:, None]
    t0 = rng.normal(size=n)*10**rng.uniform(-3, 3)
    fl0 = 10**rng.uniform(-9, 3, n)
    rv = RayVector(*p.T, *v.T, t0, 5e-7, fl0)
    cs = batoid.CoordSys() if rng.uniform() < .5 else None
    m1, m2 = batoid.ConstMedium(n1), batoid.ConstMedium(n2)
    f = batoid.Plane()
    if op == 'intersect':
        out = [f.intersect(rv, coordSys=cs)]
    elif op == 'reflect':
        out = [f.reflect(rv, coordSys=cs)]
    elif op == 'refract':
        out = [f.refract(rv, m1, m2, coordSys=cs)]
    elif op == 'rSplit':
        R, T = rng.uniform(.1, .9, 2)
        out = list(f.rSplit(rv, m1, m2, batoid.SimpleCoating(R, T), coordSys=cs))
    else:
        out = [f.refractScreen(rv, batoid.Plane(), coordSys=cs)]
    p_ = {'intersect': 'P03', 'reflect': 'P06', 'refract': 'P07', 'rSplit': 'P09', 'refractScreen': 'P10'}[op]
    cos2 = (n2*n2-n1*n1*sn*sn)                   # (n2 cos2)^2
    for k, r in enumerate(out):
        w = dict(op=op, surface='Plane, all angles and scales', branch=k, n1=n1, n2=n2)
        P, V = vec(r)
        scale = np.abs(hit).max(1)+np.abs(v*dt[:, None]).max(1)
        M.cl(p_, (P-hit)/scale[:, None], 0., 'the new position lies on the old line, on the surface', atol=1e-12, **w)
        M.cl(p_, np.array(r.t), t0+dt, 'at the new time', rtol=1e-12, atol=1e-12*np.abs(dt)+1e-12, **w)
        fl = np.array(r.failed)
        tr = op == 'refract' or (op == 'rSplit' and k == 0)
        if not tr:
            M.ck(p_, not fl.any(), 'no ray fails', **w)
            want = u*([1, 1, -1] if op in ('reflect', 'rSplit') else [1, 1, 1])/n1
            tol = 1e-13 if op != 'refractScreen' else 1e-8
            M.cl(p_, V, want, 'outgoing velocity', atol=tol, rtol=0, **w)
            if op != 'refractScreen':
                M.cl(p_, V[:, 2], want[:, 2], 'outgoing normal velocity', atol=1e-15, rtol=1e-8, **w)
        else:
            M.ck(p_, np.all(fl[cos2 < -1e-12]), 'total internal reflection fails the ray', **w)
            g = cos2 > 1e-12
            M.ck(p_, not np.any(fl[g]), 'a refractable ray is not failed', **w)
            M.cl(p_, V[g, :2]*n2*n2, n1*u[g, :2], 'index times tangential direction is conserved', atol=1e-12, rtol=1e-10, **w)
            M.cl(p_, (V[g, 2]*n2*n2)**2, cos2[g], 'index times normal direction', atol=1e-12, rtol=1e-9, **w)
            M.ck(p_, np.all(V[g, 2]*c[g] >= 0), 'the ray goes on to the far side', **w)
        if op == 'rSplit':
            M.cl(p_, np.array(r.flux), fl0*(T if k == 0 else R), 'flux', atol=0, rtol=1e-12, **w)
        else:
            M.cl(p_, np.array(r.flux), fl0, 'flux', atol=0, rtol=0, **w)


def sweep(rec, rng, tier, ops, props, reps=8):
    M = Mon(rec, props)
    for op in ops:
        for _ in range(30*(10 if tier == 'thorough' else 1)):
            extremes(M, rng, op)
    rec.rule = 'operation x surface kind x random placement, media, coating, batch of live/missing/failed/vignetted rays'
    rec.bound = 'sampled surfaces, placements and rays'
    for _ in range(reps*(6 if tier == 'thorough' else 1)):
        for f in ref.surfaces(rng):
            for op in ops:
                one(M, rng, op, f, dirn=rng.choice([-1., 1.]), steep=f.kind == 'analytic' and rng.uniform() < .3)
    return M
