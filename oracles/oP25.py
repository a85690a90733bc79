import numpy as np, batoid, ref, systems
from batoid import analysis as an

PROJ = ['postel', 'gnomonic', 'zemax', 'stereographic', 'lambert', 'orthographic']


def chief(nx):
    """position of the sample through the centre of the stop"""
    return (nx//2)*nx+nx//2


def local(r):
    return np.column_stack([r.x, r.y, r.z]), np.column_stack([r.vx, r.vy, r.vz])


def grid(t, th, wl, proj, nx):
    return batoid.RayVector.asGrid(optic=t, theta_x=th[0], theta_y=th[1], wavelength=wl, projection=proj, nx=nx)


def huygens(p, v, tt, wl, flux, use, point, T):
    k = 2*np.pi/wl*v/(v*v).sum(1)[:, None]
    ph = (k*(point-p)).sum(1)-2*np.pi/wl*(T-tt)
    return np.sum((flux*np.exp(1j*ph))[use])


def refpoint(p, vig, ref_, nx):
    return p[~vig].mean(0) if ref_ == 'mean' else p[chief(nx)] if ref_ == 'chief' else np.zeros(3)


def waves(p, v, tt, vig, wl, R, ref_, nx):
    """arrival time at the sphere of radius R about the reference point, earlier than the reference being positive, in waves"""
    c = refpoint(p, vig, ref_, nx)
    q = p-c
    A, B, C = (v*v).sum(1), 2*(q*v).sum(1), (q*q).sum(1)-R*R
    s = np.sqrt(B*B-4*A*C)
    # the crossing on the side of +z
    d1, d2 = (-B-s)/(2*A), (-B+s)/(2*A)
    z1 = q[:, 2]+d1*v[:, 2]
    d = np.where((z1 > 0) == (R > 0), d1, d2)
    T = tt+d
    t0 = T[~vig].mean() if ref_ == 'mean' else T[chief(nx)]
    return (t0-T)/wl


def run(rec, rng, tier):
    rec.rule = 'system (shipped and rotated, tilted, vignetted single mirrors) x field x wavelength x projection x reference x sampling'
    rec.bound = 'sampled systems and fields'
    big = tier == 'thorough'
    for it in range(60 if big else 20):
        t, nm = systems.system(rng)
        th = systems.field(rng, nm)
        wl = float(rng.uniform(450e-9, 700e-9))
        nx = int(rng.choice([8, 9, 14, 15]))
        proj = str(rng.choice(PROJ))
        what = dict(system=nm, field=th, wavelength=wl, nx=nx, projection=proj)
        traced = t.trace(grid(t, th, wl, proj, nx))
        p, v = local(traced)
        vig = np.array(traced.vignetted)
        use = ~vig & ~np.array(traced.failed)
        if use.sum() < 5 or np.any(np.isnan(p)) or traced.failed[chief(nx)]:
            continue
        for ref_ in ('chief', 'mean', 'none'):
            got = rec.attempt('spot', lambda: batoid.spot(t, *th, wl, projection=proj, nx=nx, reference=ref_), reference=ref_, **what)
            if got is not None:
                c = refpoint(p, vig, ref_, nx)
                rec.check(np.shape(got) == (2, (~vig).sum()), 'spot: exactly the unvignetted rays', reference=ref_, **what)
                rec.close(got[0], p[~vig, 0]-c[0], 'spot: x relative to the reference', atol=1e-14, rtol=0, reference=ref_, **what)
                rec.close(got[1], p[~vig, 1]-c[1], 'spot: y relative to the reference', atol=1e-14, rtol=0, reference=ref_, **what)
        rec.close(batoid.spot(t, *th, wl, projection=proj, nx=nx), batoid.spot(t, *th, wl, projection=proj, nx=nx, reference='chief'), 'spot: chief by default', atol=0, rtol=0, **what)
        for R in (None, float(t.sphereRadius*rng.uniform(.5, 1.5))):
            for ref_ in ('chief', 'mean'):
                kw = dict(projection=proj, nx=nx, reference=ref_)
                w = rec.attempt('wavefront', lambda: batoid.wavefront(t, *th, wl, sphereRadius=R, **kw), reference=ref_, **what)
                if w is None:
                    continue
                want = waves(p, v, np.array(traced.t), vig, wl, R or t.sphereRadius, ref_, nx)
                rec.check(w.array.shape == (nx, nx), 'wavefront: one value per pupil sample', **what)
                rec.check(np.array_equal(np.ma.getmaskarray(w.array).ravel(), vig), 'wavefront: vignetted samples are masked', **what)
                g = np.array(w.array.data).ravel()
                rec.close(g[use], want[use], 'wavefront: lag behind the reference sphere in wavelengths', atol=3e-7, rtol=1e-9, radius=R, reference=ref_, **what)
        # images
        N = 3
        dx = float(rng.uniform(1e-6, 4e-6))
        a, b = rng.normal(size=2)*3e-6, rng.normal(size=2)*3e-6
        for ref_ in ('chief', 'mean'):
            kw, X = [(dict(dx=dx), np.eye(2)*dx), (dict(dx=dx, dy=2*dx), np.diag([dx, 2*dx])), (dict(dx=a, dy=b), np.array([a, b]))][rng.integers(3)]
            h = rec.attempt('huygensPSF', lambda: batoid.huygensPSF(t, *th, wl, projection=proj, nx=nx, nxOut=N, reference=ref_, **kw), reference=ref_, **what)
            if h is None:
                continue
            c = refpoint(p, vig, ref_, nx)
            tt, fl = np.array(traced.t), np.array(traced.flux)
            want = np.zeros((N, N))
            for i in range(N):
                for j in range(N):
                    o = (j-N//2)*X[0]+(i-N//2)*X[1]
                    want[i, j] = abs(huygens(p, v, tt, wl, fl, use, np.array([c[0]+o[0], c[1]+o[1], 0.]), tt[0]))**2
            rec.check(np.all(h.array >= 0) and h.array.shape == (N, N), 'huygensPSF: nonnegative, as many samples as asked', **what)
            rec.close(h.array, want, 'huygensPSF: squared sum of the exit waves at its lattice points', atol=1e-4*want.max(), rtol=1e-4, reference=ref_, **what)
            pad = int(rng.choice([1, 2, 3]))
            f = rec.attempt('fftPSF', lambda: batoid.fftPSF(t, *th, wl, projection=proj, nx=nx, pad_factor=pad, reference=ref_), **what)
            if f is None:
                continue
            P = pad*nx
            W = waves(p, v, tt, vig, wl, t.sphereRadius, ref_, nx)
            j, i = np.meshgrid(np.arange(nx)-nx//2, np.arange(nx)-nx//2)
            i, j = i.ravel(), j.ravel()
            rec.check(np.all(f.array >= 0) and f.array.shape == (P, P), 'fftPSF: nonnegative on the stated number of samples', **what)
            for _ in range(6):
                m, n = rng.integers(0, P, 2)
                e = np.exp(2j*np.pi*(W-((m-P//2)*i+(n-P//2)*j)/P))
                wv = abs(e[~vig].sum())**2
                if not np.isnan(wv):
                    rec.close(f.array[m, n], wv, 'fftPSF: squared Fourier sum of the exit wave', atol=1e-4*(~vig).sum()**2, rtol=1e-4, pad=pad, **what)
        # derivatives
        nrad, naz = int(rng.integers(3, 7)), int(rng.integers(12, 40))
        kw = dict(nrad=nrad, naz=naz, projection=proj)
        h = 1e-5

        def mean(tx, ty, w=None):
            r = batoid.RayVector.asPolar(optic=t, theta_x=tx, theta_y=ty, wavelength=wl, **kw)
            t.trace(r)
            w = ~np.array(r.vignetted) if w is None else w
            return np.array([r.x[w].mean(), r.y[w].mean()]), w
        _, w0 = mean(*th)
        J = np.column_stack([(mean(th[0]+h, th[1], w0)[0]-mean(th[0]-h, th[1], w0)[0])/(2*h), (mean(th[0], th[1]+h, w0)[0]-mean(th[0], th[1]-h, w0)[0])/(2*h)])
        d = rec.attempt('drdth', lambda: batoid.drdth(t, *th, wl, **kw), **what)
        sc = np.abs(J).max()
        if d is not None and not np.any(np.isnan(J)):
            rec.close(d, J, 'drdth: row for image coordinate, column for field coordinate', atol=2e-4*sc, rtol=0, **what)
            q = rec.attempt('dthdr', lambda: batoid.dthdr(t, *th, wl, **kw), **what)
            rec.close(q@J, np.eye(2), 'dthdr: inverse of the image derivative', atol=1e-3, rtol=0, **what)
            det = np.linalg.det(J)
            if det > 0:
                rec.close(an.focalLength(t, *th, wl, **kw), np.sqrt(det), 'focalLength: square root of the determinant', atol=0, rtol=1e-3, **what)
            rec.close(batoid.drdth(t, *th, wl), J, 'drdth: default sampling', atol=3e-2*sc, rtol=0, **what) if proj == 'postel' else None
        r = batoid.RayVector.asPolar(optic=t, theta_x=th[0], theta_y=th[1], wavelength=wl, **kw)
        u = np.column_stack([np.ones(len(r)), r.x, r.y])
        t.trace(r)
        w = ~np.array(r.vignetted)
        _, vv = local(r)
        k = 2*np.pi/wl*vv/(vv*vv).sum(1)[:, None]
        if w.sum() > 5 and not np.any(np.isnan(k[w])):
            want = (np.linalg.pinv(u[w])@k[w][:, :2])[1:]
            rec.close(rec.attempt('dkdu', lambda: an.dkdu(t, *th, wl, **kw), **what), want, 'dkdu: change of exit wave vector per entrance coordinate',
                      atol=1e-6*np.abs(want).max(), rtol=0, **what)
        # pieces
        P, Q, a, b = rng.normal(size=(4, 3))
        s = np.linalg.solve(np.array([[a@a, -(a@b)], [a@b, -(b@b)]]), np.array([(Q-P)@a, (Q-P)@b]))
        rec.close(an._closestApproach(P, a, Q, b), P+s[0]*a, 'closest approach of two lines', atol=1e-8*(1+abs(s[0])), rtol=1e-8)
        rec.raises('parallel lines', ValueError, lambda: an._closestApproach(P, np.array([0, 0, 1.]), Q, np.array([0, 0, 2.])))
        m = int(rng.integers(3, 40))
        x, y = rng.normal(size=(2, m))
        M = rng.normal(size=(3, 2))
        from batoid.utils import bilinear_fit
        z = np.column_stack([np.ones(m), x, y])@M
        rec.close(bilinear_fit(x, y, z[:, 0], z[:, 1]), M, 'plane fit recovers a plane', atol=1e-7, rtol=1e-7)
        # Zernike coefficients reproduce the wavefront
        if it % 4 == 0:
            jm = int(rng.choice([4, 11]))
            c = rec.attempt('zernike', lambda: batoid.zernike(t, *th, wl, projection=proj, nx=15, jmax=jm, eps=.1), **what)
            if c is not None:
                import galsim
                w = batoid.wavefront(t, *th, wl, projection=proj, nx=15)
                tr = t.trace(grid(t, th, wl, proj, 15))
                o = grid(t, th, wl, proj, 15).toCoordSys(t.stopSurface.coordSys)
                t.stopSurface.surface.intersect(o)
                ok = ~np.array(tr.vignetted)
                A = galsim.zernike.zernikeBasis(jm, np.array(o.x)[ok], np.array(o.y)[ok], R_outer=t.pupilSize/2, R_inner=t.pupilSize/2*.1)[1:].T
                cc = np.linalg.lstsq(A, np.array(w.array.data).ravel()[ok], rcond=None)[0]
                rec.close(c[1:], cc, 'zernike: least-squares coefficients of the wavefront', atol=1e-5*(1+np.abs(cc).max()), rtol=1e-5, **what)
                rec.check(c[0] == 0, 'zernike: nothing at index zero', **what)
    # coefficients by quadrature, from slopes, of the image coordinates
    import galsim.zernike as gz
    for it in range(12 if big else 4):
        t, nm = systems.system(rng)
        if it % 2:
            t = systems.load(('HSC.yaml', 'LSST_r.yaml')[it//2 % 2])
            nm = 'HSC LSST'.split()[it//2 % 2]+' moved'
            t = t.withGlobalRotation(batoid.RotX(.3)@batoid.RotZ(.2), [1., 0, 2.]).withGlobalShift([1., 2., 3.])
        th = (8e-4, -5e-4) if it % 2 else systems.field(rng, nm)
        wl = float(rng.uniform(450e-9, 700e-9))
        proj = str(rng.choice(PROJ))
        jm, eps = int(rng.choice([6, 11])), float(rng.choice([0., .4, .61]))
        what = dict(system=nm, field=th, wavelength=wl, projection=proj, jmax=jm, eps=eps)
        Ro = t.pupilSize/2
        Rs = t.sphereRadius

        def arrive(r, c):
            q, v = np.array(r.r)-c, np.array(r.v)
            A, B, C = (v*v).sum(1), 2*(q*v).sum(1), (q*q).sum(1)-Rs*Rs
            s = np.sqrt(B*B-4*A*C)
            d1, d2 = (-B-s)/(2*A), (-B+s)/(2*A)
            return np.array(r.t)+np.where((q[:, 2]+d1*v[:, 2] > 0) == (Rs > 0), d1, d2)

        def stop(x, y):
            return t.trace(batoid.RayVector.fromStop(x, y, optic=t, wavelength=wl, theta_x=th[0], theta_y=th[1], projection=proj))
        ch = stop(0., 0.)
        for ref_ in ('chief', 'mean'):
            nr, ns = int(rng.integers(4, 7)), int(rng.integers(9, 15))
            L, w = np.polynomial.legendre.leggauss(nr)
            rr, aa = np.meshgrid(Ro*np.sqrt(eps**2+(1+L)*(1-eps**2)/2), np.arange(ns)*2*np.pi/ns)
            ww = np.broadcast_to(w, rr.shape).ravel()/(2*ns)
            x, y = (rr*np.cos(aa)).ravel(), (rr*np.sin(aa)).ravel()
            g = stop(x, y)
            if np.any(g.failed) or (ref_ == 'chief' and ch.failed[0]) or not np.any(~g.vignetted):
                continue
            c = ch.r[0] if ref_ == 'chief' else np.array(g.r)[~g.vignetted].mean(0)
            T = arrive(g, c)
            t0 = arrive(ch, c)[0] if ref_ == 'chief' else T[~g.vignetted].mean()
            W = (t0-T)/wl
            want = gz.zernikeBasis(jm, x, y, R_outer=Ro, R_inner=Ro*eps)@(W*ww)
            got = rec.attempt('zernikeGQ', lambda: batoid.zernikeGQ(t, *th, wl, projection=proj, rings=nr, spokes=ns, reference=ref_, jmax=jm, eps=eps), reference=ref_, **what)
            if got is not None:
                rec.close(got, want, 'zernikeGQ: quadrature of the wavefront over the stop', atol=1e-6*(1+np.abs(W).max()), rtol=0, reference=ref_, **what)
            pr = batoid.RayVector.asPolar(optic=t, wavelength=wl, theta_x=th[0], theta_y=th[1], projection=proj, nrad=7, naz=24)
            ep = pr.copy().toCoordSys(t.stopSurface.coordSys)
            t.stopSurface.surface.intersect(ep)
            u, v = np.array(ep.x), np.array(ep.y)
            t.trace(pr)
            ok = ~np.array(pr.vignetted)
            if ok.sum() < 3*jm:
                continue
            c = ch.r[0] if ref_ == 'chief' else np.array(pr.r)[ok].mean(0)
            bx, by = np.array(pr.x)[ok]-c[0], np.array(pr.y)[ok]-c[1]
            A = gz.zernikeBasis(jm, u[ok], v[ok], R_outer=Ro, R_inner=Ro*eps).T
            wx, wy = [np.linalg.lstsq(A, q, rcond=None)[0] for q in (bx, by)]
            got = rec.attempt('zernikeXYAberrations', lambda: batoid.zernikeXYAberrations(t, *th, wl, projection=proj, nrad=7, naz=24, reference=ref_, jmax=jm, eps=eps), reference=ref_, **what)
            if got is not None:
                sc = max(np.abs(bx).max(), np.abs(by).max())
                rec.close(np.array(got)[:, 1:], np.array([wx[1:], wy[1:]]), 'zernikeXYAberrations: least squares coefficients of the image coordinates', atol=1e-6*sc, rtol=0, reference=ref_, **what)
            Z = [gz.Zernike([0]*j+[1], R_outer=Ro, R_inner=Ro*eps) for j in range(2, jm+1)]
            D = np.array([np.hstack([z.gradX(u[ok], v[ok]), z.gradY(u[ok], v[ok])]) for z in Z]).T
            s = np.linalg.lstsq(D, np.hstack([bx, by]), rcond=None)[0]
            f = float(rng.uniform(5, 20))
            got = rec.attempt('zernikeTA', lambda: batoid.zernikeTA(t, *th, wl, projection=proj, nrad=7, naz=24, reference=ref_, jmax=jm, eps=eps, focal_length=f), reference=ref_, **what)
            if got is not None:
                rec.close(got[2:], -s/f/wl, 'zernikeTA: coefficients whose slopes are the transverse aberrations', atol=1e-6*np.abs(s/f/wl).max(), rtol=0, reference=ref_, **what)
    # exit pupil
    for it in range(8 if big else 3):
        f, z = rng.uniform(5, 12), rng.uniform(.2, 3)
        m = batoid.Mirror(batoid.Paraboloid(2*f), name='M')
        for cs in (np.eye(3), batoid.RotZ(.7)@batoid.RotX(.2)):
            d = batoid.Detector(batoid.Plane(), name='D', coordSys=batoid.CoordSys([0, 0, f], cs))
            t = batoid.CompoundOptic([m, d], name='T', backDist=f+8, pupilSize=2., sphereRadius=f,
                                     stopSurface=batoid.Interface(batoid.Plane(), name='s', coordSys=batoid.CoordSys([0, 0, z], np.eye(3))))
            e0 = rec.attempt('exitPupilPos', lambda: batoid.exitPupilPos(t, 5e-7), f=f, stop=z)
            e = rec.attempt('exitPupilPos', lambda: batoid.exitPupilPos(t, 5e-7, 2e-4), f=f, stop=z)
            # mirror equation: the stop at distance z in front of the mirror is imaged to 1/z + 1/z' = 1/f
            rec.close(e, [0, 0, 1/(1/f-1/z)], 'exitPupilPos: image of the stop', atol=1e-5*(1+abs(1/(1/f-1/z))), rtol=0, f=f, stop=z)
            # the default angle is so small that the cancellation in the closest approach costs digits
            rec.close(e0, [0, 0, 1/(1/f-1/z)], 'exitPupilPos: image of the stop, default angle', atol=2e-3*(1+abs(1/(1/f-1/z))), rtol=0, f=f, stop=z)
    for nm in ('HSC.yaml', 'LSST_r.yaml'):
        t = systems.load(nm)
        a = float(rng.uniform(5e-5, 3e-4))
        e = rec.attempt('exitPupilPos', lambda: batoid.exitPupilPos(t, 6e-7, smallAngle=a), system=nm)
        ps = []
        for tx, ty in ((0, a), (0, -a), (a, 0), (-a, 0)):
            r = batoid.RayVector.fromFieldAngles(np.array([tx]), np.array([ty]), optic=t, wavelength=6e-7)
            t.trace(r)
            r.toCoordSys(batoid.globalCoordSys)
            (q,), (v,) = local(r)
            s = -(q[:2]@v[:2])/(v[:2]@v[:2])
            ps.append(q+s*v)
        rec.close(e, np.mean(ps, axis=0), 'exitPupilPos: mean closest approach of small-angle chief rays', atol=1e-6, rtol=1e-6, system=nm)
