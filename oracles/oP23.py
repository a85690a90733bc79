import itertools
import numpy as np, batoid, ref, systems
from batoid.lattice import primitiveToLattice
from batoid.analysis import _reciprocalLatticeVectors


def prim(rng, d):
    k = rng.integers(5)
    if k == 0:
        return np.diag(rng.uniform(.1, 3, d)*rng.choice([-1, 1], d))
    if k == 1 and d == 2:
        return rng.uniform(.1, 2)*np.array([[1, 0], [.5, np.sqrt(.75)]])
    if k == 2:
        return np.round(rng.normal(size=(d, d))*4)+np.eye(d)*7
    return rng.normal(size=(d, d))*10.**rng.integers(-6, 3)


def run(rec, rng, tier):
    rec.rule = 'dimension x shape (odd, even, one) x skewed primitive vectors; diffraction images of rotated and tilted detectors'
    rec.bound = 'sampled vectors and shapes, d <= 4'
    big = tier == 'thorough'
    for _ in range(1500 if big else 300):
        d = int(rng.integers(1, 5))
        shp = tuple(int(q) for q in rng.integers(1, 8, d))
        P = prim(rng, d)
        a = rng.normal(size=shp)
        what = dict(shape=shp, primitives=P)
        lat = rec.attempt('Lattice', lambda: batoid.Lattice(a, [list(q) for q in P] if rng.uniform() < .3 else P), **what)
        if lat is None:
            continue
        want = np.zeros(shp+(d,))
        for idx in itertools.product(*map(range, shp)):
            for i, n in zip(range(d), idx):
                want[idx] += (n-shp[i]//2)*P[i]
        s = np.abs(P).max()
        c = rec.attempt('coords', lambda: lat.coords, **what)
        rec.check(np.shape(c) == shp+(d,), 'one coordinate vector per cell', **what)
        rec.close(c, want, 'offset from the centre cell times the primitive vectors', atol=1e-13*s*8, rtol=1e-13, **what)
        rec.close(primitiveToLattice(P, shp), want, 'primitiveToLattice', atol=1e-13*s*8, rtol=1e-13, **what)
        rec.check(np.array_equal(lat.array, a) and np.array_equal(np.asarray(lat.primitiveVectors), P), 'array and vectors kept', **what)
        if d > 1:
            rec.raises('too few vectors', ValueError, lambda: batoid.Lattice(a, P[:-1]), **what)
            rec.raises('too short vectors', ValueError, lambda: batoid.Lattice(a, P[:, :-1]), **what)
        # one-dimensional convenience
        if d == 1:
            rec.close(batoid.Lattice(a, P[0]).coords, want, 'one-dimensional vectors', atol=1e-13*s*8, **what)
        P2 = prim(rng, 2)
        if abs(np.linalg.det(P2)) < 1e-3*np.abs(P2).max()**2:
            continue
        N = int(rng.integers(1, 300))
        B = np.array(_reciprocalLatticeVectors(P2[0], P2[1], N))
        rec.close(B@P2.T*N/(2*np.pi), np.eye(2), 'reciprocal vectors are dual', atol=1e-10, primitives=P2, N=N)
        back = np.array(_reciprocalLatticeVectors(B[0], B[1], N))
        rec.close(back, P2, 'the reciprocal of the reciprocal', atol=1e-10*np.abs(P2).max(), primitives=P2)
    for it in range(24 if big else 8):
        t, nm = systems.system(rng)
        th = systems.field(rng, nm)
        wl = float(rng.uniform(450e-9, 700e-9))
        nx = int(rng.choice([10, 11, 16, 13]))
        pad = int(rng.choice([1, 2, 3]))
        proj = str(rng.choice(['postel', 'gnomonic', 'zemax', 'stereographic', 'lambert', 'orthographic']))
        what = dict(system=nm, field=th, wavelength=wl, nx=nx, pad=pad, projection=proj)
        # wave vector of the exit ray per unit entrance coordinate, by an independent fit
        r = batoid.RayVector.asPolar(optic=t, theta_x=th[0], theta_y=th[1], wavelength=wl, projection=proj, nrad=6, naz=36)
        x, y = r.x.copy(), r.y.copy()
        t.trace(r)
        w = ~r.vignetted
        A = np.column_stack([np.ones(w.sum()), x[w], y[w]])
        v = r.v[w]
        k = 2*np.pi/wl*v[:, :2]/(v*v).sum(1)[:, None]
        dk = np.linalg.pinv(A)@k
        lx = t.pupilSize/(nx-2 if nx % 2 == 0 else nx-1)
        K = lx*dk[1:]
        for fn, N, call in (('fftPSF', nx*pad, lambda: batoid.fftPSF(t, *th, wl, projection=proj, nx=nx, pad_factor=pad)),
                            ('huygensPSF', 2*nx, lambda: batoid.huygensPSF(t, *th, wl, projection=proj, nx=nx, nxOut=3))):
            if fn == 'huygensPSF' and it % 2:
                continue
            psf = rec.attempt(fn, call, **what)
            if psf is None:
                continue
            X = psf.primitiveVectors
            rec.check(psf.array.shape == ((N, N) if fn == 'fftPSF' else (6, 6)), fn+' array shape', **what)
            rec.close(X@K.T*N/(2*np.pi), np.eye(2), fn+' sampling is dual to the pupil sampling', atol=1e-6, **what)
            n0, n1 = psf.array.shape
            i, j = int(rng.integers(n0)), int(rng.integers(n1))
            rec.close(psf.coords[i, j], (i-n0//2)*X[0]+(j-n1//2)*X[1], fn+' coordinates', atol=1e-15, rtol=1e-10, **what)
        wf = rec.attempt('wavefront', lambda: batoid.wavefront(t, *th, wl, projection=proj, nx=nx), **what)
        if wf is not None:
            rec.close(wf.primitiveVectors, np.eye(2)*lx, 'wavefront sampling is the pupil sampling', atol=1e-15, rtol=1e-13, **what)
            g = batoid.RayVector.asGrid(optic=t, theta_x=th[0], theta_y=th[1], wavelength=wl, projection=proj, nx=nx)
            st = g.copy().toCoordSys(t.stopSurface.coordSys)
            t.stopSurface.surface.intersect(st)
            rec.close(np.stack([st.x.reshape(nx, nx), st.y.reshape(nx, nx)], -1), np.swapaxes(wf.coords, 0, 1), 'wavefront samples lie at their pupil coordinates',
                      atol=1e-9, **what)
        # the image of the Huygens construction lies where its coordinates say, for given vectors
        a, b = rng.normal(size=2)*3e-6, rng.normal(size=2)*3e-6
        for kw, X in ((dict(dx=2e-6), np.diag([2e-6, 2e-6])), (dict(dx=2e-6, dy=3e-6), np.diag([2e-6, 3e-6])), (dict(dx=a, dy=b), np.array([a, b]))):
            if it % 2 == 0:
                psf = rec.attempt('huygensPSF', lambda: batoid.huygensPSF(t, *th, wl, projection=proj, nx=nx, nxOut=5, **kw), **what)
                if psf is not None:
                    rec.check(np.array_equal(psf.primitiveVectors, X) and psf.array.shape == (5, 5), 'given output lattice', **what)
    # the Fourier and the Huygens image agree on the same lattice
    for it in range(8 if big else 3):
        t, nm = systems.mirror(rng, tilt=it % 2 == 1)
        th = systems.field(rng, nm)*(.2 if it % 2 == 0 else .005)
        what = dict(system=nm, field=th)
        for nx in (15, 16):
            f = rec.attempt('fftPSF', lambda: batoid.fftPSF(t, *th, 5e-7, nx=nx), **what)
            h = rec.attempt('huygensPSF', lambda: batoid.huygensPSF(t, *th, 5e-7, nx=nx), **what)
            if f is None or h is None:
                continue
            rec.close(f.primitiveVectors, h.primitiveVectors, 'same lattice', atol=0, rtol=1e-9, nx=nx, **what)
            A, B = f.array/f.array.sum(), h.array/h.array.sum()
            rec.check(np.abs(A-B).max() < .3*A.max() and np.corrcoef(A.ravel(), B.ravel())[0, 1] > .97, 'the two constructions agree', nx=nx,
                      maxdiff=float(np.abs(A-B).max()/A.max()), corr=float(np.corrcoef(A.ravel(), B.ravel())[0, 1]), **what)
