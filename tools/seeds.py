"""planted bugs: edits against /repo's HEAD plus a demonstration each"""
S = {}


def seed(sid, prop, edits, demo, needs, breaks, count=1):
    S[sid] = dict(property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, count=count)


seed('newton-tol', 'P03', [('src/surface.cpp', '(std::abs(sz-rPz) < 1e-12)', '(std::abs(sz-rPz) < 1e-12*(1+std::abs(dt*dt)))')], '''
rng = np.random.default_rng(3)
worst = 0
for _ in range(60):
    s = batoid.Asphere(rng.uniform(4, 8), 0., [0, rng.normal()*3e-3, rng.normal()*3e-3])
    n = 2000
    x, y = rng.uniform(-3, 3, (2, n))
    vx, vy = rng.uniform(-1., 1., (2, n))
    m = np.sqrt(1+vx**2+vy**2)
    L = 200.
    rv = batoid.RayVector(x-vx/m*L, y-vy/m*L, L/m, vx/m, vy/m, -1/m)
    r = s.intersect(rv)
    ok = ~r.failed
    if ok.any():
        worst = max(worst, np.max(np.abs(s.sag(r.x[ok], r.y[ok])-r.z[ok])))
assert worst < 3e-12, worst
''', 'a steep ray started far from an iteratively solved surface, for which five steps are not enough',
'intersections reported as successful although the point misses the surface by more than the stated 1e-12')

seed('polygon-vertex-height', 'P12', [('src/obscuration.cpp', 'if (y <= std::max(y1,y2)) {', 'if (y < std::max(y1,y2)) {')], '''
p = batoid.ObscPolygon([-1., 1., 1., -1.], [-1., -1., 1., 1.])
q = batoid.ObscPolygon([0., 1., 2., 1.], [0., -1., 0., 1.])
assert q.contains(1.0, 0.0)
r = batoid.ObscPolygon([0., 3., 2., 4., 0.], [-1., -1., 0., 1., 1.])
assert r.contains(1.0, 0.0)
assert not r.contains(5.0, 0.0) and not r.contains(-1., 0.)
''', 'a query point at exactly the height of a vertex between an upward and an upward edge',
'even-odd rule counts both edges at such a vertex as missed, so inside points are reported outside')

seed('screen-frame', 'P10', [('src/batoid.cpp', 'double dPd1 = dPdx*e1x + dPdy*e1y;', 'double dPd1 = dPdx;')], '''
s = batoid.Quadric(3.0, -.4)
scr = batoid.Zernike([0, 0, .05], 1.)
x = np.linspace(.3, 1., 7)
rv = batoid.RayVector(x, 0*x+.2, 0*x-1, 0*x, 0*x, 0*x+1.)
n = s.normal(x, 0*x+.2)
r = s.refractScreen(rv.copy(), scr)
g = np.array([0.1, 0, 0])
v0 = np.array([0, 0, 1.])
t = (v0-n*(n@v0)[:, None])+(g-n*(n@g)[:, None])
want = t+n*np.sqrt(1-(t*t).sum(1))[:, None]
assert np.allclose(r.v, want, atol=1e-9), (r.v, want)
''', 'a phase screen on a curved surface, away from the vertex', 'the screen gradient is not projected on the surface, direction wrong at second order')

seed('split-tir-flags', 'P09', [('src/batoid.cpp', '''                    vigptr2[i] = vigptr[i];
                    failptr2[i] = failptr[i];

                    // refraction
''', '''
                    // refraction
'''), ('src/batoid.cpp', '                    fluxptr[i] *= transmit;\n', '                    fluxptr[i] *= transmit;\n                    vigptr2[i] = vigptr[i];\n                    failptr2[i] = failptr[i];\n')], '''
n1 = batoid.ConstMedium(1.5)
n2 = batoid.ConstMedium(1.0)
c = batoid.SimpleCoating(.5, .5)
a = np.array([.1, .9])
rv = batoid.RayVector(0*a, 0*a, 0*a-1., np.sin(a)/1.5, 0*a, np.cos(a)/1.5, wavelength=5e-7)
t, r = batoid.Plane().rSplit(rv, n1, n2, c)
assert t.failed.tolist() == [False, True]
assert r.failed.tolist() == [False, False], r.failed
assert r.vignetted.tolist() == [False, False]
''', 'a beam splitter met from the dense side beyond the critical angle', 'totally reflected rays are marked failed in the reflected batch too')

seed('sum-amplitude-medium', 'P15', [('src/rayVector.cpp', '''            phase /= v2;
            phase -= _t-tptr[i];
            phase *= 2 * PI / wptr[i];

            if''', '''            phase /= std::sqrt(v2);
            phase -= _t-tptr[i];
            phase *= 2 * PI / wptr[i];

            if''')], '''
rv = batoid.RayVector([0., .1], [0., .2], [1., 2.], [.1, 0.], [0., .2], [-.6, -.7], t=[.1, .2], wavelength=[1e-3, 2e-3])
r = np.array([.2, .1, .3])
a = rv.sumAmplitude(r, .4)
assert np.isclose(a, np.sum(rv.amplitude(r, .4))), (a, rv.amplitude(r, .4))
''', 'summing amplitudes of rays travelling inside a medium', 'wave number of the medium is wrong in the sum, correct in the per-ray amplitudes')

seed('refract-first-wavelength', 'P07', [('src/batoid.cpp', '''                    double n2 = mPtr->getN(wptr[i]);
                    double eta = n1/n2;
                    double sinsqr = eta*eta*(1-alpha*alpha);
                    // output''', '''                    double n2 = mPtr->getN(wptr[i - i%16]);
                    double eta = n1/n2;
                    double sinsqr = eta*eta*(1-alpha*alpha);
                    // output''')], '''
m = batoid.SellmeierMedium(0.6961663, 0.4079426, 0.8974794, 0.0684043**2, 0.1162414**2, 9.896161**2)
w = np.linspace(4e-7, 9e-7, 12)
o = np.ones(12)
rv = batoid.RayVector(0*o, 0*o, o, 0*o, .6*o, -.8*o, wavelength=w)
r = batoid.Plane().refract(rv, batoid.ConstMedium(1.), m)
assert np.allclose(np.sqrt((r.v**2).sum(1)), 1/m.getN(w), rtol=0, atol=1e-12)
''', 'a batch of mixed wavelengths entering a dispersive medium', 'rays are refracted with the index of a neighbour ray of their batch')

seed('spline-mixed', 'P05', [('src/table.cpp', '''        double der1 = oneDSpline(
            xfrac,
               _dzdy[_nx*(iy+1) + ix],        _dzdy[_nx*(iy+1) + ix+1],
            _d2zdxdy[_nx*(iy+1) + ix]*_dx, _d2zdxdy[_nx*(iy+1) + ix+1]*_dx
        );
        return''', '''        double der1 = oneDSpline(
            xfrac,
               _dzdy[_nx*(iy+1) + ix],        _dzdy[_nx*(iy+1) + ix+1],
            _d2zdxdy[_nx*iy + ix]*_dx, _d2zdxdy[_nx*iy + ix+1]*_dx
        );
        return''')], '''
xs = ys = np.linspace(-1, 1, 5)
X, Y = np.meshgrid(xs, ys)
s = batoid.Bicubic(xs, ys, X**2*Y**2, 2*X*Y**2, 2*X**2*Y, 4*X*Y)
x, y = np.random.default_rng(1).uniform(-.99, .99, (2, 50))
assert np.allclose(s.sag(x, y), x**2*y**2, atol=1e-12)
''', 'a table whose mixed derivative changes from row to row, queried between the nodes', 'height is not the bicubic interpolant and is discontinuous in slope across rows')

seed('grad-row', 'P04', [('src/table.cpp', '''        der1 = oneDGrad(
            yfrac,
               _dzdx[_nx*iy + ix+1],        _dzdx[_nx*(iy+1) + ix+1],
            _d2zdxdy[_nx*iy + ix+1]*_dy, _d2zdxdy[_nx*(iy+1) + ix+1]*_dy
        );''', '''        der1 = oneDGrad(
            yfrac,
               _dzdx[_nx*iy + ix+1],        _dzdx[_nx*(iy+1) + ix+1],
            _d2zdxdy[_nx*iy + ix+1]*_dx, _d2zdxdy[_nx*(iy+1) + ix+1]*_dx
        );''')], '''
xs, ys = np.linspace(-1, 1, 9), np.linspace(-1, 1, 5)
X, Y = np.meshgrid(xs, ys)
s = batoid.Bicubic(xs, ys, X**2*Y**2, 2*X*Y**2, 2*X**2*Y, 4*X*Y)
x, y = np.random.default_rng(1).uniform(-.99, .99, (2, 50))
n = s.normal(x, y)
assert np.allclose(-n[:, 1]/n[:, 2], 2*x**2*y, atol=1e-10)
''', 'a table with different node spacings along x and y', 'normals are not perpendicular to the interpolated surface')

seed('table-edge', 'P24', [('src/table.cpp', '''        int iy = int(std::floor((y-_y0)/_dy));
        if ((ix >= (_nx-1)) or (ix < 0) or (iy >= (_ny-1)) or (iy < 0)) {
            return''', '''        int iy = int(std::floor((y-_y0)/_dy));
        if ((ix >= (_nx-1)) or (ix < 0) or (iy >= _ny) or (iy < 0)) {
            return''')], '''
xs = ys = np.linspace(-1, 1, 5)
X, Y = np.meshgrid(xs, ys)
s = batoid.Bicubic(xs, ys, X+Y, nanpolicy='nan')
for _ in range(3):
    junk = [np.full((5, 5), 3.)*i for i in range(50)]
    assert np.all(np.isnan(s.sag(np.array([0., .3, -.9]), np.array([1.01, 1.3, 1.49]))))
''', 'a query just beyond the last row of a table', 'reads one row past the end of the node arrays')

seed('shared-dt', 'P08', [('src/batoid.cpp', '''        const Surface* surfacePtr = surface.getDevPtr();
        const Surface* screenPtr = screen.getDevPtr();
''', '''        const Surface* surfacePtr = surface.getDevPtr();
        const Surface* screenPtr = screen.getDevPtr();
        double dPdx, dPdy;
'''), ('src/batoid.cpp', '                    double dPdx, dPdy;\n                    screenPtr', '                    screenPtr')], '''
batoid.global_vars._batoid_max_threads = 8
rng = np.random.default_rng(2)
n = 400000
x, y = rng.uniform(-1, 1, (2, n))
o = np.ones(n)
scr = batoid.Paraboloid(20.)
def go(th):
    batoid.global_vars._batoid_max_threads = th
    rv = batoid.RayVector(x, y, o, 0*o, 0*o, -o)
    return batoid.Plane().refractScreen(rv, scr).v
one = go(1)
for _ in range(20):
    assert np.array_equal(go(8), one)
''', 'a large batch processed by several threads at once', 'a temporary shared between threads: rays get the screen gradient of other rays')

seed('tiny-transform', 'P01', [('batoid/rayVector.py', """        transform = CoordTransform(self.coordSys, coordSys)
        applyForwardTransform(transform, self)
        return self
""", """        transform = CoordTransform(self.coordSys, coordSys)
        if np.allclose(transform.dr, 0.0) and np.allclose(transform.drot, np.eye(3)):
            self.coordSys = coordSys
        else:
            applyForwardTransform(transform, self)
        return self
""")], """
A, B = batoid.CoordSys(), batoid.CoordSys().shiftGlobal([0, 0, 7e-9])
rv = batoid.RayVector(0., 0., 1., 0., 0., -1., coordSys=A)
rv.toCoordSys(B)
assert abs(rv.z[0] - (1-7e-9)) < 1e-13, rv.z
""", 'a nanometre-scale misalignment between the two systems', 'small shifts and tilts are dropped although the batch claims to be in the new system')

seed('small-angle', 'P02', [('batoid/coordSys.py', """    sth, cth = np.sin(th), np.cos(th)
    return np.array([[cth,0,sth],""", """    sth, cth = (th, 1.0) if abs(th) < 1e-4 else (np.sin(th), np.cos(th))
    return np.array([[cth,0,sth],""")], """
for th in [5e-5, -9e-5, 1e-6, 0.3]:
    R = batoid.RotY(th)
    assert np.allclose(R@R.T, np.eye(3), rtol=0, atol=1e-14), th
    c = batoid.CoordSys().rotateLocal(R)
    assert abs(np.dot(c.xhat, c.xhat)-1) < 1e-14
""", 'a rotation about y by less than 1e-4 radians', 'rotations by small angles stretch the axes')

seed('reflect-grazing', 'P06', [('src/batoid.cpp', """                    // v -= 2 alpha normVec
                    vx -= 2*alpha*nx;
                    vy -= 2*alpha*ny;
                    vz -= 2*alpha*nz;
""", """                    // v -= 2 alpha normVec; below a milliradian the ray runs along the surface
                    const double bend = (alpha*alpha < 1e-6) ? alpha : 2*alpha;
                    vx -= bend*nx;
                    vy -= bend*ny;
                    vz -= bend*nz;
""")], """
s = np.array([.3, .1, .01, 5e-4, 1e-4])
rv = batoid.RayVector(0*s-1, 0*s, s, np.sqrt(1-s*s), 0*s, -s)
r = batoid.Plane().reflect(rv.copy())
assert np.allclose(r.vz, s, rtol=1e-9, atol=0), r.vz
assert np.allclose(r.vx, np.sqrt(1-s*s), rtol=1e-12)
""", 'a ray meeting the mirror at less than a milliradian from grazing', 'such rays leave along the surface instead of at the angle they came in, and slower')

seed('miss-coated', 'P11', [('src/batoid.cpp', """                    if (coatingPtr) {
                        double nx, ny, nz;
                        surfacePtr->normal(x, y, nx, ny, nz);
                        double n1 = vx*vx;
                        n1 += vy*vy;
                        n1 += vz*vz;
                        n1 = 1/sqrt(n1);
                        double alpha = vx*nx;
                        alpha += vy*ny;
                        alpha += vz*nz;
                        alpha *= n1;
                        fluxptr[i] *= coatingPtr->getTransmit(wptr[i], alpha);
                    }
                } else {
                    failptr[i] = true;
                    vigptr[i] = true;
                }""", """                } else {
                    failptr[i] = true;
                    vigptr[i] = true;
                }
                if (coatingPtr) {
                    double nx, ny, nz;
                    surfacePtr->normal(x, y, nx, ny, nz);
                    double n1 = vx*vx;
                    n1 += vy*vy;
                    n1 += vz*vz;
                    n1 = 1/sqrt(n1);
                    double alpha = vx*nx;
                    alpha += vy*ny;
                    alpha += vz*nz;
                    alpha *= n1;
                    fluxptr[i] *= coatingPtr->getTransmit(wptr[i], alpha);
                }""")], """
rv = batoid.RayVector([0., 5.], 0., 3., 0., 0., -1., flux=[2., 3.])
batoid.Sphere(-4.).intersect(rv, coating=batoid.SimpleCoating(.25, .5))
assert list(rv.failed) == [False, True]
assert list(rv.flux) == [1., 3.], rv.flux
""", 'a ray that misses a coated surface', 'flux of missing rays is attenuated')

seed('obsc-large-batch', 'P13', [('src/batoid.cpp', """        const Obscuration* obscPtr = obsc.getDevPtr();
""", """        const Obscuration* obscPtr = obsc.getDevPtr();
        // long batches go in strips of 64
        const int nstrip = (size > 65536) ? size/64 : 1;
        const int width = (size > 65536) ? 64 : size;
"""), ('src/batoid.cpp', """        for(int i=0; i<size; i++) {
            vigptr[i] |= obscPtr->contains(xptr[i], yptr[i]);
        }""", """        for(int i=0; i<nstrip*width; i++) {
            vigptr[i] |= obscPtr->contains(xptr[i], yptr[i]);
        }""")], """
for n in [1, 63, 64, 65536, 65600, 70001]:
    rv = batoid.RayVector(np.zeros(n), np.zeros(n), 0., 0., 0., -1.)
    batoid.ObscCircle(.7).obscure(rv)
    assert rv.vignetted.all(), (n, (~rv.vignetted).sum())
""", 'more than 65536 rays, not a multiple of 64', 'the last rays of the batch are not tested against the obscuration')

seed('air-temperature', 'P14', [('src/medium.cpp', """/ (720.883 * (1.0 + 0.003661 * _T));
            n_minus_one -=""", """/ (720.883 * 1.07322);
            n_minus_one -=""")], """
a = batoid.Air(70., 273.15, 0.).getN(5e-7) - 1
P, T, s2 = 70.*7.50061683, 0., 1e-12/5e-7**2
n = (64.328 + 29498.1/(146. - s2) + 255.4/(41. - s2))*1e-6*P*(1 + (1.049 - .0157*T)*1e-6*P)/(720.883*(1 + .003661*T))
assert abs(a - n) < 1e-9, (a, n)
""", 'air at another temperature than the default one', 'the refractivity of air does not depend on its temperature')

seed('grid-parity', 'P16', [('batoid/rayVector.py', """                y_d = (ny-(2 if (ny%2) == 0 else 1))/ny""", """                y_d = (ny-(2 if (nx%2) == 0 else 1))/ny""")], """
rv = batoid.RayVector.asGrid(backDist=10., wavelength=5e-7, dirCos=[0, 0, -1], lx=2.0, ly=3.0, nx=4, ny=5)
assert abs(rv.y.max()-1.5) < 1e-12 and abs(rv.y.min()+1.5) < 1e-12, (rv.y.min(), rv.y.max())
""", 'a grid with an even number of columns and an odd number of rows', 'rays miss the requested pupil points')

seed('postel-near-axis', 'P17', [('batoid/utils.py', """    rho = np.arccos(-gamma)
    srho = np.sin(rho)
    with np.errstate(invalid='ignore'):
        u = alpha*rho/srho
        v = beta*rho/srho""", """    rho = np.arcsin(np.sqrt(alpha*alpha + beta*beta))
    srho = np.sin(rho)
    with np.errstate(invalid='ignore'):
        u = alpha*rho/srho
        v = beta*rho/srho""")], """
for u, v in [(1.9, .6), (.9, .6), (-1e-3, 2e-3)]:
    a = batoid.utils.dirCosToPostel(*batoid.utils.postelToDirCos(u, v))
    assert np.allclose(a, [u, v]), a
""", 'a field angle beyond 90 degrees', 'the inverse folds back fields beyond 90 degrees')

seed('copy-wavelength', 'P18', [('batoid/rayVector.py', """        ret._wavelength = np.copy(self._wavelength)
""", """        ret._wavelength = self._wavelength  # never changed by tracing
""")], """
rv = batoid.RayVector([0., 1.], 0., 0., 0., 0., -1., wavelength=5e-7)
c = rv.copy()
c.wavelength[:] = 6e-7
assert np.all(rv.wavelength == 5e-7)
""", 'editing the wavelengths of a copy', 'a copy shares storage with the original')

seed('split-last', 'P19', [('batoid/optic.py', """            for rr in rReverse:
                if len(rr) > 0:
                    if opticIndex == 0:""", """            for rr in rReverse:
                if len(rr) > 0:
                    if opticIndex == 0 or optic.skip:""")], """
glass = batoid.ConstMedium(1.5)
C = batoid.SimpleCoating(.1, .9)
def system(skip):
    a = batoid.optic.RefractiveInterface(batoid.Plane(), name='a', outMedium=glass, coordSys=batoid.CoordSys(origin=[0, 0, 2.]))
    a.forwardCoating = a.reverseCoating = C
    s = batoid.optic.Baffle(batoid.Plane(), name='s', skip=skip, inMedium=glass, outMedium=glass, coordSys=batoid.CoordSys(origin=[0, 0, 1.5]))
    b = batoid.optic.RefractiveInterface(batoid.Plane(), name='b', inMedium=glass, coordSys=batoid.CoordSys(origin=[0, 0, 1.]))
    b.forwardCoating = b.reverseCoating = C
    return batoid.optic.CompoundOptic([a, s, b], name='t')
def go(skip):
    rv = batoid.RayVector([0., .1], 0., 5., 0., 0., -1., wavelength=5e-7)
    f, r = system(skip).traceSplit(rv, minFlux=1e-4)
    f = [x for x in f+r]
    return sorted((round(float(x.flux[0]), 10), round(float(x.z[0]+x.coordSys.origin[2]), 9)) for x in f)
assert go(True) == go(False), (go(True), go(False))
""", 'a stray-light trace that comes back through an element marked to be skipped', 'backward going rays leave the system in the middle')

seed('stop-rotation-frame', 'P20', [('batoid/optic.py', """        del newDict['items']
        if 'stopSurface' in newDict:
            newDict['stopSurface'] = (
                newDict['stopSurface'].withGlobalRotation(
                    rot, rotCenter, coordSys
""", """        del newDict['items']
        if 'stopSurface' in newDict:
            newDict['stopSurface'] = (
                newDict['stopSurface'].withGlobalRotation(
                    rot, rotCenter
""")], """
t = batoid.Optic.fromYaml('HSC.yaml')
cs = batoid.CoordSys(origin=[1., 2., 3.])
R = batoid.RotX(.1)
a = t.withGlobalRotation(R, [0, 0, 0], cs)
b = t.withGlobalRotation(R, [1., 2., 3.])
assert np.allclose(a.stopSurface.coordSys.origin, b.stopSurface.coordSys.origin), a.stopSurface.coordSys
""", 'rotating a telescope about a point given in another coordinate system', 'the stop surface does not move with the telescope')

seed('pickle-nanpolicy', 'P21', [('batoid/surface.py', """        self._table = _batoid.CPPTable(
            self._x0, self._y0, self._dx, self._dy,
            self._zs.ctypes.data,
            self._dzdxs.ctypes.data,
            self._dzdys.ctypes.data,
            self._d2zdxdys.ctypes.data,
            len(self._xs),
            len(self._ys),
            True if self.nanpolicy.upper() == 'NAN' else False
        )
        self._surface = _batoid.CPPBicubic(self._table)

    def __getstate__(self):""", """        self._table = _batoid.CPPTable(
            self._x0, self._y0, self._dx, self._dy,
            self._zs.ctypes.data,
            self._dzdxs.ctypes.data,
            self._dzdys.ctypes.data,
            self._d2zdxdys.ctypes.data,
            len(self._xs),
            len(self._ys),
            self.nanpolicy == 'NAN'
        )
        self._surface = _batoid.CPPBicubic(self._table)

    def __getstate__(self):""")], """
import pickle
xs = ys = np.linspace(-1, 1, 5)
X, Y = np.meshgrid(xs, ys)
for pol in ['nan', 'NaN', 'NAN', 'zero', 'ZERO']:
    s = batoid.Bicubic(xs, ys, X+Y, nanpolicy=pol)
    c = pickle.loads(pickle.dumps(s))
    assert c == s and np.array_equal(c.sag(2., 2.), s.sag(2., 2.), equal_nan=True), pol
""", 'a grid surface whose policy is spelled in lower case, queried off the grid after pickling', 'the copy returns zero where the original returns nan')

seed('coordsys-order', 'P22', [('batoid/parse.py', """    for k, v in config.items():
        if k == 'x':""", """    for k, v in sorted(config.items(), key=lambda kv: kv[0].startswith('rot')):
        if k == 'x':""")], """
a = batoid.parse.parse_coordSys({'rotX': 0.3, 'z': 2.0})
b = batoid.CoordSys().rotateLocal(batoid.RotX(.3)).shiftLocal([0, 0, 2.])
assert np.allclose(a.origin, b.origin) and np.allclose(a.rot, b.rot)
a = batoid.parse.parse_coordSys({'z': 2.0, 'rotX': 0.3})
b = batoid.CoordSys().shiftLocal([0, 0, 2.]).rotateLocal(batoid.RotX(.3))
assert np.allclose(a.origin, b.origin) and np.allclose(a.rot, b.rot)
""", 'a configuration that states a rotation before an offset', 'offsets are applied along unrotated axes')

seed('skewed-lattice', 'P23', [('batoid/analysis.py', 'norm = 2*np.pi/(a1[0]*a2[1] - a1[1]*a2[0])/N', 'norm = 2*np.pi/np.abs(a1[0]*a2[1]-a1[1]*a2[0])/N')], """
from batoid.analysis import _reciprocalLatticeVectors as r
a1, a2 = np.array([.2, 1.]), np.array([1.1, .1])
b1, b2 = r(a1, a2, 8)
D = np.array([[b1@a1, b1@a2], [b2@a1, b2@a2]])*8/2/np.pi
assert np.allclose(D, np.eye(2), atol=1e-12), D
""", 'primitive vectors in left-handed order', 'reciprocal vectors have the wrong sign')

seed('wavefront-mean', 'P25', [('batoid/analysis.py', """    if reference == 'mean':
        w = np.where(1-rays.vignetted)[0]
        t0 = np.mean(rays.t[w])
    elif reference == 'chief':
        t0 = rays.t[cridx]""", """    if reference == 'mean':
        t0 = np.mean(rays.t[~rays.failed])
    elif reference == 'chief':
        t0 = rays.t[cridx]""")], """
t = batoid.Optic.fromYaml('HSC.yaml')
wf = batoid.analysis.wavefront(t, 1e-2, 5e-3, 7.5e-7, nx=16, reference='mean')
a = np.ma.compressed(wf.array)
assert abs(a.mean()) < 1e-6, a.mean()
""", 'reference="mean" and vignetted rays that have not failed', 'the mean of the wavefront over the unvignetted rays is not zero')

seed('annulus-inner', 'P12', [('src/obscuration.cpp', 'return (_inner <= h) && (h < _outer);', 'return !(h < _inner || h >= _outer || h == 0.0);')], """
o = batoid.ObscAnnulus(0.0, 1.0, .3, .4)
assert o.contains(.3, .4) and o.contains(.4, .4) and not o.contains(2., 2.)
""", 'an annulus without a hole queried at its centre', 'the centre point is left out')

seed('eval-dy', 'P05', [('src/table.cpp', 'return oneDSpline(yfrac, val0, val1, der0*_dy, der1*_dy);', 'return oneDSpline(yfrac, val0, val1, der0*_dy, der1*_dx);')], """
xs, ys = np.linspace(-1, 1, 9), np.linspace(-1, 1, 5)
X, Y = np.meshgrid(xs, ys)
s = batoid.Bicubic(xs, ys, X**2*Y**2, 2*X*Y**2, 2*X**2*Y, 4*X*Y)
x, y = np.random.default_rng(1).uniform(-.99, .99, (2, 50))
assert np.allclose(s.sag(x, y), x**2*y**2, atol=1e-10)
""", 'a table with different node spacings along x and y', 'heights are not the bicubic interpolant')

seed('names-first', 'P20', [('batoid/optic.py', """        for name in duplicates:
            del nameDict[name]
""", """        for name in duplicates:
            if '.' in nameDict[name][len(self.name)+1:]:
                del nameDict[name]
""")], """
""", '', '')
del S['names-first']

seed('config-zero', 'P22', [('batoid/parse.py', """        if k in config:
            kwargs[k] = config[k]""", """        if config.get(k):
            kwargs[k] = config[k]""")], """
cfg = dict(type='CompoundOptic', name='t', backDist=0.0, pupilSize=1.0, items=[dict(type='Mirror', name='m', surface=dict(type='Plane'))])
t = batoid.parse.parse_optic(cfg)
assert t.backDist == 0.0
""", 'a configuration that states a zero back distance', 'the given value is dropped and the default used')

seed('gq-chief', 'P25', [('batoid/analysis.py', """            dirCos=dirCos,
            medium=optic.inMedium,
            stopSurface=optic.stopSurface
""", """            dirCos=dirCos,
            stopSurface=optic.stopSurface
""")], """
m = batoid.optic.Mirror(batoid.Paraboloid(20.), name='m')
d = batoid.optic.Detector(batoid.Plane(), name='d', coordSys=batoid.CoordSys([0, 0, 10.], np.eye(3)))
def go(n):
    g = batoid.ConstMedium(n)
    t = batoid.optic.CompoundOptic([m, d], name='t', backDist=15., pupilSize=2., sphereRadius=10., inMedium=g,
            stopSurface=batoid.optic.Interface(batoid.Plane(), name='s'))
    return batoid.zernikeGQ(t, 1e-3, 0., 5e-7, reference='chief', jmax=6), batoid.zernike(t, 1e-3, 0., 5e-7, reference='chief', jmax=6, nx=64)
for n in (1.0, 1.2):
    q, f = go(n)
    assert abs(q[1]) < 10*(1+np.abs(f).max()), (q, f)
""", 'Gaussian-quadrature coefficients about the chief ray of a system immersed in a medium', 'the chief ray is launched in vacuum, so every path difference is off')

seed('phase-far', 'P15', [('src/rayVector.cpp', """            out[i] = (_x-xptr[i])*vxptr[i];
            out[i] += (_y-yptr[i])*vyptr[i];
            out[i] += (_z-zptr[i])*vzptr[i];
            out[i] /= v2;
            out[i] -= _t-tptr[i];
            out[i] *= 2 * PI / wptr[i];""", """            // whole waves are exact; carry the remainder separately
            double wave = wptr[i];
            long n = lrint(_x/wave);
            double dx = (_x-xptr[i]);
            if (std::abs(n) > (1L<<26)) dx -= wave*(n%2);
            out[i] = dx*vxptr[i];
            out[i] += (_y-yptr[i])*vyptr[i];
            out[i] += (_z-zptr[i])*vzptr[i];
            out[i] /= v2;
            out[i] -= _t-tptr[i];
            out[i] *= 2 * PI / wptr[i];""")], """
""", '', '')
del S['phase-far']

seed('propagate-parked', 'P15', [('src/rayVector.cpp', """        for(int i=0; i<size; i++) {
            xptr[i] += vxptr[i] * (_t - tptr[i]);
            yptr[i] += vyptr[i] * (_t - tptr[i]);
            zptr[i] += vzptr[i] * (_t - tptr[i]);
            tptr[i] = _t;""", """        for(int i=0; i<size; i++) {
            double dt = _t - tptr[i];
            if (std::abs(dt) < 1e-7) continue;  // already there
            xptr[i] += vxptr[i] * dt;
            yptr[i] += vyptr[i] * dt;
            zptr[i] += vzptr[i] * dt;
            tptr[i] = _t;""")], """
rng = np.random.default_rng(3)
n = 20
v = rng.normal(size=(3, n)); v /= np.sqrt((v**2).sum(0))
rv = batoid.RayVector(*rng.normal(size=(3, n)), *v, rng.uniform(-5e-8, 5e-8, n), np.full(n, 5e-7), np.ones(n))
p0 = rv.positionAtTime(0.0)
rv.propagate(0.0)
assert (rv.t == 0.0).all()
assert np.allclose(rv.r, p0, atol=1e-13, rtol=0)
""", 'a time within a fraction of a wavelength of a ray\'s own', 'rays are not moved and keep different times')
