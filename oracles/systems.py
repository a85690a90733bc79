"""Imaging systems for the monitors of P23 and P25."""
import numpy as np, batoid, ref
_C = {}


def load(nm):
    if nm not in _C:
        _C[nm] = batoid.Optic.fromYaml(nm)
    return _C[nm]


def mirror(rng, tilt=True, n=1.0, vig=True, power=True):
    """single mirror, rotated (and tilted, shifted) detector, decentred vignetting"""
    f = rng.uniform(6, 14)
    m = batoid.ConstMedium(n)
    ob = [batoid.ObscNegation(batoid.ObscCircle(.9, .07, -.12)), batoid.ObscUnion([batoid.ObscNegation(batoid.ObscCircle(1.)), batoid.ObscRectangle(.3, .5, .3, .2, .4)]),
          batoid.ObscNegation(batoid.ObscAnnulus(.35, .98))][rng.integers(3)] if vig else None
    s = batoid.Sum([batoid.Paraboloid(2*f), batoid.Zernike([0, 0, 0, 0, 0]+[float(q) for q in rng.normal(size=6)*2e-7], 1.)])
    p = batoid.Mirror(s, name='M', obscuration=ob, inMedium=m, outMedium=m)
    rot = batoid.RotZ(rng.uniform(-3, 3))
    if tilt:
        rot = rot@ref.axang([rng.normal(), rng.normal(), 0.], rng.uniform(.1, .6))
    d = batoid.Detector(batoid.Plane(), name='D', coordSys=batoid.CoordSys([rng.normal()*1e-3, rng.normal()*1e-3, f+rng.normal()*1e-4], rot), inMedium=m, outMedium=m)
    st = batoid.Interface(batoid.Plane(), name='stop', coordSys=batoid.CoordSys([0, 0, .3], np.eye(3)))
    return batoid.CompoundOptic([p, d], name='T', backDist=f+5, pupilSize=2., sphereRadius=f, stopSurface=st, inMedium=m, outMedium=m,
                                coordSys=batoid.CoordSys([.5, -.2, .1], np.eye(3)) if False else batoid.globalCoordSys), 'mirror f=%.2f' % f


def system(rng):
    k = rng.integers(8)
    if k < 5:
        return mirror(rng, tilt=k > 1, n=1. if k else 1.2)
    nm = ['HSC.yaml', 'LSST_r.yaml', 'DECam.yaml'][k-5]
    t = load(nm)
    if rng.uniform() < .6 and nm == 'LSST_r.yaml':
        t = t.withLocallyRotatedOptic('LSST.LSSTCamera', batoid.RotZ(rng.uniform(-2, 2)))
        nm += ' rotated'
    return t, nm


def field(rng, nm):
    return rng.uniform(-.01, .01, 2)*(1 if nm.startswith('LSST') else .6)
