"""Random element trees for the monitors of P19, P20 and P25, and their flattened reference semantics."""
import numpy as np, batoid, ref

NAMES = ['A', 'B', 'M', 'M1', 'M12', 'L', 'L1', 'L1_entrance', 'L1.x', 'D', 'M1_cell', 'X', 'Lens', 'L2', 'AB']


def medium(rng):
    return [batoid.ConstMedium(1.), batoid.ConstMedium(float(rng.uniform(1., 1.6))), batoid.SellmeierMedium(*ref.SILICA), batoid.Air()][rng.integers(4)]


def surface(rng):
    R = rng.uniform(8, 30)*rng.choice([-1, 1])
    return [lambda: batoid.Plane(), lambda: batoid.Sphere(R), lambda: batoid.Quadric(R, rng.uniform(-2, .5)), lambda: batoid.Paraboloid(R),
            lambda: batoid.Asphere(R, -1., [1e-4, -1e-5])][rng.integers(5)]()


def obsc(rng):
    r = rng.uniform(.6, 2.)
    return [None, None, batoid.ObscNegation(batoid.ObscCircle(r)), batoid.ObscCircle(.2*r, .1, .1), batoid.ObscNegation(batoid.ObscAnnulus(.1*r, r)),
            batoid.ObscRectangle(.3, .2, .1, .1, .3)][rng.integers(6)]


def leaf(rng, name, z, m1=None, m2=None, kinds=None, skips=True, tilt=.05):
    k = str(rng.choice(kinds or ['RefractiveInterface', 'RefractiveInterface', 'Mirror', 'Detector', 'Baffle', 'Interface', 'OPDScreen']))
    cs = batoid.CoordSys(np.array([*rng.normal(size=2)*.05, z]), ref.axang(rng.normal(size=3), rng.normal()*tilt))
    m1 = m1 or medium(rng)
    m2 = m2 or medium(rng)
    if k not in ('RefractiveInterface',):
        m2 = m1
    kw = dict(name=name, coordSys=cs, inMedium=m1, outMedium=m2, obscuration=obsc(rng))
    if skips and rng.uniform() < .15:
        kw['skip'] = True
    if k in ('RefractiveInterface',) and rng.uniform() < .7:
        a, b = rng.uniform(0, .3, 2)
        kw['forwardCoating'] = batoid.SimpleCoating(a, 1-a)
        kw['reverseCoating'] = batoid.SimpleCoating(b, .9-b)
    if k == 'OPDScreen':
        a, b = rng.normal(size=2)*1e-3
        return batoid.OPDScreen(surface(rng), batoid.Tilted(a, b), **kw)
    return getattr(batoid, k)(surface(rng), **kw)


class Ctr:
    def __init__(s, z0=0., dz=-.5):
        s.i, s.z, s.dz = 0, z0, dz

    def next(s):
        s.z += s.dz
        return s.z


def tree(rng, depth=2, ctr=None, kinds=None, unique=True, used=None, name=None, skips=True, width=4, lens=True):
    ctr = ctr or Ctr()
    used = set() if used is None else used

    def nm():
        for _ in range(100):
            n = str(rng.choice(NAMES)) if rng.uniform() < .7 else 'N%d' % rng.integers(1000)
            if n not in used:
                break
        else:
            n = 'Z%d' % len(used)
        used.add(n)
        return n
    name = name or nm()
    items = []
    for _ in range(int(rng.integers(1, width+1))):
        u = rng.uniform()
        if depth > 0 and u < .3:
            items.append(tree(rng, depth-1, ctr, kinds, unique, used, skips=skips, width=width, lens=lens))
        elif lens and u < .45:
            m = medium(rng)
            n = nm()
            a = leaf(rng, nm(), ctr.next(), m2=m, kinds=['RefractiveInterface'], skips=skips)
            b = leaf(rng, nm(), ctr.next(), m1=m, kinds=['RefractiveInterface'], skips=skips)
            items.append(batoid.Lens([a, b], name=n, inMedium=a.inMedium, outMedium=b.outMedium, coordSys=batoid.CoordSys([0, 0, ctr.z], ref.axang(rng.normal(size=3), .1))))
        else:
            items.append(leaf(rng, nm(), ctr.next(), kinds=kinds, skips=skips))
    kw = {}
    if rng.uniform() < .4:
        kw['stopSurface'] = batoid.Interface(batoid.Plane(), name='stop', coordSys=batoid.CoordSys([0, 0, 1.], ref.axang(rng.normal(size=3), .1)))
    if rng.uniform() < .3:
        kw.update(backDist=float(rng.uniform(1, 5)), pupilSize=2., lx=3, custom='kept')
    if skips and depth < 2 and rng.uniform() < .12:
        kw['skip'] = True
    cs = batoid.CoordSys(rng.normal(size=3)*.2, ref.axang(rng.normal(size=3), rng.normal()*.3))
    return batoid.CompoundOptic(items, name=name, coordSys=cs, inMedium=medium(rng), outMedium=medium(rng), **kw)


def leaves(o, skipped=False):
    """visited elementary parts in order"""
    if o.skip:
        return []
    if hasattr(o, 'items'):
        return [x for i in o.items for x in leaves(i)]
    return [o]


def parts(o, pre=''):
    """(qualified name, element) for all parts, the element itself first"""
    q = pre+o.name
    out = [(q, o)]
    if hasattr(o, 'items'):
        for i in o.items:
            out += parts(i, q+'.')
    return out


def step(o, rv, reverse=False):
    """one elementary part, by its surface"""
    s, cs = o.surface, o.coordSys
    if isinstance(o, batoid.Mirror):
        s.reflect(rv, coordSys=cs)
    elif isinstance(o, batoid.RefractiveInterface):
        a, b = (o.outMedium, o.inMedium) if reverse else (o.inMedium, o.outMedium)
        s.refract(rv, a, b, coordSys=cs)
    elif isinstance(o, batoid.OPDScreen):
        s.refractScreen(rv, o.screen, coordSys=cs)
    else:
        s.intersect(rv, coordSys=cs)
    if o.obscuration is not None:
        o.obscuration.obscure(rv)
    return rv


def beam(rng, n, z=2., med=None, slope=.02, rad=.8, wl=None):
    x, y = rng.uniform(-rad, rad, (2, n))
    vx, vy = rng.uniform(-slope, slope, (2, n))
    v = np.column_stack([vx, vy, -np.ones(n)])
    wl = rng.uniform(400e-9, 900e-9, n) if wl is None else np.full(n, wl)
    sp = 1/(med or batoid.ConstMedium(1.)).getN(wl)
    v *= (sp/np.sqrt((v*v).sum(1)))[:, None]
    return batoid.RayVector(x, y, np.full(n, z), v[:, 0].copy(), v[:, 1].copy(), v[:, 2].copy(), rng.normal(size=n), wl, rng.uniform(.5, 1.5, n))
