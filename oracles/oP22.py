import copy, glob, os, tempfile
import numpy as np, batoid, ref
from batoid.parse import parse_optic, parse_surface, parse_obscuration, parse_coordSys, parse_medium

F = lambda r, a=.1, b=3.: float(r.uniform(a, b))
AX = dict(rotX=[1, 0, 0], rotY=[0, 1, 0], rotZ=[0, 0, 1])


# every c_* returns (configuration, expected object or description), built independently of batoid.parse
def c_surface(r, depth=1):
    k = str(r.choice(['Plane', 'Tilted', 'Sphere', 'Paraboloid', 'Quadric', 'Asphere', 'Zernike', 'Bicubic']+['Sum']*(depth > 0)))
    if k == 'Sum':
        it = [c_surface(r, depth-1) for _ in range(r.integers(1, 4))]
        return sh(r, dict(type=k, items=[i[0] for i in it])), batoid.Sum([i[1] for i in it])
    p = dict(Plane={}, Tilted=dict(tanx=F(r), tany=F(r)), Sphere=dict(R=F(r, 5, 9)), Paraboloid=dict(R=F(r, 5, 9)), Quadric=dict(R=F(r, 5, 9), conic=F(r, -2, 1)),
             Asphere=dict(R=F(r, 5, 9), conic=F(r, -2, 1), coefs=[F(r, 1e-6, 1e-5) for _ in range(3)]),
             Zernike=dict(coef=[F(r, 1e-6, 1e-5) for _ in range(7)], R_outer=F(r, 2, 3), R_inner=F(r, .1, 1)),
             Bicubic=dict(xs=[0., 1., 2.], ys=[0., .5, 1.], zs=[[F(r) for _ in range(3)] for _ in range(3)]))[k]
    want = dict(Plane=lambda: batoid.Plane(), Tilted=lambda: batoid.Tilted(p['tanx'], p['tany']), Sphere=lambda: batoid.Sphere(p['R']), Paraboloid=lambda: batoid.Paraboloid(p['R']),
                Quadric=lambda: batoid.Quadric(p['R'], p['conic']), Asphere=lambda: batoid.Asphere(p['R'], p['conic'], p['coefs'], p.get('imin', 2)),
                Zernike=lambda: batoid.Zernike(p['coef'], p['R_outer'], p['R_inner']), Bicubic=lambda: batoid.Bicubic(p['xs'], p['ys'], p['zs']))[k]
    if k == 'Asphere' and r.uniform() < .4:
        p['imin'] = int(r.integers(1, 4))
    if k == 'Bicubic':
        p['zs'] = np.array(p['zs'])
    return sh(r, dict(type=k, **p)), want()


def sh(r, d):
    ks = list(d)
    r.shuffle(ks)
    return {k: d[k] for k in ks}


def c_obsc(r, depth=2):
    k = str(r.choice(['Circle', 'Annulus', 'Rectangle', 'Ray', 'Polygon']+['Negation', 'Union', 'Intersection']*(depth > 0)))
    if k == 'Negation':
        c, o = c_obsc(r, depth-1)
        return sh(r, dict(type='ObscNegation', original=c)), batoid.ObscNegation(o)
    if k in ('Union', 'Intersection'):
        it = [c_obsc(r, depth-1) for _ in range(r.integers(1, 4))]
        o = getattr(batoid, 'Obsc'+k)([i[1] for i in it])
        c = dict(items=[i[0] for i in it])
        if r.uniform() < .3:
            return sh(r, dict(type='Clear'+k, **c)), batoid.ObscNegation(o)
        return sh(r, dict(type='Obsc'+k, **c)), o
    opt = lambda **kw: {q: v for q, v in kw.items() if r.uniform() < .6}
    p = dict(Circle=dict(radius=F(r), **opt(x=F(r), y=F(r))), Annulus=dict(inner=F(r), outer=F(r, 3, 5), **opt(x=F(r), y=F(r))),
             Rectangle=dict(width=F(r), height=F(r), **opt(x=F(r), y=F(r), theta=F(r))), Ray=dict(width=F(r), theta=F(r), **opt(x=F(r), y=F(r))),
             Polygon=dict(xs=[0., F(r), F(r)], ys=[0., F(r), -F(r)]))[k]
    g = lambda q: p.get(q, 0.)
    o = dict(Circle=lambda: batoid.ObscCircle(p['radius'], g('x'), g('y')), Annulus=lambda: batoid.ObscAnnulus(p['inner'], p['outer'], g('x'), g('y')),
             Rectangle=lambda: batoid.ObscRectangle(p['width'], p['height'], g('x'), g('y'), g('theta')),
             Ray=lambda: batoid.ObscRay(p['width'], p['theta'], g('x'), g('y')), Polygon=lambda: batoid.ObscPolygon(p['xs'], p['ys']))[k]()
    if r.uniform() < .4:
        return sh(r, dict(type='Clear'+k, **p)), batoid.ObscNegation(o)
    return sh(r, dict(type='Obsc'+k, **p)), o


def c_medium(r):
    k = r.integers(7)
    if k == 0:
        n = F(r, 1, 2)
        return n, batoid.ConstMedium(n)
    if k == 1:
        n = int(r.integers(1, 3))
        return n, batoid.ConstMedium(n)
    if k == 2:
        n = F(r, 1, 2)
        return sh(r, dict(type='ConstMedium', n=n)), batoid.ConstMedium(n)
    if k == 3:
        q = [F(r, 1, 2) for _ in range(6)]
        return sh(r, dict(type='SellmeierMedium', **dict(zip(['B1', 'B2', 'B3', 'C1', 'C2', 'C3'], q)))), batoid.SellmeierMedium(*q)
    if k == 4:
        q = [F(r, 1, 2) for _ in range(6)]
        return sh(r, dict(type='SumitaMedium', **{'A%d' % i: v for i, v in enumerate(q)})), batoid.SumitaMedium(*q)
    if k == 5:
        p, t, h = F(r, 50, 80), F(r, 270, 300), F(r, .1, 2)
        return [(sh(r, dict(type='Air', pressure=p, temperature=t, h2o_pressure=h)), batoid.Air(p, t, h)), (dict(type='Air'), batoid.Air(69.328, 293.15, 1.067)),
                (dict(type='Air', temperature=t), batoid.Air(69.328, t, 1.067))][r.integers(3)]
    m = batoid.TableMedium([1e-7, 5e-7, 1e-6], [1.4, F(r, 1, 2), 1.6])
    if r.uniform() < .5:
        return m, m
    n = F(r, 1, 2)
    return sh(r, dict(type='TableMedium', wavelengths=[1e-7, 1e-6], ns=[n, 1.3])), batoid.TableMedium([1e-7, 1e-6], [n, 1.3])


def c_cs(r, big=1.):
    """configuration and the list of moves in order"""
    d = {}
    for k in r.permutation(['x', 'y', 'z', 'shift', 'rotX', 'rotY', 'rotZ'])[:r.integers(0, 8)]:
        d[str(k)] = [float(v) for v in r.normal(size=3)] if k == 'shift' else float(r.normal())*big
    return d


def place(d, o, R):
    """each offset along the axes reached so far, each rotation about the own axes reached so far"""
    for k, v in d.items():
        if k in ('x', 'y', 'z'):
            s = np.zeros(3)
            s['xyz'.index(k)] = v
            o = o+R@s
        elif k == 'shift':
            o = o+R@np.array(v)
        elif k in AX:
            R = R@ref.axang(AX[k], v)
    return o, R


EXTRA = ['backDist', 'sphereRadius', 'pupilSize', 'pupilObscuration', 'R_outer', 'R_inner']
VAC = batoid.ConstMedium(1.)


def c_optic(r, depth, o, R, inM=VAC, outM=None, mirrors=True, forced=None):
    """configuration and description, given what the parents determine"""
    c, w = {}, {}
    if r.uniform() < .9:
        c['name'] = 'n%d' % r.integers(10**6)
    w['name'] = c.get('name', '')
    if r.uniform() < .75:
        c['coordSys'] = c_cs(r)
        o, R = place(c['coordSys'], o, R)
    w['o'], w['R'] = o, R
    kind = forced or str(r.choice(['Mirror', 'RefractiveInterface', 'OPDScreen', 'Baffle', 'Detector', 'Interface']+['Lens', 'CompoundOptic', 'CompoundOptic']*(depth > 0)))
    same = kind in ('Mirror', 'OPDScreen', 'Detector', 'Baffle', 'Interface')
    if kind in ('OPDScreen', 'Mirror', 'Baffle', 'Detector') or r.uniform() < .4:
        m, inM = c_medium(r)
        c['inMedium'] = m
        if same or r.uniform() < .5:
            m2, outM = (m, inM) if same else c_medium(r)
            c['outMedium'] = m2
    elif r.uniform() < .3:
        c['outMedium'], outM = c_medium(r)
    if outM is None:
        outM = inM
    w['in'], w['out'] = inM, outM
    w['extra'] = {}
    for e in EXTRA:
        if r.uniform() < .2:
            c[e] = w['extra'][e] = F(r)
    if r.uniform() < .2:
        sc, sw = c_optic(r, 0, np.zeros(3), np.eye(3), forced='Interface')
        c['stopSurface'], w['stop'] = sc, sw
    w['type'] = c['type'] = kind
    if kind in ('Lens', 'CompoundOptic'):
        if kind == 'Lens':
            mc, m = c_medium(r)
            c['medium'] = mc
            w['medium'] = m
            it = [c_optic(r, 0, o, R, inM, m, forced='RefractiveInterface'), c_optic(r, 0, o, R, m, outM, forced='RefractiveInterface')]
            # a lens: the glass between the faces is the declared one
            for (q, d), f, g in zip(it, ('outMedium', 'inMedium'), ('out', 'in')):
                q.pop(f, None)
                d[g] = m
                other = 'inMedium' if f == 'outMedium' else 'outMedium'
            if 'inMedium' not in it[0][0]:
                it[0][1]['in'] = inM
            if 'outMedium' not in it[1][0]:
                it[1][1]['out'] = outM
        else:
            it = [c_optic(r, depth-1, o, R, inM, outM) for _ in range(r.integers(1, 4))]
        c['items'] = [i[0] for i in it]
        w['items'] = [i[1] for i in it]
    else:
        c['surface'], w['surface'] = c_surface(r)
        if kind == 'OPDScreen':
            c['screen'], w['screen'] = c_surface(r)
        if r.uniform() < .5:
            c['obscuration'], w['obsc'] = c_obsc(r)
    return sh(r, c), w


def same(rec, got, w, path):
    q = dict(part=path, type=w['type'])
    if not rec.check(type(got) is getattr(batoid, w['type']), 'element type', got=type(got).__name__, **q):
        return
    rec.check(got.name == w['name'], 'element name', **q)
    rec.close(got.coordSys.origin, w['o'], 'element position: own offset from the parent', atol=1e-12, rtol=1e-12, **q)
    rec.close(got.coordSys.rot, w['R'], 'element orientation: own angles about own axes in order', atol=1e-12, rtol=1e-12, **q)
    rec.check(got.inMedium == w['in'], 'medium in front of the element', got=repr(got.inMedium), want=repr(w['in']), **q)
    rec.check(got.outMedium == w['out'], 'medium behind the element', got=repr(got.outMedium), want=repr(w['out']), **q)
    for e in EXTRA:
        want = w['extra'].get(e)
        if e.startswith('R_') and want is None:
            if 'items' in w:
                continue
            ob = w.get('obsc')
            ob = ob.original if isinstance(ob, batoid.ObscNegation) else ob
            if isinstance(ob, batoid.ObscCircle):
                want = ob.radius if e == 'R_outer' else 0.
            elif isinstance(ob, batoid.ObscAnnulus):
                want = ob.outer if e == 'R_outer' else ob.inner
        rec.check(getattr(got, e, None) == want, 'stored attribute', attr=e, **q)
    st = getattr(got, 'stopSurface', None)
    if rec.check((st is None) == ('stop' not in w), 'stop surface present exactly when given', **q) and st is not None:
        same(rec, st, w['stop'], path+'.stopSurface')
    rec.check(getattr(got, 'skip', False) is False, 'no element is skipped', **q)
    if 'items' in w:
        if rec.check(len(got.items) == len(w['items']), 'number of parts', **q):
            for i, (a, b) in enumerate(zip(got.items, w['items'])):
                same(rec, a, b, path+'[%d]' % i)
        if 'medium' in w:
            rec.check(got.medium == w['medium'], 'lens medium', **q)
    else:
        rec.check(got.surface == w['surface'], 'element surface', got=repr(got.surface), want=repr(w['surface']), **q)
        if 'screen' in w:
            rec.check(got.screen == w['screen'], 'element screen', **q)
        rec.check(got.obscuration == w.get('obsc'), 'element obscuration', got=repr(got.obscuration), want=repr(w.get('obsc')), **q)
        D = dict(RefractiveInterface=((0., 1.), (0., 1.)), Mirror=((1., 0.), (1., 0.)), Detector=((0., 1.), None), Baffle=((0., 1.), (0., 1.)))
        for f, d in zip(('forwardCoating', 'reverseCoating'), D.get(w['type'], (None, None))):
            rec.check(getattr(got, f, None) == (None if d is None else batoid.SimpleCoating(*d)), 'default coating', which=f, **q)


def frozen(c):
    return repr(c)


def d_optic(c, o, R, inM, outM):
    """description of a plain (yaml) configuration, for the shipped files"""
    w = dict(type=c['type'], name=c.get('name', ''))
    if 'coordSys' in c:
        o, R = place(c['coordSys'], o, R)
    w['o'], w['R'] = o, R
    inM = d_medium(c['inMedium']) if 'inMedium' in c else inM
    outM = d_medium(c['outMedium']) if 'outMedium' in c else outM
    outM = inM if outM is None else outM
    w['in'], w['out'] = inM, outM
    w['extra'] = {e: c[e] for e in EXTRA if e in c}
    if 'stopSurface' in c:
        w['stop'] = d_optic(c['stopSurface'], np.zeros(3), np.eye(3), VAC, None)
    if c['type'] == 'Lens':
        m = d_medium(c['medium'])
        w['medium'] = m
        w['items'] = [d_optic(c['items'][0], o, R, inM, m), d_optic(c['items'][1], o, R, m, outM)]
    elif c['type'] == 'CompoundOptic':
        w['items'] = [d_optic(q, o, R, inM, outM) for q in c['items']]
    else:
        w['surface'] = d_surface(c['surface'])
        if 'obscuration' in c:
            w['obsc'] = d_obsc(c['obscuration'])
    return w


def d_medium(c):
    if isinstance(c, (int, float)):
        return batoid.ConstMedium(c)
    return getattr(batoid, c['type'])(**{k: v for k, v in c.items() if k != 'type'})


def d_surface(c):
    if c['type'] == 'Sum':
        return batoid.Sum([d_surface(q) for q in c['items']])
    return getattr(batoid, c['type'])(**{k: v for k, v in c.items() if k != 'type'})


def d_obsc(c):
    t = c['type']
    neg = t.startswith('Clear')
    t = t.replace('Clear', 'Obsc')
    rest = {k: v for k, v in c.items() if k != 'type'}
    if t == 'ObscNegation':
        o = batoid.ObscNegation(d_obsc(c['original']))
    elif t in ('ObscUnion', 'ObscIntersection'):
        o = getattr(batoid, t)([d_obsc(q) for q in c['items']])
    else:
        o = getattr(batoid, t)(**rest)
    return batoid.ObscNegation(o) if neg else o


def yamlable(c):
    if isinstance(c, dict):
        return all(yamlable(v) for v in c.values())
    if isinstance(c, list):
        return all(yamlable(v) for v in c)
    return isinstance(c, (int, float, str))


def run(rec, rng, tier):
    import yaml
    rec.rule = 'random configuration trees against an independent description; the shipped files; malformed configurations'
    rec.bound = 'sampled configurations, element trees up to depth 3'
    scr = tempfile.mkdtemp()
    try:
        for it in range(600 if tier == 'thorough' else 120):
            for nm, mk, parse in (('surface', c_surface, parse_surface), ('obscuration', c_obsc, parse_obscuration), ('medium', c_medium, parse_medium)):
                c, w = mk(rng)
                s = frozen(c)
                got = rec.attempt('building a '+nm, lambda: parse(c), config=s)
                if got is not None:
                    rec.check(got == w and type(got) is type(w), nm+' built as stated', config=s, got=repr(got), want=repr(w))
                    rec.check(frozen(c) == s, 'configuration unaltered', config=s, after=frozen(c))
            c, base = c_cs(rng), ref.randcs(rng)
            for cs in (base, None):
                got = parse_coordSys(c, cs) if cs is not None else parse_coordSys(c)
                o, R = place(c, *((cs.origin, cs.rot) if cs is not None else (np.zeros(3), np.eye(3))))
                rec.close(got.origin, o, 'coordinate system position', atol=1e-12, rtol=1e-12, config=frozen(c))
                rec.close(got.rot, R, 'coordinate system orientation', atol=1e-12, rtol=1e-12, config=frozen(c))
            # element trees
            c, w = c_optic(rng, 2, np.zeros(3), np.eye(3))
            s = frozen(c)
            got = rec.attempt('building an element', lambda: parse_optic(c), config=s)
            if got is not None:
                same(rec, got, w, w['name'])
                rec.check(frozen(c) == s, 'configuration unaltered', config=s[:1000], after=frozen(c)[:1000])
                again = parse_optic(c)
                rec.check(again == got, 'the same configuration builds an equal element again', config=s[:1000])
            # defaults handed over by the caller
            cs, (mc, m), (m2c, m2) = ref.randcs(rng), c_medium(rng), c_medium(rng)
            c, w = c_optic(rng, 1, cs.origin, cs.rot, m, m2)
            got = rec.attempt('building an element', lambda: parse_optic(c, cs, m, m2), config=frozen(c))
            if got is not None:
                same(rec, got, w, w['name'])
            # shared sub-configurations (yaml anchors)
            sc, sw = c_surface(rng)
            csd, (oc, ow) = c_cs(rng), c_obsc(rng)
            glass, gw = c_medium(rng)
            shared = dict(type='CompoundOptic', name='sys', coordSys=csd, inMedium=glass, outMedium=glass,
                          items=[dict(type='Baffle', name='a', surface=sc, coordSys=csd, obscuration=oc), dict(type='Baffle', name='b', surface=sc, coordSys=csd, obscuration=oc)])
            got = rec.attempt('building with shared parts', lambda: parse_optic(shared))
            if got is not None:
                o1, R1 = place(csd, np.zeros(3), np.eye(3))
                o2, R2 = place(csd, o1, R1)
                for g, n in zip(got.items, 'ab'):
                    same(rec, g, dict(type='Baffle', name=n, o=o2, R=R2, surface=sw, obsc=ow, extra={}, **{'in': gw, 'out': gw}), n)
            # through a file
            c, w = c_optic(rng, 1, np.zeros(3), np.eye(3))
            if yamlable(c):
                fn = os.path.join(scr, 'sys.yaml')
                with open(fn, 'w') as f:
                    yaml.safe_dump(dict(opticalSystem=c), f, sort_keys=False)
                got = rec.attempt('reading a file', lambda: batoid.Optic.fromYaml(fn))
                if got is not None:
                    same(rec, got, w, 'file')
        for f in sorted(glob.glob(os.path.join(batoid.datadir, '**', '*.yaml'))):
            c = yaml.safe_load(open(f))['opticalSystem']
            got = rec.attempt('shipped file', lambda: batoid.Optic.fromYaml(f), file=os.path.basename(f))
            if got is not None:
                same(rec, got, d_optic(c, np.zeros(3), np.eye(3), VAC, None), os.path.basename(f))
            if f.endswith(('HSC.yaml', 'LSST_r.yaml', 'DECam.yaml', 'PFS.yaml')):
                rec.check(batoid.Optic.fromYaml(os.path.basename(f)) == got, 'shipped file by its name')
    finally:
        for f in glob.glob(os.path.join(scr, '*')):
            os.unlink(f)
        os.rmdir(scr)
    E = Exception
    rec.raises('a missing file is an error', FileNotFoundError, lambda: batoid.Optic.fromYaml('no-such-file.yaml'))
    for nm, parse, bad in (
            ('surface', parse_surface, [{}, dict(type='Nothing'), dict(type='Sphere'), dict(type='Quadric', R=1.), dict(type='Sphere', R=1., bogus=2), dict(type='Sum'), dict(R=1.)]),
            ('obscuration', parse_obscuration, [{}, dict(type='Nothing'), dict(type='ObscNothing'), dict(type='ClearNothing'), dict(type='ObscCircle'), dict(type='ObscAnnulus', inner=1.),
                                                dict(type='ObscNegation'), dict(type='ObscUnion'), dict(type='ObscCircle', radius=1., bogus=1), dict(radius=1.)]),
            ('medium', parse_medium, [{}, dict(type='Nothing'), dict(type='ConstMedium'), dict(type='SellmeierMedium', B1=1.), dict(n=1.)]),
            ('element', parse_optic, [{}, dict(type='Nothing'), dict(type='Mirror'), dict(type='Mirror', surface=dict(type='Nothing')), dict(type='Lens', items=[]),
                                      dict(type='Lens', medium=1.), dict(type='CompoundOptic'), dict(type='OPDScreen', surface=dict(type='Plane')),
                                      dict(type='Detector', surface={}), dict(type='Baffle'), dict(type='Interface'), dict(type='RefractiveInterface'),
                                      dict(type='Mirror', surface=dict(type='Plane'), inMedium=dict(type='Nothing')),
                                      dict(type='Mirror', surface=dict(type='Plane'), obscuration=dict(type='Nothing', radius=1.)),
                                      dict(type='Surface', surface=dict(type='Plane')), dict(type='mirror', surface=dict(type='Plane'))])):
        for b in bad:
            rec.raises('malformed %s is an error' % nm, E, lambda: parse(b), config=repr(b))
    rec.check(parse_medium(None) is None, 'no medium stays no medium')
