"""Configuration parsing (P22): what batoid.parse builds is what the constructors build from the same values."""
import itertools, types
from pw import *
from u_pyobj import start, same, bounded, KINDS, make, dup, names, isfail
from u_coord import mulv, mm, addv, snapshot, _sys
from u_bundle import replace

PA = 'batoid/parse.py::'
SURF = {'Plane', 'Tilted', 'Paraboloid', 'Sphere', 'Quadric', 'Asphere', 'Zernike', 'Bicubic'}
MED = {'ConstMedium', 'TableMedium', 'SellmeierMedium', 'SumitaMedium', 'Air'}
OBS = {'ObscCircle', 'ObscAnnulus', 'ObscRectangle', 'ObscRay', 'ObscPolygon'}
# what need not be given, and what is then taken
OPTIONAL = dict(Zernike=['R_outer', 'R_inner', 'x_origin', 'y_origin'], Bicubic=['nanpolicy'], Asphere=['imin'], Air=['pressure', 'temperature', 'h2o_pressure'],
                ObscCircle=['x', 'y'], ObscAnnulus=['x', 'y'], ObscRectangle=['x', 'y', 'theta'], ObscRay=['x', 'y'])
DEFAULT = dict(R_outer=1.0, R_inner=0.0, x_origin=0, y_origin=0, nanpolicy='nan', imin=2, pressure=69.328, temperature=293.15, h2o_pressure=1.067,
               x=0.0, y=0.0, theta=0.0)


def frozen(c):
    """a copy of a configuration, deep"""
    if isinstance(c, dict):
        return {k: frozen(v) for k, v in c.items()}
    if isinstance(c, (list, tuple)):
        return type(c)(frozen(v) for v in c)
    if isinstance(c, SArr):
        return c.copy()
    return c


def unaltered(u, what, c, was):
    if isinstance(was, dict):
        ok = isinstance(c, dict) and list(c) == list(was)
        u.post(what + ': the configuration keeps its entries', tm.const(ok))
        if ok:
            for k in was:
                unaltered(u, what, c[k], was[k])
        return
    if isinstance(was, (list, tuple)):
        ok = type(c) is type(was) and len(c) == len(was)
        u.post(what + ': the configuration keeps its lists', tm.const(ok))
        if ok:
            for x, y in zip(c, was):
                unaltered(u, what, x, y)
        return
    if isinstance(was, (str, type(None))) or not (isinstance(was, SArr) or val(was) is not None):
        u.post(what + ': the configuration keeps its values', tm.const(c is was or c == was))
        return
    peq(u, what + ': the configuration keeps its values', c, was)


def parsed(u, what, f, cfg, *a, **k):
    was = frozen(cfg)
    r = f(cfg, *a, **k)
    unaltered(u, what, cfg, was)
    return r


def refused(u, what, f):
    u.post(what + ' is refused', tm.const(isfail(f, Exception)))


def orders(d):
    """the entries of a configuration in a few orders"""
    l = list(d.items())
    yield dict(l)
    yield dict(l[::-1])
    yield dict(l[1:] + l[:1])


def table(kind, fn):
    """one kind of part: every choice of optional entries, several orders; errors"""
    def go(u):
        w, b = start(u)
        f = getattr(b.parse, fn)
        for kd, par, lab in KINDS:
            if kd != kind:
                continue
            if kind == 'Bicubic':
                for c in 'xy':
                    n = [x for x in arr('p' + c + 's', 3 if c == 'x' and lab == '' else 2)]
                    u.assume(tm.ne(term(n[0]), term(n[-1])))
            p = par(b, 'p')
            o = [k for k in OPTIONAL.get(kind, []) if k in p]
            for n in range(len(o) + 1):
                for drop in itertools.combinations(o, n):
                    q = {k: v for k, v in p.items() if k not in drop}
                    full = dict(p)
                    full.update({k: DEFAULT[k] for k in drop})
                    want = make(b, kind, full)
                    for cfg in orders(dict(type=kind, **q)):
                        x = parsed(u, kind + lab, f, cfg)
                        u.post('the type named', tm.const(type(x) is getattr(b, kind)))
                        if type(x) is getattr(b, kind):
                            same(u, 'the object described', x, want)
            for k in p:
                if k not in o and not (kind == 'Bicubic' and k.startswith('d')):
                    refused(u, 'missing ' + k, lambda: f({'type': kind, **{j: v for j, v in p.items() if j != k}}))
            if kind not in ('SellmeierMedium', 'SumitaMedium'):
                refused(u, 'an unknown parameter', lambda: f({'type': kind, 'nonsense': 1.0, **p}))
    return go


def u_unknown(u):
    w, b = start(u)
    P = b.parse
    for f in (P.parse_surface, P.parse_obscuration, P.parse_medium, P.parse_optic):
        for cfg in (dict(type='Nonsense'), dict(type=''), dict(), dict(R=1.0), dict(type='Nonsense', R=real('R'), surface=dict(type='Plane'))):
            refused(u, 'an unknown or missing type', lambda: f(dict(cfg)))
    for t in ('Sphere', 'ConstMedium', 'Mirror', 'Clear', 'ClearNonsense', 'Obsc'):
        refused(u, 'obscuration of type ' + t, lambda: P.parse_obscuration(dict(type=t, R=1.0, n=1.0, surface=dict(type='Plane'))))
    for t in ('Sphere', 'ObscCircle', 'ConstMedium', 'CoordSys', 'Optic'):
        refused(u, 'optic of type ' + t, lambda: P.parse_optic(dict(type=t, R=1.0, radius=1.0, n=1.0, surface=dict(type='Plane'))))
    refused(u, 'a sum without items', lambda: P.parse_surface(dict(type='Sum')))
    for t in ('ObscNegation', 'ObscUnion', 'ObscIntersection', 'ClearUnion'):
        refused(u, t + ' without parts', lambda: P.parse_obscuration(dict(type=t)))


# random trees with symbolic numbers: the structure is enumerated, the values are arbitrary
class Src:
    def __init__(s, b):
        s.b, s.n = b, 0

    def num(s):
        s.n += 1
        return real('v%d' % s.n)

    def surf(s, k):
        b, n = s.b, s.num
        if k == 'Sum':
            a, c, d = s.surf('Tilted'), s.surf('Sphere'), s.surf('Plane')
            return dict(type='Sum', items=[a[0], c[0], d[0]]), b.Sum([a[1], c[1], d[1]])
        if k == 'SumSum':
            a, c = s.surf('Sum'), s.surf('Quadric')
            return dict(items=[c[0], a[0]], type='Sum'), b.Sum([c[1], a[1]])
        p = dict(Plane=[], Tilted=['tanx', 'tany'], Sphere=['R'], Paraboloid=['R'], Quadric=['R', 'conic'])[k]
        v = {q: n() for q in p}
        return dict(type=k, **v), getattr(b, k)(*v.values())

    def obsc(s, k):
        b, n = s.b, s.num
        if k.startswith('Clear'):
            c, o = s.obsc('Obsc' + k[5:])
            return dict(c, type=k.rstrip('_')), b.ObscNegation(o)
        if k == 'ObscNegation':
            c, o = s.obsc('ObscRay_')
            return dict(original=c, type=k), b.ObscNegation(o)
        if k in ('ObscUnion', 'ObscIntersection'):
            a, c, d = s.obsc('ClearCircle_'), s.obsc('ObscRay_'), s.obsc('ObscRectangle_')
            return dict(items=[a[0], c[0], d[0]], type=k), getattr(b, k)([a[1], c[1], d[1]])
        if k == 'deep':
            a, c = s.obsc('ObscUnion'), s.obsc('ObscNegation')
            return dict(type='ObscIntersection', items=[a[0], c[0]]), b.ObscIntersection([a[1], c[1]])
        if k == 'deepneg':
            a, c = s.obsc('deep')
            return dict(type='ObscNegation', original=a), b.ObscNegation(c)
        few, k = k.endswith('_'), k.rstrip('_')
        v = dict(ObscCircle=['radius', 'x', 'y'], ObscAnnulus=['inner', 'outer', 'x', 'y'], ObscRectangle=['width', 'height', 'x', 'y', 'theta'],
                 ObscRay=['width', 'theta', 'x', 'y'])[k]
        if few:             # without the entries that have a default (printing them, which unions do, makes cases)
            v = [q for q in v if q not in ('x', 'y') and (q, k) != ('theta', 'ObscRectangle')]
        v = {q: n() for q in v}
        return dict(type=k, **v), getattr(b, k)(**v)

    def medium(s, k):
        b, n = s.b, s.num
        if k == 'num':
            v = n()
            return v, b.ConstMedium(v)
        if k == 'int':
            return 2, b.ConstMedium(2)
        if k == 'obj':
            m = b.Air()
            return m, m
        if k == 'Air':
            v = n()
            return dict(type='Air', temperature=v), b.Air(69.328, v, 1.067)
        v = [n() for _ in range(6)]
        return dict(type='SellmeierMedium', **dict(zip(['B1', 'B2', 'B3', 'C1', 'C2', 'C3'], v))), b.SellmeierMedium(*v)


def u_nested(u):
    w, b = start(u)
    S_ = Src(b)
    for k in ('Sum', 'SumSum'):
        c, o = S_.surf(k)
        same(u, 'nested sum', parsed(u, k, b.parse.parse_surface, c), o)
    for k in ('ObscNegation', 'ObscUnion', 'ObscIntersection', 'deep', 'deepneg', 'ClearCircle', 'ClearAnnulus', 'ClearRectangle', 'ClearRay', 'ClearUnion', 'ClearIntersection'):
        c, o = S_.obsc(k)
        x = parsed(u, k, b.parse.parse_obscuration, c)
        u.post('the type named', tm.const(type(x) is type(o)))
        if type(x) is type(o):
            same(u, k, x, o)
    xs, ys = arr('px', 3), arr('py', 3)
    same(u, 'clear polygon', b.parse.parse_obscuration(dict(type='ClearPolygon', xs=list(xs), ys=list(ys))), b.ObscNegation(b.ObscPolygon(list(xs), list(ys))))
    for n in (1, 2):
        its = [S_.obsc(k) for k in ('ObscRay', 'ClearCircle_')[:n]]
        for k in ('ObscUnion', 'ObscIntersection'):
            same(u, '%s of %d' % (k, n), b.parse.parse_obscuration(dict(type=k, items=[c for c, _ in its])), getattr(b, k)([o for _, o in its]))


def u_medium(u):
    w, b = start(u)
    f = b.parse.parse_medium
    S_ = Src(b)
    for k in ('num', 'int', 'obj', 'Air', 'Sellmeier'):
        c, o = S_.medium(k)
        x = parsed(u, k, f, c)
        same(u, 'medium', x, o)
        if k == 'obj':
            u.post('a medium is taken as it is', tm.const(x is c))
    u.post('none stays none', tm.const(f(None) is None))
    same(u, 'a number', f(1.5), b.ConstMedium(1.5))
    same(u, 'a whole number', f(1), b.ConstMedium(1))


# ------------------------------------------------------------------ coordinate systems
def moves(b):
    """contracts of CoordSys.shiftLocal and rotateLocal (P02)"""
    C = b.CoordSys
    sl, rl = C.shiftLocal, C.rotateLocal

    def shiftLocal(s, dr):
        return C(NP.array(addv(list(s.origin), mulv(rows(s.rot), list(dr)))), s.rot)

    def rotateLocal(s, rot, rotCenter=(0, 0, 0), coordSys=None):
        if coordSys is not None or tuple(rotCenter) != (0, 0, 0):
            return rl(s, rot, rotCenter, coordSys)
        return C(s.origin, NP.array(mm(rows(s.rot), rows(rot))))
    C.shiftLocal, C.rotateLocal = shiftLocal, rotateLocal


def rows(m):
    return [[m[i, j] for j in range(3)] for i in range(3)]


def turn(k, th):
    s, c = NP.sin(th), NP.cos(th)
    return dict(rotX=[[1, 0, 0], [0, c, neg(s)], [0, s, c]], rotY=[[c, 0, s], [0, 1, 0], [neg(s), 0, c]], rotZ=[[c, neg(s), 0], [s, c, 0], [0, 0, 1]])[k]


def place(o, r, cfg):
    for k, v in cfg:
        if k in ('x', 'y', 'z'):
            d = [0.0] * 3
            d['xyz'.index(k)] = v
            o = addv(o, mulv(r, d))
        elif k == 'shift':
            o = addv(o, mulv(r, list(v)))
        else:
            r = mm(r, turn(k, v))
    return o, r


KEYS = ['x', 'y', 'z', 'shift', 'rotX', 'rotY', 'rotZ']


def u_place(n, withbase):
    def go(u):
        w, b = start(u)
        moves(b)
        if withbase:
            cs, o, r = _sys(b, u, 's', ortho=False)
            o, r = snapshot(o, r)
        else:
            o, r = [0.0] * 3, [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]
        for ks in itertools.permutations(KEYS, n):
            cfg = {k: ([real('shift' + c) for c in 'xyz'] if k == 'shift' else real('c_' + k)) for k in ks}
            c = parsed(u, 'coordSys', b.parse.parse_coordSys, cfg, *([cs] if withbase else []))
            wo, wr = place(o, r, cfg.items())
            what = ', '.join(ks) or 'nothing'
            peq(u, 'origin after ' + what, list(c.origin), wo)
            peq(u, 'axes after ' + what, rows(c.rot), wr)
        if withbase:
            peq(u, "the parent's system stays as it was", list(cs.origin), o)
            peq(u, "the parent's system stays as it was", rows(cs.rot), r)
    return go


# ------------------------------------------------------------------ optics
SIMPLE = ['Mirror', 'RefractiveInterface', 'OPDScreen', 'Baffle', 'Detector', 'Interface']
EXTRA = ['backDist', 'sphereRadius', 'pupilSize', 'pupilObscuration', 'R_outer', 'R_inner']


def ref(b, cfg, made, cs=None, im=None, om=None):
    """the optic a configuration describes; `made` gives the object of every part (surface, medium, obscuration) by the
    identity of its configuration"""
    get = lambda c: made[id(c)][1]
    o, r = (list(cs.origin), rows(cs.rot)) if cs is not None else ([0.0] * 3, [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]])
    o, r = place(o, r, cfg.get('coordSys', {}).items())
    cs = b.CoordSys(NP.array(o), NP.array(r))
    im = get(cfg['inMedium']) if 'inMedium' in cfg else im if im is not None else b.ConstMedium(1.0)
    om = get(cfg['outMedium']) if 'outMedium' in cfg else om if om is not None else im
    kw = dict(name=cfg.get('name', ''), coordSys=cs, inMedium=im, outMedium=om)
    for k in EXTRA:
        if k in cfg:
            kw[k] = cfg[k]
    if 'stopSurface' in cfg:
        kw['stopSurface'] = ref(b, cfg['stopSurface'], made)
    t = cfg['type']
    if t in SIMPLE:
        kw['obscuration'] = get(cfg['obscuration']) if 'obscuration' in cfg else None
        if t == 'OPDScreen':
            return b.optic.OPDScreen(get(cfg['surface']), get(cfg['screen']), **kw)
        return getattr(b.optic, t)(get(cfg['surface']), **kw)
    if t == 'Lens':
        m = get(cfg['medium'])
        a, c = cfg['items']
        return b.optic.Lens([ref(b, a, made, cs, im, m), ref(b, c, made, cs, m, om)], medium=m, **kw)
    return b.optic.CompoundOptic([ref(b, c, made, cs, im, om) for c in cfg['items']], **kw)


class Gen:
    """configurations with arbitrary numbers; keeps the object every part stands for"""

    def __init__(s, b):
        s.s, s.made, s.k = Src(b), {}, 0

    def part(s, p):
        c, o = p
        if isinstance(c, (int, str)):
            raise Unsupported('part without identity')
        s.made[id(c)] = (c, o)
        return c

    def surf(s, k):
        return s.part(s.s.surf(k))

    def obsc(s, k):
        return s.part(s.s.obsc(k))

    def medium(s, k):
        return s.part(s.s.medium(k))

    def cs(s, ks):
        return {k: ([s.s.num() for _ in 'xyz'] if k == 'shift' else s.s.num()) for k in ks}

    def simple(s, t, surf='Quadric', **kw):
        s.k += 1
        d = dict(type=t, surface=s.surf(surf))
        if t == 'OPDScreen':
            d['screen'] = s.surf('Tilted')
        d.update(kw)
        return d


def run(u, b, g, what, cfg, children, *a):
    """parse cfg; children (if asked for) by contract"""
    real_ = b.parse.parse_optic
    if children:
        def contract(c, coordSys=None, inMedium=None, outMedium=None):
            if c is cfg:
                return real_(c, coordSys, inMedium, outMedium)
            return ref(b, frozenkeep(c), g.made, coordSys, inMedium, outMedium)
        b.parse.parse_optic = contract
    try:
        x = parsed(u, what, real_, cfg, *a)
    finally:
        b.parse.parse_optic = real_
    names_ = ('cs', 'im', 'om')
    want = ref(b, cfg, g.made, *a)
    u.post(what + ': the type named', tm.const(type(x) is type(want)))
    if type(x) is type(want):
        same(u, what, x, want)
    return x


def frozenkeep(c):
    return dict(c)


def u_simple(t):
    def go(u):
        w, b = start(u)
        moves(b)
        g = Gen(b)
        cs, o, r = _sys(b, u, 's', ortho=False)
        im, om = b.ConstMedium(real('nin')), b.Air()
        both = t == 'OPDScreen'
        for a in ((), (cs, im), (cs, im, im if both else om)):
            run(u, b, g, 'bare', g.simple(t), False, *a)
            run(u, b, g, 'named', g.simple(t, name='M1'), False, *a)
            run(u, b, g, 'placed', g.simple(t, coordSys=g.cs(['rotY', 'z', 'shift']), name='M1'), False, *a)
            for k in ('ObscCircle', 'ClearCircle', 'ClearAnnulus', 'ObscAnnulus', 'ObscUnion', 'ObscRectangle'):
                run(u, b, g, 'obscured by ' + k, g.simple(t, obscuration=g.obsc(k)), False, *a)
            for k in ('Plane', 'Sum', 'Paraboloid'):
                run(u, b, g, 'surface ' + k, g.simple(t, k), False, *a)
            for k in ('num', 'Air', 'obj', 'Sellmeier'):
                m = g.medium(k)
                run(u, b, g, 'media', g.simple(t, inMedium=m, outMedium=m), False, *a)
                if not (both and len(a) == 3):
                    run(u, b, g, 'inMedium', g.simple(t, inMedium=m), False, *a)
                if not both:
                    m2 = g.medium(k if k != 'obj' else 'num')
                    run(u, b, g, 'outMedium', g.simple(t, outMedium=m2), False, *a)
                    run(u, b, g, 'two media', g.simple(t, outMedium=m2, inMedium=m), False, *a)
            for n in (1, 2, len(EXTRA)):
                for es in itertools.combinations(EXTRA, n):
                    run(u, b, g, 'with ' + ', '.join(es), g.simple(t, **{e: g.s.num() for e in es}), False, *a)
            run(u, b, g, 'zeros', g.simple(t, **{e: 0.0 for e in EXTRA}), False, *a)
            st = g.simple('Interface', 'Plane', coordSys=g.cs(['z', 'rotX']), name='stop')
            run(u, b, g, 'with a stop', g.simple(t, stopSurface=st, coordSys=g.cs(['x'])), True, *a)
        d = g.simple(t)
        for k in d:
            refused(u, 'missing ' + k, lambda: b.parse.parse_optic({j: v for j, v in d.items() if j != k}))
    return go


def u_lens(u):
    w, b = start(u)
    moves(b)
    g = Gen(b)
    cs, o, r = _sys(b, u, 's', ortho=False)
    im, om = b.ConstMedium(real('nin')), b.Air()

    def it(**k):
        return g.simple('RefractiveInterface', **k)

    def items():
        return [it(name='a', coordSys=g.cs(['z'])), it(name='b', coordSys=g.cs(['z', 'rotX']))]
    for a in ((), (cs, im), (cs, im, om)):
        for m in ('num', 'obj', 'Sellmeier', 'Air'):
            run(u, b, g, 'lens', dict(type='Lens', items=items(), medium=g.medium(m), name='L1'), True, *a)
        run(u, b, g, 'placed', dict(type='Lens', items=items(), medium=g.medium('num'), coordSys=g.cs(['rotZ', 'shift'])), True, *a)
        run(u, b, g, 'inMedium', dict(type='Lens', items=items(), medium=g.medium('num'), inMedium=g.medium('Air')), True, *a)
        run(u, b, g, 'outMedium', dict(type='Lens', items=items(), medium=g.medium('num'), outMedium=g.medium('Air')), True, *a)
        run(u, b, g, 'both', dict(type='Lens', items=items(), outMedium=g.medium('num'), medium=g.medium('num'), inMedium=g.medium('Air')), True, *a)
        run(u, b, g, 'extras', dict(type='Lens', items=items(), medium=g.medium('num'), **{e: g.s.num() for e in EXTRA}), True, *a)
        run(u, b, g, 'stop', dict(type='Lens', items=items(), medium=g.medium('num'), stopSurface=g.simple('Interface', 'Plane', coordSys=g.cs(['z']))), True, *a)
    d = dict(type='Lens', items=items(), medium=g.medium('num'))
    for k in d:
        refused(u, 'missing ' + k, lambda: b.parse.parse_optic({j: v for j, v in d.items() if j != k}))


def u_compound(n):
    def go(u):
        w, b = start(u)
        moves(b)
        g = Gen(b)
        cs, o, r = _sys(b, u, 's', ortho=False)
        im, om = b.ConstMedium(real('nin')), b.Air()
        T_ = ['Mirror', 'Interface', 'Detector']

        def items():
            return [g.simple(T_[i % 3], name='i%d' % i, coordSys=g.cs(['z', 'rotY'][:i + 1])) for i in range(n)]
        for a in ((), (cs, im), (cs, im, om)):
            C = lambda **k: run(u, b, g, 'compound', dict(type='CompoundOptic', items=items(), **k), True, *a)
            C()
            C(name='C', coordSys=g.cs(['shift', 'rotX']))
            C(inMedium=g.medium('num'))
            C(outMedium=g.medium('Sellmeier'))
            C(outMedium=g.medium('num'), inMedium=g.medium('obj'))
            C(**{e: g.s.num() for e in EXTRA})
            C(stopSurface=g.simple('Interface', 'Plane', coordSys=g.cs(['z'])))
        refused(u, 'missing items', lambda: b.parse.parse_optic(dict(type='CompoundOptic', name='C')))
        refused(u, 'missing type', lambda: b.parse.parse_optic(dict(items=items(), name='C')))
    return go


def u_tree(u):
    """whole trees, nothing by contract but the moves"""
    w, b = start(u)
    moves(b)
    g = Gen(b)
    lens = lambda nm: dict(type='Lens', name=nm, medium=g.medium('Sellmeier'), coordSys=g.cs(['z', 'rotX']), items=[
        g.simple('RefractiveInterface', name=nm + 'a', coordSys=g.cs(['z']), obscuration=g.obsc('ClearCircle')),
        g.simple('RefractiveInterface', 'Sum', name=nm + 'b', coordSys=g.cs(['rotY', 'shift']))])
    cam = dict(name='cam', items=[lens('L1'), g.simple('Baffle', 'Plane', name='B', obscuration=g.obsc('ObscUnion')), lens('L2'), g.simple('Detector', name='D')],
               type='CompoundOptic', coordSys=g.cs(['y', 'rotZ']), inMedium=g.medium('num'))
    top = dict(type='CompoundOptic', name='T', inMedium=g.medium('Air'), backDist=g.s.num(), pupilSize=g.s.num(), pupilObscuration=g.s.num(), sphereRadius=g.s.num(),
               stopSurface=g.simple('Interface', 'Plane', coordSys=g.cs(['z'])), coordSys=g.cs(['x', 'rotX', 'shift', 'rotY']),
               items=[g.simple('Mirror', name='M1', R_outer=g.s.num(), obscuration=g.obsc('ClearAnnulus')), cam, g.simple('OPDScreen', name='S')])
    run(u, b, g, 'tree', top, False)
    shared = g.simple('Mirror', name='M')
    both = dict(type='CompoundOptic', items=[shared, shared], name='two')
    run(u, b, g, 'one configuration used twice', both, False)
    run(u, b, g, 'parsed again', both, False)


def u_yaml(u):
    y = types.ModuleType('yaml')
    cfg = {}
    y.safe_load = lambda f: cfg
    import u_pyobj
    w, b = begin(u, World, dict(galsim=u_pyobj.galsim(), yaml=y))
    moves(b)
    g = Gen(b)
    cfg.update(opticalSystem=dict(type='CompoundOptic', name='T', items=[g.simple('Mirror', name='M', coordSys=g.cs(['z']))]), other=dict(type='Nonsense'))
    for c in (b.optic.Optic, b.optic.CompoundOptic):
        x = c.fromYaml('/dev/null')
        same(u, 'the optical system of the file', x, ref(b, cfg['opticalSystem'], g.made))
    refused(u, 'a file that is not there', lambda: b.optic.Optic.fromYaml('/nowhere/no such file'))
    del cfg['opticalSystem']
    refused(u, 'a file without an optical system', lambda: b.optic.Optic.fromYaml('/dev/null'))


def units():
    us = []
    fixed = {'Asphere', 'Zernike', 'Bicubic', 'TableMedium', 'ObscPolygon'}
    for ks, fn in ((SURF, 'parse_surface'), (MED, 'parse_medium'), (OBS, 'parse_obscuration')):
        for k in sorted(ks):
            d = punit('%s of %s' % (fn, k), [PA + fn], table(k, fn))
            us.append(bounded(d, 'the number of entries of lists is fixed; their values are arbitrary') if k in fixed else d)
    us.append(bounded(punit('nested sums and obscurations', [PA + 'parse_surface', PA + 'parse_obscuration'], u_nested), 'up to three levels'))
    us.append(punit('unknown types, missing fields', [PA + f for f in ('parse_surface', 'parse_obscuration', 'parse_medium', 'parse_optic')], u_unknown))
    us.append(punit('parse_medium of numbers and media', [PA + 'parse_medium'], u_medium))
    for n in range(4):
        us.append(bounded(punit('parse_coordSys, %d entries' % n, [PA + 'parse_coordSys'], u_place(n, True)), 'up to three entries, every order'))
    us.append(bounded(punit('parse_coordSys without a parent', [PA + 'parse_coordSys'], u_place(2, False)), 'two entries, every order'))
    us += [punit('parse_optic: ' + t, [PA + 'parse_optic'], u_simple(t)) for t in SIMPLE]
    us.append(punit('parse_optic: Lens, its parts by contract', [PA + 'parse_optic'], u_lens))
    us += [bounded(punit('parse_optic: CompoundOptic of %d, its parts by contract' % n, [PA + 'parse_optic'], u_compound(n)), 'up to three parts') for n in (0, 1, 2, 3)]
    us.append(bounded(punit('parse_optic: whole trees', [PA + 'parse_optic'], u_tree), 'three levels'))
    us.append(punit('Optic.fromYaml', ['batoid/optic.py::Optic.fromYaml'], u_yaml))
    return us
