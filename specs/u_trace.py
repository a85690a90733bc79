"""Python entry points of the ray kernels (batoid/trace.py and the methods that call them), and the
composition of traces (batoid/optic.py; P19)."""
import types
from pw import *
from u_coord import TWorld, _sys, rays, fwd_spec, mulv, mulT, subv, mm, snapshot
from u_bundle import replace

TR = 'batoid/trace.py::'
SU = 'batoid/surface.py::Surface.'


class KWorld(TWorld):
    """the kernels of _batoid: calls are recorded, and the rays afterwards are new (P03, P06, P07, P09, P10, P13)"""

    def __init__(s, u):
        super().__init__(u)
        s.k = []

    def count(s, mask):
        ix = tuple(pysym.bound(d, 'i%d' % k) for k, d in enumerate(mask.dims))
        b = pysym.nofork(lambda: tm.ite(pysym.boolterm(pysym.cast1(mask.at(ix), 'b')), ONE, ZERO))
        t = tm.app('Count%d' % len(ix), tuple(term(pysym.dimnum(d)) for d in mask.dims) + (b,), I)
        s.u.e.assume(tm.le(tm.IZERO, t))
        return mk(t)

    def _kernel(s, name, ix, a):
        hs = [a[i] for i in ix]
        pre = [{q: h.f[q].snap() for q in RVF} for h in hs]
        s.k.append((name, a, pre))
        t = len(s.k)
        for j, h in enumerate(hs):
            for q in RVF:
                so = B if q in ('vignetted', 'failed') else R
                h.f[q]._store(lambda i, q=q, j=j, so=so: mk(tm.app('out%d_%d%s' % (t, j, q), (tm.wrap(i[0], I),), so)), None)

    def fn_intersect(s, *a):
        s._kernel('intersect', [3], a)

    def fn_reflect(s, *a):
        s._kernel('reflect', [3], a)

    def fn_refract(s, *a):
        s._kernel('refract', [5], a)

    def fn_rSplit(s, *a):
        s._kernel('rSplit', [6, 7], a)

    def fn_refractScreen(s, *a):
        s._kernel('refractScreen', [4], a)

    def fn_obscure(s, *a):
        s._kernel('obscure', [1], a)


def handle(u, what, h, rv_, RV):
    """the kernel works on the memory of these rays"""
    ok = all(getattr(h, 'f', {}).get(q) is getattr(rv_, '_' + q) for q in RVF)
    u.post(what + ': the kernel works on the arrays of the rays', tm.const(ok))
    if not ok:
        raise PathEnd()
    posts_true(u, what + ': on all of them', pysym.cmp('==', h.n, rv_._x.slen()))


def setup(u):
    w, b = begin(u, KWorld)
    n = intv('n')
    u.assume(tm.le(tm.IONE, n.v))
    s1, o1, r1 = _sys(b, u, 'a')
    s2, o2, r2 = _sys(b, u, 'b')
    rv_ = rays(b, 'r', n, s1)
    surf = b.Plane.__new__(b.Plane)
    surf._surface = CObj(w, 'CPPX', ())
    return w, b, n, (s1, snapshot(o1, r1)), (s2, snapshot(o2, r2)), rv_, surf


def transform(u, dr, m, A1, A2):
    """the change of coordinates from the system of the rays to the target (P01)"""
    (o1, r1), (o2, r2) = A1, A2
    peq(u, 'origin of the target seen from the system of the rays', dr, mulT(r1, subv(o2, o1)))
    m = list(m)
    peq(u, 'axes of the target seen from the system of the rays', [m[3 * i:3 * i + 3] for i in range(3)],
        mm([[r1[j][i] for j in range(3)] for i in range(3)], r2))


def u_wrap(op, given, how):
    """given: target system given or left out; how: coating given / None, or entry point"""
    def go(u):
        w, b, n, (s1, A1), (s2, A2), rv_, surf = setup(u)
        g = w.pkg.load('batoid.global_vars')
        thr, nit = intv('threads'), intv('niter')
        g._batoid_max_threads, g._batoid_niter = thr, nit
        cf = CObj(w, 'CPPCoating', ())

        class Coat:
            _coating = cf
        m1, m2 = [types.SimpleNamespace(_medium=CObj(w, 'CPPMed%d' % i, ())) for i in (1, 2)]
        kw = dict(coordSys=s2) if given else {}
        T2 = s2 if given else s1
        X2 = A2 if given else A1
        co = None
        if how == 'coating':
            kw['coating'] = Coat
            co = cf
        ks = {q: getattr(rv_, '_' + q).snap() for q in RVF}
        tr = w.pkg.load('batoid.trace')
        fn = how == 'function'
        if op in ('intersect', 'reflect'):
            got = getattr(tr, op)(surf, rv_, **kw) if fn else getattr(surf, op)(rv_, **kw)
            lay = dict(surf=0, dr=1, m=2, rv=3, coat=4, thr=5, nit=6, n=7)
        elif op == 'refract':
            got = tr.refract(surf, rv_, m1, m2, **kw) if fn else surf.refract(rv_, m1, m2, **kw)
            lay = dict(surf=0, dr=1, m=2, m1=3, m2=4, rv=5, coat=6, thr=7, nit=8, n=9)
        elif op == 'rSplit':
            got = tr.rSplit(surf, rv_, m1, m2, Coat, **kw) if fn else surf.rSplit(rv_, m1, m2, Coat, **kw)
            lay = dict(surf=0, dr=1, m=2, m1=3, m2=4, coat=5, rv=6, thr=8, nit=9, n=10)
            co = cf
        elif op == 'refractScreen':
            scr = b.Plane.__new__(b.Plane)
            scr._surface = CObj(w, 'CPPY', ())
            got = tr.refractScreen(surf, rv_, scr, **kw) if fn else surf.refractScreen(rv_, scr, **kw)
            lay = dict(surf=0, dr=1, m=2, scr=3, rv=4, thr=5, nit=6, n=7)
        u.post('one call of the kernel', tm.const([k[0] for k in w.k] == [op] and len(w.k[0][1]) == lay['n']))
        a, pre = w.k[0][1], w.k[0][2]
        u.post('the surface of the object', tm.const(a[lay['surf']] is surf._surface))
        transform(u, a[lay['dr']], a[lay['m']], A1, X2)
        if op == 'rSplit':
            ok = isinstance(got, tuple) and len(got) == 2 and got[0] is not got[1] and isinstance(got[1], b.RayVector)
            u.post('two batches: transmitted, reflected', tm.const(ok))
            if not ok:
                raise PathEnd()
            u.post('the transmitted rays are the rays given', tm.const(got[0] is rv_))
            handle(u, 'transmitted', a[6], got[0], b)
            handle(u, 'reflected', a[7], got[1], b)
            i = intv('i')
            u.assume(tm.le(tm.IZERO, i.v), tm.lt(i.v, n.v))
            for q in RVF:
                peq(u, 'the kernel gets the rays given: ' + q, pre[0][q]((i.v,)), ks[q]((i.v,)))
                peq(u, 'and room for as many: ' + q, pre[1][q]((i.v,)), ks[q]((i.v,)))
                u.post('in memory of their own: ' + q, tm.const(getattr(got[0], '_' + q) is not getattr(got[1], '_' + q)))
            u.post('both in the target system', tm.const(got[0].coordSys is T2 and got[1].coordSys is T2))
        else:
            u.post('the rays given are returned', tm.const(got is rv_))
            handle(u, 'rays', a[lay['rv']], rv_, b)
            i = intv('i')
            u.assume(tm.le(tm.IZERO, i.v), tm.lt(i.v, n.v))
            for q in RVF:
                peq(u, 'the kernel gets the rays given: ' + q, pre[0][q]((i.v,)), ks[q]((i.v,)))
            u.post('the rays are in the target system', tm.const(rv_.coordSys is T2))
        if 'm1' in lay:
            u.post('media: incoming, outgoing', tm.const(a[lay['m1']] is m1._medium and a[lay['m2']] is m2._medium))
        if 'coat' in lay:
            u.post('coating', tm.const(a[lay['coat']] is co))
        if 'scr' in lay:
            u.post('phase screen', tm.const(a[lay['scr']] is scr._surface))
        peq(u, 'number of threads', a[lay['thr']], thr)
        peq(u, 'number of iterations', a[lay['nit']], nit)
        for s, (o, r) in ((s1, A1), (s2, A2)):
            peq(u, 'the systems are left alone', s.origin, o)
            peq(u, 'the systems are left alone', s.rot, r)
    return go


def u_obscure(u):
    w, b, n, (s1, A1), _, rv_, surf = setup(u)
    g = w.pkg.load('batoid.global_vars')
    thr = intv('threads')
    g._batoid_max_threads = thr
    ob = b.ObscCircle.__new__(b.ObscCircle)
    ob._obsc = CObj(w, 'CPPO', ())
    ks = {q: getattr(rv_, '_' + q).snap() for q in RVF}
    got = ob.obscure(rv_)
    u.post('one call of the kernel', tm.const([k[0] for k in w.k] == ['obscure'] and len(w.k[0][1]) == 3))
    a, pre = w.k[0][1], w.k[0][2]
    u.post('the region of the object', tm.const(a[0] is ob._obsc))
    handle(u, 'rays', a[1], rv_, b)
    peq(u, 'number of threads', a[2], thr)
    i = intv('i')
    u.assume(tm.le(tm.IZERO, i.v), tm.lt(i.v, n.v))
    for q in RVF:
        peq(u, 'the kernel gets the rays given: ' + q, pre[0][q]((i.v,)), ks[q]((i.v,)))
    u.post('the rays given are returned, in their system', tm.const(got is rv_ and rv_.coordSys is s1))


def wrappers(*ops):
    us = []
    for op in ops:
        if op == 'obscure':
            us.append(punit('obscure (Python)', [TR + 'obscure', 'batoid/obscuration.py::Obscuration.obscure'], u_obscure))
            continue
        hows = ['method', 'function'] + (['coating'] if op in ('intersect', 'reflect', 'refract') else [])
        for how in hows:
            for given in (0, 1):
                us.append(punit('%s (Python %s%s)' % (op, {'coating': 'method with coating'}.get(how, how), ', target system given' if given else ''),
                                [TR + op, SU + op, 'batoid/coordTransform.py::CoordTransform.__init__', 'batoid/rayVector.py::RayVector._rv']
                                + (['batoid/rayVector.py::RayVector.copy'] if op == 'rSplit' else []), u_wrap(op, given, how)))
    return us


# ------------------------------------------------------------------ composition (batoid/optic.py)
OP = 'batoid/optic.py::'


class Hist:
    """a batch of rays, known by what was done to it"""

    def __init__(s, h=('start',), cs='cs0'):
        s.h, s.coordSys = h, cs

    def copy(s):
        r = Hist(s.h, s.coordSys)
        if 'path' in s.__dict__:
            r.path = s.path
        return r

    def __len__(s):
        return 1

    def do(s, *op):
        s.h = s.h + (op,)
        return s


class Surf:
    """contracts of the surface operations (units of trace.py): the rays given are changed in place and
    returned, in the coordinate system given"""

    def __init__(s, tag='S'):
        s.tag = tag

    def _do(s, rv_, coordSys, *op):
        if coordSys is not None:
            rv_.coordSys = coordSys
        return rv_.do(*op, s, coordSys)

    def intersect(s, rv_, coordSys=None, coating=None):
        return s._do(rv_, coordSys, 'intersect', coating)

    def reflect(s, rv_, coordSys=None, coating=None):
        return s._do(rv_, coordSys, 'reflect', coating)

    def refract(s, rv_, inMedium, outMedium, coordSys=None, coating=None):
        return s._do(rv_, coordSys, 'refract', inMedium, outMedium, coating)

    def refractScreen(s, rv_, screen, coordSys=None):
        return s._do(rv_, coordSys, 'screen', screen)

    def rSplit(s, rv_, inMedium, outMedium, coating, coordSys=None):
        r2 = rv_.copy()
        s._do(r2, coordSys, 'split reflected', inMedium, outMedium, coating)
        s._do(rv_, coordSys, 'split transmitted', inMedium, outMedium, coating)
        return rv_, r2


class Obs:
    def obscure(s, rv_):
        return rv_.do('obscure', s)


class Tag:
    def __init__(s, n):
        s.n = n

    def __repr__(s):
        return s.n


CLASSES = ['Interface', 'RefractiveInterface', 'Mirror', 'Detector', 'Baffle', 'OPDScreen']


def element(b, kind, obs, name='e', skip=False, **over):
    """an elementary part with everything told apart"""
    m = types.SimpleNamespace()
    m.kind, m.surf, m.cs = kind, Surf(), Tag('cs')
    m.m1, m.m2 = Tag('m1'), Tag('m2')
    m.f, m.r = Tag('fcoat'), Tag('rcoat')
    m.obs = Obs() if obs else None
    kw = dict(name=name, coordSys=m.cs, inMedium=m.m1, outMedium=m.m2, skip=skip)
    kw.update(over)
    if obs:
        kw['obscuration'] = m.obs
    if kind == 'OPDScreen':
        kw['outMedium'] = m.m2 = m.m1
        m.screen = Tag('screen')
        m.e = b.OPDScreen(m.surf, m.screen, **kw)
    else:
        if kind != 'Interface':
            kw.update(forwardCoating=m.f, reverseCoating=m.r)
        m.e = getattr(b, kind)(m.surf, **kw)
    return m


def op(m, rev, obscure=True):
    """what the part does to rays"""
    k = m.kind
    if k == 'RefractiveInterface':
        a, c = (m.m2, m.m1) if rev else (m.m1, m.m2)
        o = ('refract', a, c, None)
    elif k == 'Mirror':
        o = ('reflect', None)
    elif k == 'OPDScreen':
        o = ('screen', m.screen)
    else:
        o = ('intersect', None)
    r = (o + (m.surf, m.cs),)
    if obscure and m.obs is not None:
        r += (('obscure', m.obs),)
    return r


def same(u, name, got, want):
    u.post(name, tm.const(got == want))


def u_leaf(kind):
    def go(u):
        w, b = begin(u)
        for obs in (0, 1):
            for rev in (False, True):
                for kw in ([{}] if not rev else []) + [dict(reverse=rev)]:
                    m = element(b, kind, obs)
                    r = Hist()
                    got = m.e.trace(r, **kw)
                    u.post('trace works on the rays given', tm.const(got is r))
                    same(u, 'trace: the element between its media, then its obscuration', r.h, ('start',) + op(m, rev))
                    u.post('the rays are in the system of the element', tm.const(r.coordSys is m.cs))
                    r = Hist()
                    got = m.e.interact(r, **kw)
                    same(u, 'interact: the element without obscuration', (got is r, r.h), (True, ('start',) + op(m, rev, False)))
                    r = Hist()
                    got = m.e.intersect(r, **kw)
                    same(u, 'intersect: only the surface', (got is r, r.h), (True, ('start', ('intersect', None, m.surf, m.cs))))
                    for nm in {'RefractiveInterface': ['refract'], 'OPDScreen': ['refract'], 'Mirror': ['reflect']}.get(kind, []):
                        r = Hist()
                        got = getattr(m.e, nm)(r, **kw)
                        same(u, nm + ': the element', (got is r, r.h), (True, ('start',) + op(m, rev, False)))
                    # record
                    r = Hist()
                    tf = m.e.traceFull(r, **kw)
                    ok = list(tf) == ['e'] and set(tf['e']) == {'name', 'in', 'out'}
                    u.post('traceFull: one entry, under the name', tm.const(ok))
                    if ok:
                        t = tf['e']
                        same(u, 'traceFull: name, input and output', (t['name'], t['in'].h, t['out'].h, t['out'].coordSys is m.cs),
                             ('e', ('start',), ('start',) + op(m, rev), True))
                        same(u, 'traceFull leaves the rays given alone', (r.h, r.coordSys), (('start',), 'cs0'))
                    s = element(b, kind, obs, skip=True)
                    u.post('traceFull: no entry when skipped', tm.const(len(s.e.traceFull(Hist(), **kw)) == 0))
    return go


def split(m, rev):
    """(transmitted, reflected) operations"""
    o = (('obscure', m.obs),) if m.obs is not None else ()
    if m.kind == 'Mirror':
        return None, op(m, rev)
    if m.kind in ('Baffle', 'OPDScreen'):
        return op(m, rev), None
    if rev:
        t = (m.m2, m.m1, m.r, m.surf, m.cs)
    else:
        t = (m.m1, m.m2, m.f, m.surf, m.cs)
    return (('split transmitted',) + t,) + o, (('split reflected',) + t,) + o


def u_leafsplit(kind):
    def go(u):
        w, b = begin(u)
        for obs in (0, 1):
            for rev in (False, True):
                if rev and kind == 'Detector':
                    continue
                for path in (None, ['p', 'q']):
                    m = element(b, kind, obs)
                    r = Hist()
                    if path is not None:
                        r.path = list(path)
                        keep = r.path
                    fw, bw = m.e.traceSplit(r, reverse=rev)
                    t, x = split(m, rev)
                    # transmitted rays go on through the train, reflected ones turn; at a mirror it is the
                    # reflected rays that go on
                    on, back = (x, t) if kind == 'Mirror' else (t, x)
                    wf, wb = (back, on) if rev else (on, back)
                    h = lambda l: [None if q is None else q.h for q in l]
                    ww = lambda q: [None if q is None else ('start',) + q]
                    same(u, 'split: forward and backward rays', (h(fw), h(bw)), (ww(wf), ww(wb)))
                    for q in fw + bw:
                        if q is not None:
                            same(u, 'split: path', q.path, (path or []) + ['e'])
                            u.post('split: system', tm.const(q.coordSys is m.cs))
                    if path is not None:
                        same(u, 'split: the path of the incoming rays is left alone', keep, path)
                    m = element(b, kind, obs, skip=True)
                    r = Hist()
                    if path is not None:
                        r.path = list(path)
                    fw, bw = m.e.traceSplit(r, reverse=rev)
                    u.post('split: a skipped part passes the rays on', tm.const((fw == [] and len(bw) == 1 and bw[0] is r) if rev
                                                                                else (bw == [] and len(fw) == 1 and fw[0] is r)))
                    same(u, 'split: a skipped part does nothing', (r.h, r.path), (('start',), path or []))
    return go


def u_defaults(u):
    """default coatings of the parts"""
    w, b = begin(u)
    got = []
    w.construct = lambda cls, a: CObj(w, cls, a)
    want = dict(RefractiveInterface=((0, 1), (0, 1)), Mirror=((1, 0), (1, 0)), Detector=((0, 1), None), Baffle=((0, 1), (0, 1)))
    for k, (f, r) in want.items():
        e = getattr(b, k)(Surf(), name='e')
        for q, v in (('forwardCoating', f), ('reverseCoating', r)):
            c = getattr(e, q)
            if v is None:
                u.post('%s: no %s' % (k, q), tm.const(c is None))
            else:
                peq(u, '%s: %s reflects, transmits' % (k, q), [c.reflectivity, c.transmissivity], [float(x) for x in v])
        u.post('%s: vacuum on both sides, global system, not skipped' % k, tm.const(
            e.inMedium is b.vacuum and e.outMedium is b.vacuum and e.coordSys is b.globalCoordSys and e.skip is False))


class Inv:
    """state of the rays before iteration k: F(k), with F(0) the rays given and F(k+1) = F(k) if part i(k) is
    skipped and part i(k) applied to F(k) otherwise"""

    def __init__(s, u, rays_, n, rev):
        s.u, s.r, s.n, s.rev = u, rays_, n, rev

    def ix(s, k):
        return tm.sub(tm.sub(s.n, tm.IONE), k) if s.rev else k

    def F(s, k):
        return tm.app('F', (k,), I)

    def havoc(s, k):
        s.r.s = s.F(k)

    def check(s, k, what):
        u = s.u
        if k is tm.IZERO:
            u.post('%s: the rays given' % what, tm.eq(s.r.s, tm.var('s0', I)))
            u.assume(tm.eq(s.F(tm.IZERO), tm.var('s0', I)))
            return
        j = tm.sub(k, tm.IONE)
        i = s.ix(j)
        sk = tm.app('skip', (i,), B)
        want = tm.ite(sk, s.F(j), tm.app('part', (i, s.F(j)), I))
        if u.e.branch(sk):
            u.post('%s: nothing for a part that is skipped' % what, tm.eq(s.r.s, s.F(j)))
        else:
            u.post('%s: the next part in order is applied, once' % what, tm.eq(s.r.s, tm.app('part', (i, s.F(j)), I)))


def u_compound(rev):
    def go(u):
        w, b = begin(u)
        n = tm.var('n', I)
        u.assume(tm.le(tm.IZERO, n))

        class Rays:
            s = tm.var('s0', I)
        r = Rays()
        inv = Inv(u, r, n, rev)
        u.e.loopinv = inv

        class Part:
            """contract of an element: trace changes the rays given in place and returns them"""

            def __init__(s, i):
                s.i = i
                s.skip = mk(tm.app('skip', (i,), B))
                s.name, s.path = 'name', ['name']

            def trace(s, rv_, reverse=False):
                u.post('the parts get the rays given, in the direction given', tm.const(rv_ is r and bool(reverse) is rev))
                if rv_ is not r:
                    raise PathEnd()
                r.s = tm.app('part', (s.i, r.s), I)
                return r
        o = b.CompoundOptic((), name='o')
        o.items = pysym.Seq(n, Part, inv)
        kw = dict(reverse=True) if rev else {}
        got = o.trace(r, **kw)
        u.post('trace returns the rays given', tm.const(got is r))
        u.post('all parts have been visited', tm.eq(r.s, inv.F(n)))
    return go


class AbsPart:
    """contract of an element in a compound: rays are changed in place; the record has m entries"""

    def __init__(s, name, m, skip=False):
        s.name, s.m, s.skip = name, m, skip
        s.path = [name]

    def trace(s, rv_, reverse=False):
        if s.m:
            rv_.do('part', s.name, bool(reverse), s.m)
        return rv_

    def traceFull(s, rv_, reverse=False):
        out = {}
        if s.skip:
            return out
        cur = rv_
        for k in range(s.m):
            nx = cur.copy()
            nx.do(*(('part', s.name, bool(reverse), s.m) if k == s.m - 1 else ('inner', s.name, k)))
            if k == s.m - 1:
                nx.h = rv_.h + (('part', s.name, bool(reverse), s.m),)
            out['%s%d' % (s.name, k)] = dict(name='%s%d' % (s.name, k), **{'in': cur, 'out': nx})
            cur = nx
        return out


def u_full(u):
    import itertools
    w, b = begin(u)
    for n in range(4):
        for ms in itertools.product(range(4), repeat=n):
            for rev in (False, True):
                ps = [AbsPart('ABC'[k], m % 3, m == 3) for k, m in enumerate(ms)]
                o = b.CompoundOptic(ps, name='o')
                r = Hist()
                tf = o.traceFull(r, reverse=rev) if rev else o.traceFull(r)
                want, cur = [], Hist()
                for p in (ps[::-1] if rev else ps):
                    t = p.traceFull(cur, rev)
                    want += [(k, v['name'], v['in'].h, v['out'].h) for k, v in t.items()]
                    for v in t.values():
                        cur = v['out']
                got = [(k, v['name'], v['in'].h, v['out'].h) for k, v in tf.items()]
                same(u, 'the record: entries of the parts in order, each output the next input', got, want)
                same(u, 'traceFull leaves the rays given alone', r.h, ('start',))
                q = Hist()
                o.trace(q, reverse=rev)
                if want:
                    same(u, 'the last output is what trace gives', got[-1][3], q.h)
                o2 = b.CompoundOptic(ps, name='o', skip=True)
                u.post('no entries for a compound that is skipped', tm.const(len(o2.traceFull(Hist(), reverse=rev)) == 0))


def walks(n, maxlen):
    """sequences of neighbouring parts, from the first"""
    l = [[0]]
    out = []
    while l:
        out += l
        l = [p + [q] for p in l if len(p) < maxlen for q in (p[-1] - 1, p[-1] + 1) if 0 <= q < n]
    return out


def u_path(u):
    w, b = begin(u)
    for obs in (0, 1):
        for idx in walks(4, 6):
            els = [element(b, k, obs, name='N%d' % j) for j, k in enumerate(('RefractiveInterface', 'Interface', 'RefractiveInterface', 'Baffle'))]
            o = b.CompoundOptic([els[0].e, b.CompoundOptic([m.e for m in els[1:3]], name='in'), els[3].e], name='o')
            path = ['N%d' % j for j in idx]
            cur, steps, rev = ('start',), [], False
            for k, j in enumerate(idx):
                m = els[j]
                nrev = idx[k + 1] < j if k + 1 < len(idx) else (True if j == idx[0] else rev)
                a = cur
                if nrev == rev:
                    cur = cur + op(m, rev)
                else:
                    cur = cur + (('reflect', None, m.surf, m.cs),) + ((('obscure', m.obs),) if obs else ())
                    rev = nrev
                steps.append((m.e.name, a, cur))
            r = Hist()
            got = o.trace(r, path=path)
            same(u, 'trace along a path: parts in order, turning by reflection', (got is r, r.h), (True, cur))
            r = Hist()
            tf = o.traceFull(r, path=path)
            same(u, 'record along a path', [(v['name'], v['in'].h, v['out'].h) for v in tf.values()], steps)
            same(u, 'the rays given are left alone', r.h, ('start',))
            cnt, keys = {}, []
            for nm, _, _ in steps:
                keys.append('%s_%d' % (nm, cnt.get(nm, 0)))
                cnt[nm] = cnt.get(nm, 0) + 1
            same(u, 'the entries are numbered by visit', list(tf), keys)


def u_split(nitems, rev, ncalls):
    """bounded: number of parts and of visits"""
    def go(u):
        w, b = begin(u, KWorld)
        n = intv('n')
        u.assume(tm.le(tm.IONE, n.v))
        cs = b.CoordSys()
        mf = real('minFlux')
        r0 = rays(b, 'r', n, cs)
        calls, made = [], []
        b.RayVector.__bool__ = lambda s: bool(pysym.cmp('>', s._x.slen(), 0))

        class Part:
            def __init__(s, i):
                s.i, s.name, s.path, s.skip = i, 'N%d' % i, ['N%d' % i], False

            def traceSplit(s, rv_, minFlux=1e-3, reverse=False, _verbose=False):
                if len(calls) >= ncalls:
                    raise PathEnd()
                peq(u, 'the parts get the same limit', minFlux, mf)
                calls.append((s.i, bool(reverse), rv_))
                out = []
                for q in ('f', 'b'):
                    t = '%s%d' % (q, len(calls))
                    m = intv('n' + t)
                    u.e.assume(tm.le(tm.IZERO, m.v))
                    x = rays(b, t, m, cs)
                    x.path = (t,)
                    made.append((s.i, q, t, x, m))
                    out.append(x)
                return [out[0]], [out[1], None]
        o = b.CompoundOptic([Part(i) for i in range(nitems)], name='o')
        of, ob = o.traceSplit(r0, minFlux=mf, reverse=rev) if rev else o.traceSplit(r0, minFlux=mf)
        u.post('starts at the first part with the rays given', tm.const(calls[0] == (nitems - 1 if rev else 0, rev, r0)))
        by = {}
        for i, bw, rv_ in calls[1:]:
            by.setdefault(getattr(rv_, 'path', None), []).append(('part', i, bw, rv_))
        for q, l in (('f', of), ('b', ob)):
            for rv_ in l:
                by.setdefault(getattr(rv_, 'path', None), []).append(('out', q, rv_))
        for i, q, t, x, m in made:
            l = by.pop((t,), [])
            j = i + (1 if q == 'f' else -1)
            k = intv('k' + t)
            inr = tm.land(tm.le(tm.IZERO, k.v), tm.lt(k.v, m.v))
            keep = tm.land(tm.lnot(pysym.boolterm(x._vignetted.get(k.v))), tm.le(term(mf), term(x._flux.get(k.v))))
            if not l:
                # a batch disappears only when nothing is left of it
                nn = pysym.dimnum(pysym.Sel(keepmask(x, mf)))
                posts_true(u, 'a batch disappears only when nothing is left of it', tm.lor(tm.eq(m.v, tm.IZERO), tm.le(term(nn), ZERO)))
                continue
            u.post('every batch goes to one place', tm.const(len(l) == 1))
            d = l[0]
            want = ('part', j, q == 'b') if 0 <= j < nitems else ('out', q)
            u.post('to the next part in its direction, or out at the end', tm.const(d[:-1] == want))
            y = d[-1]
            yd = y._x.dims[0]
            ok = isinstance(yd, pysym.Sel) and isinstance(y, b.RayVector) and y is not x
            u.post('a selection of its rays', tm.const(ok))
            if not ok:
                raise PathEnd()
            u.e.assume(inr)
            posts_true(u, 'selected exactly when unvignetted and not fainter than the limit', tm.iff(
                pysym.boolterm(pysym.cast1(yd.mask.get(k.v), 'b')), keep))
            for f in RVF:
                peq(u, 'the rays as they left the part: ' + f, getattr(y, '_' + f).get(('sel', k.v)), getattr(x, '_' + f).get(k.v))
            u.post('in the same system', tm.const(y.coordSys is cs))
        u.post('nothing else is traced or returned', tm.const(not by))
    return go


def keepmask(x, mf):
    return (~x._vignetted) & (x._flux >= mf)


def composition(tier='quick'):
    us = []
    for k in CLASSES:
        i = OP + ('Interface.' if k not in ('RefractiveInterface', 'Mirror', 'OPDScreen') else k + '.') + 'interact'
        us.append(punit('%s: trace, traceFull' % k, [OP + 'Interface.trace', OP + 'Interface.traceFull', i, OP + 'Interface.intersect'] +
                        {'RefractiveInterface': [OP + k + '.refract'], 'OPDScreen': [OP + k + '.refract'], 'Mirror': [OP + k + '.reflect']}.get(k, []), u_leaf(k)))
        if k != 'Interface':
            us.append(punit('%s: traceSplit' % k, [OP + 'Interface.traceSplit', OP + k + '.rSplit'], u_leafsplit(k)))
    for nit, rev, nc in ((1, False, 1), (2, False, 3), (2, True, 3)) + (((3, False, 4),) if tier != 'quick' else ()):
        d = punit('CompoundOptic.traceSplit, %d parts%s' % (nit, ', backwards' if rev else ''), [OP + 'CompoundOptic.traceSplit'], u_split(nit, rev, nc))
        d.bounded = '%d parts, at most %d visits' % (nit, nc)
        us.append(d)
    us.append(lem_reverse())
    us.append(punit('default coatings, media and systems', [OP + k + '.__init__' for k in CLASSES[1:5]] + [OP + 'Optic.__init__'], u_defaults))
    for rev in (False, True):
        us.append(punit('CompoundOptic.trace, %s, any number of parts' % ('backwards' if rev else 'forwards'), [OP + 'CompoundOptic.trace'], u_compound(rev)))
    d = punit('CompoundOptic.traceFull', [OP + 'CompoundOptic.traceFull'], u_full)
    d.bounded = 'at most 3 parts per compound, each with 0 to 2 entries or skipped'
    us.append(d)
    d = punit('tracing along a path', [OP + 'CompoundOptic.trace', OP + 'CompoundOptic.traceFull', OP + 'CompoundOptic.__getitem__'], u_path)
    d.bounded = '4 parts, one nested pair, all walks of at most 6 steps'
    us.append(d)
    return us


# ------------------------------------------------------------------ lemma: directions are reversible
def lem_reverse():
    """the contracts of refract and reflect (P06, P07) determine the direction, and the one of the reversed ray
    leaving is the reverse of the ray that came"""
    from u_kern import dot, cross, v, sq

    def f(u):
        V, N, O, W = [[v(k + c) for c in 'xyz'] for k in 'VNOW']
        n1, n2 = v('n1'), v('n2')
        vv, oo, ww = dot(V, V), dot(O, O), dot(W, W)
        unit = [tm.eq(dot(N, N), ONE)]
        one = [tm.eq(tm.mul(sq(n1), vv), ONE), tm.eq(tm.mul(sq(n2), oo), ONE), tm.eq(tm.mul(sq(n1), ww), ONE)]
        fwd = [tm.eq(tm.mul(tm.mul(sq(n2), vv), a), b) for a, b in zip(cross(O, N), cross(V, N))]
        back = [tm.eq(tm.mul(tm.mul(sq(n1), oo), a), tm.neg(b)) for a, b in zip(cross(W, N), cross(O, N))]
        tang = [tm.eq(a, tm.neg(b)) for a, b in zip(cross(W, N), cross(V, N))]
        for k, g in enumerate(tang):
            u.post('refraction back: tangential component (%s)' % 'xyz'[k], g, hyps=one + [fwd[k], back[k]])
        same = tm.eq(ww, vv)
        u.post('refraction back: speed', same, hyps=[one[0], one[2], tm.lt(ZERO, n1)])
        c, d, e = dot(V, N), dot(O, N), dot(W, N)
        # |a|^2 |n|^2 = |a x n|^2 + (a.n)^2
        for nm, a in (('V', V), ('W', W)):
            u.post('Lagrange identity (%s)' % nm, tm.eq(tm.mul(dot(a, a), dot(N, N)), tm.add(dot(cross(a, N), cross(a, N)), sq(dot(a, N)))), hyps=[])
        u.post('equal cross products', tm.eq(dot(cross(W, N), cross(W, N)), dot(cross(V, N), cross(V, N))), hyps=tang)
        A, Bq, C, D, E_ = [v(k) for k in ('l_a', 'l_b', 'l_c', 'l_d', 'l_e')]
        # speeds A = B, cross products C = D
        u.post('refraction back: squared normal component', tm.eq(sq(E_), sq(v('l_f'))), hyps=[
            tm.eq(A, tm.add(C, sq(E_))), tm.eq(A, tm.add(C, sq(v('l_f'))))])
        for s in (1, -1):
            sg = (lambda t: tm.lt(ZERO, t)) if s == 1 else (lambda t: tm.lt(t, ZERO))
            C, D, E_ = v('l_c'), v('l_d'), v('l_e')
            # forward: c > 0 gives d >= 0, and d is not 0 away from the critical angle; backwards -d < 0 gives e <= 0
            le = tm.le(E_, ZERO) if s == 1 else tm.le(ZERO, E_)
            u.post('refraction back: normal component', tm.eq(E_, tm.neg(C)), hyps=[tm.eq(sq(E_), sq(C)), sg(C), le])
        fin_ = tang + [tm.eq(e, tm.neg(c))] + unit
        for k in range(3):
            u.post('refraction back: the reversed incoming direction (%s)' % 'xyz'[k], tm.eq(W[k], tm.neg(V[k])), hyps=fin_)
        R1 = [tm.sub(a, tm.mul(tm.lit(2), tm.mul(c, b))) for a, b in zip(V, N)]
        m = [tm.neg(a) for a in R1]
        R2 = [tm.sub(a, tm.mul(tm.lit(2), tm.mul(dot(m, N), b))) for a, b in zip(m, N)]
        for k in range(3):
            u.post('reflection back: the reversed incoming direction (%s)' % 'xyz'[k], tm.eq(R2[k], tm.neg(V[k])), hyps=unit)
    return Unit('directions are reversible', ['(lemma) reversibility of reflection and refraction'], f)
