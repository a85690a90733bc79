"""RayVector as a value (P18) and its wave functions (P15): the Python part, over the contracts of CPPRayVector (P15, P18: src/rayVector.cpp)."""
import copy
from pw import *
from u_coord import TWorld, CRays, rays, old, _sys, snapshot, fwd_spec
from u_pyobj import pickled, bounded
import u_pyobj

RV = 'batoid/rayVector.py::RayVector.'
BOOLS = ('vignetted', 'failed')


class RRays(CRays):
    def __eq__(s, o):
        return s.w.rays_eq(s, o)

    def __ne__(s, o):
        return inv_(s.w.rays_eq(s, o))

    __hash__ = None


def inv_(x):
    return pysym.inv(x)


def freeze(a, f):
    if isinstance(a, A):
        return f
    l = [f((i,)) for i in range(len(a))]
    return lambda ix: l[ix[0]]


class RWorld(TWorld):
    def new_CPPRayVector(s, *a):
        s.u.post('the C++ rays get eleven arrays and a number', tm.const(len(a) == 12 and all(isinstance(p, PtrTo) for p in a[:11])))
        if len(a) != 12 or not all(isinstance(p, PtrTo) for p in a[:11]):
            raise PathEnd()
        for k, p in zip(RVF, a):
            q = pysym.toA(p.a)
            s.u.post('%s: kind of the memory handed over' % k, tm.const(q.kind == ('b' if k in BOOLS else 'f')))
            posts_true(s.u, '%s: as many elements as said' % k, pysym.cmp('==', pysym.dimnum(q.dims[0]), a[11]) if len(q.dims) == 1 else False)
        return RRays(s, a)

    def point(s, R_, ix, t):
        g = {k: pysym.toA(R_.f[k]).snap() for k in ('x', 'y', 'z', 'vx', 'vy', 'vz', 't')}
        d = sub(t, g['t'](ix))
        return [add(g[c](ix), mul(g['v' + c](ix), d)) for c in 'xyz']

    def threads(s, nt):
        s.u.post('the number of threads is the one set', tm.const(nt is s.pkg.load('batoid.global_vars')._batoid_max_threads))

    def outsize(s, R_, p):
        posts_true(s.u, 'room for as many results as rays', pysym.cmp('==', pysym.dimnum(p.a.dims[0]), R_.n) if isinstance(p.a, A) and len(p.a.dims) == 1 else False)

    def rays_positionAtTime(s, R_, t, x, y, z, nt):
        s.threads(nt)
        for j, p in enumerate((x, y, z)):
            s.outsize(R_, p)
            snap = {k: pysym.toA(R_.f[k]).snap() for k in RVF}
            p.a._store(lambda ix, j=j: s.point(R_, ix, t)[j], None)

    def rays_propagateInPlace(s, R_, t, nt):
        s.threads(nt)
        g = {k: pysym.toA(R_.f[k]).snap() for k in RVF}

        def put(a, f):
            if isinstance(a, A):
                a._store(f, None)
            else:
                new = [f((i,)) for i in range(len(a))]
                for i, v in enumerate(new):
                    a[i] = v
        new = {c: (lambda ix, c=c: add(g[c](ix), mul(g['v' + c](ix), sub(t, g['t'](ix))))) for c in 'xyz'}
        g = {k: freeze(R_.f[k], g[k]) for k in RVF}
        for c in 'xyz':
            put(R_.f[c], new[c])
        put(R_.f['t'], lambda ix: t)

    def wave(s, name, R_, ix, a):
        # phase and amplitude are functions of the ray, the point and the time (their formulas: units about src/rayVector.cpp)
        l = [term(R_.f[k].snap()(ix)) for k in ('x', 'y', 'z', 'vx', 'vy', 'vz', 't', 'wavelength')]
        return mk(tm.app(name, tuple(l + [term(q) for q in a])))

    def rays_phase(s, R_, x, y, z, t, out, nt):
        s.threads(nt)
        s.outsize(R_, out)
        s.u.post('room for real numbers', tm.const(out.a.kind == 'f'))
        out.a._store(lambda ix: s.wave('phase', R_, ix, (x, y, z, t)), None)

    def rays_amplitude(s, R_, x, y, z, t, out, nt):
        s.threads(nt)
        s.outsize(R_, out)
        s.u.post('room for complex numbers', tm.const(out.a.kind == 'c'))
        out.a._store(lambda ix: pysym.Cx(s.wave('amp_re', R_, ix, (x, y, z, t)), s.wave('amp_im', R_, ix, (x, y, z, t))), None)

    def rays_sumAmplitude(s, R_, x, y, z, t, iv, nt):
        s.threads(nt)
        s.asked = (R_, [x, y, z, t], iv)
        return 'the sum'

    def rays_eq(s, a, b):
        s.compared.append((a, b))
        same = tm.var('data_equal', B)
        # rays that have equal data are as many
        s.u.assume(tm.implies(same, tm.eq(tm.wrap(val(a.n), I), tm.wrap(val(b.n), I))))
        return pysym.mkb(same)


def begin_(u):
    w, b = begin(u, RWorld)
    w.compared = []
    return w, b


def lane(u, n, nm='k'):
    k = intv(nm)
    u.assume(tm.le(tm.IZERO, k.v), tm.lt(k.v, tm.wrap(val(n), I)))
    return k.v


def content(u, what, r, ix, want, n=None):
    """ray ix of r is what `want(field)` says; read from the memory the C++ part uses"""
    for k in RVF:
        a = getattr(r, k)
        ok = isinstance(a, (A, SArr)) and pysym.toA(a).kind == ('b' if k in BOOLS else 'f')
        u.post(what + ': %s is an array of its kind' % k, tm.const(ok))
        if not ok:
            raise PathEnd()
        a = pysym.toA(a)
        if n is not None:
            posts_true(u, what + ': number of %s' % k, pysym.cmp('==', pysym.dimnum(a.dims[0]), n) if len(a.dims) == 1 else False)
        peq(u, what + ': ' + k, a.get(ix), want(k))
    for k in RVF:
        # what the C++ part sees is what Python sees
        m = r._rv.f[k]
        u.post(what + ': %s: one memory' % k, tm.const(m is getattr(r, k) or shares(m, getattr(r, k))))


def shares(a, b):
    import numpy as np
    if isinstance(a, A) and isinstance(b, A):
        return a.buf is b.buf
    if isinstance(a, SArr) and isinstance(b, SArr):
        return a is b or np.shares_memory(a.view(np.ndarray), b.view(np.ndarray))
    return False


def disjoint(u, what, r, others):
    for k in RVF:
        u.post(what + ': %s shares no storage' % k, tm.const(not any(shares(getattr(r, k), o) for o in others)))


def fields(r):
    return [getattr(r, k) for k in RVF]


def samecs(u, what, c, o, r):
    peq(u, what + ': origin of the system', c.origin, o)
    peq(u, what + ': axes of the system', c.rot, r)


# ------------------------------------------------------------------ construction
def u_init(kinds):
    """kinds: per parameter 'n' array of n, '1' array of one, 's' scalar, 'i' integer array of n, 'd' default"""
    def go(u):
        w, b = begin_(u)
        cs, o, r = _sys(b, u, 'c', ortho=False)
        (o0, r0) = snapshot(o, r)
        n = intv('n')
        u.assume(tm.le(tm.lit(2, I), n.v))
        some = any(k in 'ni' for k in kinds)
        N_ = n if some else 1
        k = lane(u, N_) if some else tm.IZERO
        dflt = dict(t=0.0, wavelength=0.0, flux=1.0, vignetted=False, failed=False)
        given, want = {}, {}
        for f, q in zip(RVF, kinds):
            so = B if f in BOOLS else R
            kd = 'b' if f in BOOLS else 'f'
            if q == 'n':
                given[f] = arr('g' + f, n, kind=kd, lay='any')
                want[f] = mk(tm.app('g' + f, (k,), so))
            elif q == 'i':
                given[f] = arr('g' + f, n, kind='i', lay='any')
                t = tm.app('g' + f, (k,), I)
                want[f] = mk(tm.toreal(t)) if so is R else pysym.mkb(tm.ne(t, tm.IZERO))
            elif q == '1':
                v = real('g' + f) if so is R else pysym.mkb(tm.var('g' + f, B))
                given[f], want[f] = NP.array([v]), v
            elif q == 's':
                v = real('g' + f) if so is R else pysym.mkb(tm.var('g' + f, B))
                given[f] = want[f] = v
            elif q == 'd':
                want[f] = dflt[f]
        rv_ = b.RayVector(coordSys=cs, **given)
        content(u, 'given', rv_, k, lambda f: want[f], N_)
        samecs(u, 'given', rv_.coordSys, o0, r0)
        disjoint(u, 'given', rv_, [x for x in given.values() if isinstance(x, (A, SArr))])
        posts_true(u, 'length', pysym.cmp('==', pysym.slen(rv_._t) if False else rv_.__len__(), N_))
        # by position
        if 'd' not in kinds:
            r2 = b.RayVector(*[given[f] for f in RVF], cs)
            content(u, 'by position', r2, k, lambda f: want[f], N_)
        r3 = b.RayVector(**given)
        samecs(u, 'default', r3.coordSys, [0.0, 0.0, 0.0], [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]])
    return go


def u_copy(u):
    w, b = begin_(u)
    cs, o, r = _sys(b, u, 'c', ortho=False)
    (o0, r0) = snapshot(o, r)
    n = intv('n')
    k = lane(u, n)
    for used in (False, True):
        a = rays(b, 'a', n, cs)
        if used:
            a._rv
        want = lambda f: old('a', f, k)
        for nm, f in (('copy', a.copy), ('deepcopy', lambda: copy.deepcopy(a)), ('pickle', lambda: pickled(a)), ('pickle twice', lambda: pickled(pickled(a)))):
            c = f()
            u.post(nm + ' makes rays', tm.const(type(c) is b.RayVector and c is not a))
            content(u, nm, c, k, want, n)
            samecs(u, nm, c.coordSys, o0, r0)
            disjoint(u, nm, c, fields(a))
            u.post(nm + ': a C++ vector of its own', tm.const(c._rv is not a.__dict__.get('_rv')))
            # whatever happens to the copy does not reach the original, and conversely
            c.propagate(real('T'))
            c.vignetted[:] = True
            content(u, nm + ': the original after changes to the copy', a, k, want, n)
            u.post(nm + ': arrays of the systems are not shared', tm.const(not shares(c.coordSys.origin, a.coordSys.origin) and not shares(c.coordSys.rot, a.coordSys.rot)))
    # NaN-free rays survive the printed form
    a = rays(b, 'a', n, cs)
    ns = dict(RayVector=b.RayVector, CoordSys=b.CoordSys, S_=pysym.fromreg, A_=pysym._afromreg, array=NP.array, nan=NP.nan, inf=NP.inf)
    c = eval(repr(a), ns)
    content(u, 'printed form', c, k, lambda f: old('a', f, k), n)
    samecs(u, 'printed form', c.coordSys, o0, r0)


def u_eq(u):
    w, b = begin_(u)
    c1, o1, r1 = _sys(b, u, 'c', ortho=False)
    c2, o2, r2 = _sys(b, u, 'd', ortho=False)
    n, m = intv('n'), intv('m')
    u.assume(tm.le(tm.IZERO, n.v), tm.le(tm.IZERO, m.v))
    x, y = rays(b, 'x', n, c1), rays(b, 'y', m, c2)
    cs = tm.land(*[tm.eq(term(p), term(q)) for p, q in zip(list(o1) + [v for l in r1 for v in l], list(o2) + [v for l in r2 for v in l])])
    want = tm.land(cs, tm.var('data_equal', B))
    for nm, f, ng in (('==', lambda: x == y, False), ('!=', lambda: x != y, True)):
        w.compared = []
        e = pysym.boolterm(f())
        u.post(nm + ' is a truth value', tm.const(e is not None))
        if e is None:
            raise PathEnd()
        for p, q in w.compared:
            u.post(nm + ' compares the data of the two', tm.const({id(p), id(q)} == {id(x._rv), id(y._rv)}))
        # not compared at all: then the data or systems must differ
        if not w.compared:
            u.assume(tm.implies(tm.var('data_equal', B), tm.eq(n.v, m.v)))
        u.post(nm + ': equal exactly when system and data are', tm.iff(tm.lnot(e) if ng else e, want))
    for z in (None, 1, 'x', (), c1, real('z')):
        u.post('not equal to anything else', tm.const((x == z) is False and (x != z) is True))


def u_lenfields(u):
    w, b = begin_(u)
    cs, o, r = _sys(b, u, 'c', ortho=False)
    n = intv('n')
    k = lane(u, n)
    a = rays(b, 'a', n, cs)
    posts_true(u, 'length', pysym.cmp('==', a.__len__(), n))
    content(u, 'fields', a, k, lambda f: old('a', f, k), n)
    for nm, pre in (('r', ''), ('v', 'v')):
        q = getattr(a, nm)
        ok = isinstance(q, A) and len(q.dims) == 2 and q.dims[1] == 3
        u.post(nm + ': one row per ray', tm.const(bool(ok)))
        if not ok:
            raise PathEnd()
        posts_true(u, nm + ': one row per ray', pysym.cmp('==', pysym.dimnum(q.dims[0]), n))
        peq(u, nm, [q.get(k, i) for i in range(3)], [old('a', pre + c, k) for c in 'xyz'])


# ------------------------------------------------------------------ indexing
def u_item(u):
    w, b = begin_(u)
    cs, o, r = _sys(b, u, 'c', ortho=False)
    (o0, r0) = snapshot(o, r)
    n, i = intv('n'), intv('i')
    u.assume(tm.le(tm.IZERO, n.v))
    a = rays(b, 'a', n, cs)
    inside = tm.land(tm.le(tm.neg(n.v), i.v), tm.lt(i.v, n.v))
    try:
        c = a[i]
    except IndexError:
        u.post('IndexError only outside', tm.lnot(inside))
        return
    u.post('outside is an IndexError', inside)
    u.assume(inside)
    j = tm.ite(tm.lt(i.v, tm.IZERO), tm.add(i.v, n.v), i.v)
    if u.e.branch(tm.lt(i.v, tm.IZERO)):
        j = tm.add(i.v, n.v)
    else:
        j = i.v
    content(u, 'one ray', c, tm.IZERO, lambda f: old('a', f, j), 1)
    samecs(u, 'one ray', c.coordSys, o0, r0)
    disjoint(u, 'one ray', c, fields(a))


def u_slice(mk_, start, step, length):
    """mk_() -> slice; element j of it is ray start + j step"""
    def go(u):
        w, b = begin_(u)
        cs, o, r = _sys(b, u, 'c', ortho=False)
        (o0, r0) = snapshot(o, r)
        n, j = intv('n'), intv('j')
        u.assume(tm.le(tm.IZERO, n.v))
        a = rays(b, 'a', n, cs)
        c = a[mk_()]
        ln = length(n)
        posts_true(u, 'length of the slice', pysym.cmp('==', c.__len__(), mk(ln)))
        if not u.e.branch(tm.lt(tm.IZERO, ln)):
            return
        u.assume(tm.le(tm.IZERO, j.v), tm.lt(j.v, ln))
        s0 = tm.wrap(val(start(n)), I)
        content(u, 'slice', c, j.v, lambda f: old('a', f, tm.add(s0, tm.mul(tm.lit(step, I), j.v))), mk(ln))
        samecs(u, 'slice', c.coordSys, o0, r0)
        disjoint(u, 'slice', c, fields(a))
        k = lane(u, n)
        c.propagate(real('T'))
        content(u, 'the original after changes to the slice', a, k, lambda f: old('a', f, k), n)
    return go


def imax0(t):
    return tm.ite(tm.lt(t, tm.IZERO), tm.IZERO, t)


def slices():
    L = lambda k: tm.lit(k, I)
    half = lambda t: tm.idiv(t, L(2)) if hasattr(tm, 'idiv') else None
    out = []
    n_ = lambda n: n.v
    mn = lambda a, b: tm.ite(tm.lt(a, b), a, b)
    out.append((':', lambda: slice(None), lambda n: 0, 1, n_))
    out.append(('1:', lambda: slice(1, None), lambda n: 1, 1, lambda n: imax0(tm.sub(n.v, L(1)))))
    out.append((':-1', lambda: slice(None, -1), lambda n: 0, 1, lambda n: imax0(tm.sub(n.v, L(1)))))
    out.append(('2:5', lambda: slice(2, 5), lambda n: 2, 1, lambda n: imax0(tm.sub(mn(n.v, L(5)), L(2)))))
    out.append(('::-1', lambda: slice(None, None, -1), lambda n: sub(n, 1), -1, n_))
    for s in (2, 3):
        out.append(('::%d' % s, lambda s=s: slice(None, None, s), lambda n: 0, s,
                    lambda n, s=s: tm.wrap(val(pysym.floordiv(add(n, s - 1), s)), I)))
    return out


def u_mask(u):
    w, b = begin_(u)
    cs, o, r = _sys(b, u, 'c', ortho=False)
    (o0, r0) = snapshot(o, r)
    n = intv('n')
    u.assume(tm.le(tm.IZERO, n.v))
    a = rays(b, 'a', n, cs)
    mask = arr('mask', n, kind='b')
    c = a[mask]
    k = lane(u, n)
    u.assume(tm.app('mask', (k,), B))
    for f in RVF:
        q = getattr(c, f)
        ok = isinstance(q, A) and len(q.dims) == 1 and isinstance(q.dims[0], pysym.Sel)
        u.post('mask: the chosen rays', tm.const(ok))
        if not ok:
            raise PathEnd()
        peq(u, 'mask: ' + f, q.get(('sel', k)), old('a', f, k))
    samecs(u, 'mask', c.coordSys, o0, r0)
    disjoint(u, 'mask', c, fields(a))
    # a list of positions
    m = intv('m')
    j = lane(u, m, 'j')
    ix = arr('ix', m, kind='i')
    p = tm.app('ix', (j,), I)
    u.assume(tm.le(tm.neg(n.v), p), tm.lt(p, n.v))
    c = a[ix]
    q = tm.add(p, n.v) if u.e.branch(tm.lt(p, tm.IZERO)) else p
    for f in RVF:
        peq(u, 'positions: ' + f, getattr(c, f).get(j), old('a', f, q))
    posts_true(u, 'positions: length', pysym.cmp('==', c.__len__(), m))
    samecs(u, 'positions', c.coordSys, o0, r0)


# ------------------------------------------------------------------ joining
def u_concat(ns, eqs):
    """ns batches of arbitrary sizes; eqs[i]: batch i is in the first one's system"""
    def go(u):
        w, b = begin_(u)
        systems = []
        batches = []
        for i in range(ns):
            if eqs[i] and i:
                cs, o, r = systems[0][0].copy(), systems[0][1], systems[0][2]
            else:
                cs, o, r = _sys(b, u, 'c%d' % i)
                if i == 0:
                    o, r = snapshot(o, r)
                else:
                    o, r = snapshot(o, r)
            systems.append((cs, o, r))
            n = intv('n%d' % i)
            u.assume(tm.le(tm.IZERO, n.v))
            batches.append((rays(b, 'b%d' % i, n, cs), n))
        given = [x for x, _ in batches]
        out = b.concatenateRayVectors(given)
        u.post('a new batch', tm.const(type(out) is b.RayVector and not any(out is x for x in given)))
        samecs(u, 'joined', out.coordSys, systems[0][1], systems[0][2])
        for i, (x, n) in enumerate(batches):
            k = lane(u, n, 'k%d' % i)
            p = [old('b%d' % i, c, k) for c in 'xyz']
            v = [old('b%d' % i, 'v' + c, k) for c in 'xyz']
            if not eqs[i] and i:
                a1, a2 = systems[i], systems[0]
                p = fwd_spec(a1[1], a1[2], a2[1], a2[2], p)
                v = fwd_spec(a1[1], a1[2], a2[1], a2[2], v, True)
            want = dict(zip(RVF, p + v))
            for f in RVF:
                q = getattr(out, f)
                ok = isinstance(q, A) and len(q.dims) == 1 and (isinstance(q.dims[0], pysym.Cat) and len(q.dims[0].ds) == ns or ns == 1)
                u.post('all rays in order', tm.const(ok))
                if not ok:
                    raise PathEnd()
                peq(u, 'batch %d: %s' % (i, f), q.get(('cat', i, k) if ns > 1 else k if not isinstance(q.dims[0], pysym.Cat) else ('cat', 0, k)),
                    want[f] if f in want else old('b%d' % i, f, k))
            # the batches joined stay as they were
            content(u, 'batch %d afterwards' % i, x, k, lambda f: old('b%d' % i, f, k), n)
            samecs(u, 'batch %d afterwards' % i, x.coordSys, systems[i][1], systems[i][2])
            disjoint(u, 'joined', out, fields(x))
    return go


# ------------------------------------------------------------------ waves
def u_wave(u):
    w, b = begin_(u)
    cs, o, r = _sys(b, u, 'c', ortho=False)
    n = intv('n')
    k = lane(u, n)
    T_ = real('T')
    a = rays(b, 'a', n, cs)
    g = lambda f: old('a', f, k)
    at = [add(g(c), mul(g('v' + c), sub(T_, g('t')))) for c in 'xyz']
    p = a.positionAtTime(T_)
    ok = isinstance(p, A) and len(p.dims) == 2 and p.dims[1] == 3
    u.post('positions: one row per ray', tm.const(bool(ok)))
    if not ok:
        raise PathEnd()
    posts_true(u, 'positions: one row per ray', pysym.cmp('==', pysym.dimnum(p.dims[0]), n))
    peq(u, 'position at a time', [p.get(k, i) for i in range(3)], at)
    pt = [real('p' + c) for c in 'xyz']
    l = [term(g(f)) for f in ('x', 'y', 'z', 'vx', 'vy', 'vz', 't', 'wavelength')]
    fn = lambda nm: mk(tm.app(nm, tuple(l + [term(q) for q in pt + [T_]])))
    for P_ in (pt, tuple(pt), NP.array(pt)):
        q = a.phase(P_, T_)
        posts_true(u, 'phase: one per ray', pysym.cmp('==', q.slen(), n))
        peq(u, 'phase is the one of the C++ part at that point and time', q.get(k), fn('phase'))
        q = a.amplitude(P_, T_)
        posts_true(u, 'amplitude: one per ray', pysym.cmp('==', q.slen(), n))
        z = pysym.cx(q.get(k))
        peq(u, 'amplitude is the one of the C++ part at that point and time, real part', z.real, fn('amp_re'))
        peq(u, 'amplitude is the one of the C++ part at that point and time, imaginary part', z.imag, fn('amp_im'))
        for iv, call in ((True, lambda: a.sumAmplitude(P_, T_)), (True, lambda: a.sumAmplitude(P_, T_, True)), (False, lambda: a.sumAmplitude(P_, T_, False)),
                         (True, lambda: a.sumAmplitude(r=P_, t=T_, ignoreVignetted=True)), (False, lambda: a.sumAmplitude(P_, T_, ignoreVignetted=False))):
            s = call()
            u.post('the sum is the one of the C++ part', tm.const(s == 'the sum' and w.asked[0] is a._rv))
            peq(u, 'the sum is at that point and time', w.asked[1], pt + [T_])
            u.post('the sum honours vignetting as asked', tm.const(w.asked[2] is iv))
    content(u, 'the rays afterwards', a, k, g, n)
    x = a.propagate(T_)
    u.post('propagate returns the rays', tm.const(x is a))
    want = dict(x=at[0], y=at[1], z=at[2], t=T_)
    content(u, 'propagated', a, k, lambda f: want[f] if f in want else g(f), n)


def u_k(u):
    w, b = begin_(u)
    cs, o, r = _sys(b, u, 'c', ortho=False)
    n = intv('n')
    k = lane(u, n)
    a = rays(b, 'a', n, cs)
    g = lambda f: old('a', f, k)
    v = [g('v' + c) for c in 'xyz']
    v2 = add(add(mul(v[0], v[0]), mul(v[1], v[1])), mul(v[2], v[2]))
    u.assume(tm.lt(ZERO, term(g('wavelength'))), tm.lt(ZERO, term(v2)))
    tau = mul(2, NP.pi)
    q = a.k
    ok = isinstance(q, A) and len(q.dims) == 2 and q.dims[1] == 3
    u.post('k: one row per ray', tm.const(bool(ok)))
    if not ok:
        raise PathEnd()
    posts_true(u, 'k: one row per ray', pysym.cmp('==', pysym.dimnum(q.dims[0]), n))
    for i, c in enumerate('xyz'):
        peq(u, 'k = 2 pi v / (wavelength v^2)', mul(q.get(k, i), mul(g('wavelength'), v2)), mul(tau, v[i]))
        peq(u, 'k' + c, getattr(a, 'k' + c).get(k), q.get(k, i))
    peq(u, 'omega = 2 pi / wavelength', mul(a.omega.get(k), g('wavelength')), tau)
    content(u, 'the rays afterwards', a, k, g, n)


def wave_units():
    return [punit('RayVector.positionAtTime, propagate, phase, amplitude, sumAmplitude',
                  [RV + f for f in ('positionAtTime', 'propagate', 'phase', 'amplitude', 'sumAmplitude', '_rv')], u_wave),
            punit('RayVector.k, omega', [RV + f for f in ('k', 'kx', 'ky', 'kz', 'omega')], u_k)]


INITS = ['nnnnnnnnnnn', 'sssssssssss', 'nnsssssssds', 'nnnnnnddddd', 'iiiiiiiiiii', '111111sssss', 'nssn1isnsnd', 'ssssssnssdd', 'ssssssssssn', 'ssssss11ndd']


def value_units():
    us = [punit('RayVector construction (%s)' % k, [RV + '__init__', 'batoid/rayVector.py::_reshape_arrays'], u_init(k)) for k in INITS]
    us.append(punit('RayVector copy, pickle, printed form', [RV + f for f in ('copy', '__getstate__', '__setstate__', '__repr__', '_syncToHost')], u_copy))
    us.append(punit('RayVector equality', [RV + '__eq__', RV + '__ne__'], u_eq))
    us.append(punit('RayVector fields', [RV + f for f in ('__len__', 'r', 'v', 'x', 'y', 'z', 'vx', 'vy', 'vz', 't', 'wavelength', 'flux', 'vignetted', 'failed')], u_lenfields))
    us.append(punit('RayVector[i]', [RV + '__getitem__', RV + '_directInit'], u_item))
    for nm, m, s, st, ln in slices():
        us.append(punit('RayVector[%s]' % nm, [RV + '__getitem__', RV + '_directInit'], u_slice(m, s, st, ln)))
    us.append(punit('RayVector[mask], RayVector[positions]', [RV + '__getitem__', RV + '_directInit'], u_mask))
    for n, e in ((1, (1,)), (2, (1, 1)), (2, (1, 0)), (3, (1, 0, 1))):
        us.append(bounded(punit('concatenateRayVectors of %d (%s)' % (n, ', '.join('same system' if x else 'other system' for x in e)),
                                ['batoid/rayVector.py::concatenateRayVectors'], u_concat(n, e)), '%d batches of any size' % n))
    return us
