"""Units about the ray kernels of src/batoid.cpp and src/rayVector.cpp: one arbitrary ray (ghost
index g) of a batch of arbitrary size; surfaces, media, coatings and obscurations are known only
through the contracts of their classes (proved by the units of P03, P04, P05, P11, P12, P14)."""
import terms as tm
from terms import I, B, R, ZERO, ONE, IZERO, IONE, T
import fp, cxx, prove
from fp import NAN, POISON
from cxx import Arr, Ptr, Cell, Obj, ObjPtr, Abs, Fold, NULL
from engine import PathEnd, Unsupported
from unit import Unit
from zoo import v, iv, sq, sm, lit, add, sub, mul, div, neg, ap, val

DBL = ['x', 'y', 'z', 'vx', 'vy', 'vz', 't', 'wavelength', 'flux']
BOO = ['vignetted', 'failed']
ALLF = DBL + BOO
G = iv('g')
SIZE = iv('size')


def fin(*a):
    return all(isinstance(x, T) for x in a)


def base(kind, name, dead):
    """initial value of one ray quantity"""


class Rays:
    """a RayVector object with `size` rays; the ray under consideration is number g"""

    def __init__(s, x, tag='', nonfinite=()):
        s.x = x
        s.arr = {}
        args = []
        for k in ALLF:
            a = Arr(tag + k, SIZE, 'bool' if k in BOO else 'double')
            a.ghost = [G]
            if k in nonfinite:
                a.base = lambda i: fp.NAN
            elif k in BOO:
                a.base = lambda i, k=k: tm.app(tag + k, (i,), B)
            s.arr[k] = a
            args.append(Ptr(a))
        s.o = x.newobj('RayVector', args + [SIZE])
        s.old = {k: s.arr[k].initial(G) for k in ALLF}

    def now(s, k):
        a = s.arr[k]
        r = None
        for (kind, i, w) in reversed(a.log):
            if kind == 'w' and tm.same(i, G):
                return w
            if kind == 'w' and tm.constdiff(i, G) is not None:
                continue
            raise Unsupported('write to another ray')
        return s.old[k]


class World:
    """abstract surfaces, media, coatings, obscurations: deterministic, otherwise arbitrary"""

    def __init__(s, u):
        s.u = u
        s.memo = {}
        s.n = 0

    def call(s, who, args, mk):
        l = s.memo.setdefault(who, [])
        for a, r in l:
            if len(a) == len(args) and all(
                    (p is q) or (isinstance(p, T) and isinstance(q, T) and tm.same(p, q)) for p, q in zip(a, args)):
                return r
        r = mk()
        l.append((list(args), r))
        return r

    def new(s, nm, sort=R):
        s.n += 1
        return tm.var('%s_%d' % (nm, s.n), sort)

    def calls(s, who):
        return s.memo.get(who, [])

    # ---- Surface
    def tti(s, sid, P, V, niter=None):
        """(crossing reported, time)"""
        def mk():
            return (s.new('hit_%s' % sid, B), s.new('dt_%s' % sid))
        return s.call(('tti', sid), list(P) + list(V) + ([niter] if niter is not None else []), mk)

    def normal(s, sid, X, Y):
        """P04: unit, upward (defined where there is a height)"""
        if not fin(X, Y):
            return (fp.ANY,) * 3

        def mk():
            n = tuple(s.new('n%s_%s' % (k, sid)) for k in 'xyz')
            s.u.e.assume(tm.eq(sm(*[sq(c) for c in n]), ONE))
            s.u.e.assume(tm.lt(ZERO, n[2]))
            return n
        return s.call(('normal', sid), [X, Y], mk)

    def sag(s, sid, X, Y):
        if not fin(X, Y):
            return fp.ANY

        def mk():
            return s.new('sag_' + sid)
        return s.call(('sag', sid), [X, Y], mk)

    def grad(s, sid, X, Y):
        if not fin(X, Y):
            return (fp.ANY,) * 2

        def mk():
            return tuple(s.new('d%s_%s' % (k, sid)) for k in 'xy')
        return s.call(('grad', sid), [X, Y], mk)

    def index(s, mid, w):
        if not fin(w):
            return fp.ANY

        def mk():
            n = s.new('n_' + mid)
            s.u.e.assume(tm.lt(ZERO, n))
            return n
        return s.call(('getN', mid), [w], mk)

    def coat(s, w, a):
        """(reflectance, transmittance)"""
        def mk():
            return s.new('R'), s.new('T')
        return s.call(('coat',), [w, a], mk)

    def contains(s, X, Y):
        def mk():
            return s.new('inside', B)
        return s.call(('contains',), [X, Y], mk)

    def contracts(s):
        nanidx = getattr(s, 'nanindex', False)
        offscreen = getattr(s, 'offscreen', False)

        def tti(x, o, X, Y, Z, VX, VY, VZ, dt, niter):
            P, V = [val(q) for q in (X, Y, Z)], [val(q) for q in (VX, VY, VZ)]
            dt.v
            ok, t = s.tti(o.ident, P, V, val(niter))
            if x.e.branch(ok):
                dt.v = t
                return tm.TRUE
            dt.v = fp.ANY
            return tm.FALSE

        def normal(x, o, X, Y, a, b, c):
            a.v, b.v, c.v = s.normal(o.ident, val(X), val(Y))

        def sag(x, o, X, Y):
            if offscreen and o.ident == 'screen':
                return NAN
            return s.sag(o.ident, val(X), val(Y))

        def grad(x, o, X, Y, a, b):
            if offscreen and o.ident == 'screen':
                a.v = b.v = NAN
                return
            a.v, b.v = s.grad(o.ident, val(X), val(Y))

        def getN(x, o, w):
            if nanidx:
                return NAN
            return s.index(o.ident, val(w))

        def refl(x, o, w, a):
            return s.coat(val(w), val(a))[0]

        def tran(x, o, w, a):
            return s.coat(val(w), val(a))[1]

        def coefs(x, o, w, a, r, t):
            r.v, t.v = s.coat(val(w), val(a))

        def cont(x, o, X, Y):
            return s.contains(val(X), val(Y))
        return {('Surface', 'timeToIntersect'): tti, ('Surface', 'normal'): normal, ('Surface', 'sag'): sag,
                ('Surface', 'grad'): grad, ('Medium', 'getN'): getN, ('Coating', 'getReflect'): refl,
                ('Coating', 'getTransmit'): tran, ('Coating', 'getCoefs'): coefs,
                ('Obscuration', 'contains'): cont}


def frame(x, u):
    """dr, drot as symbolic std::arrays; returns (dr, drot, arrays)"""
    d = [v('dr%d' % i) for i in range(3)]
    m = [v('rot%d' % i) for i in range(9)]
    da, ma = x.zarr(3), x.zarr(9)
    for i in range(3):
        da.log.append(('w', tm.lit(i, I), d[i]))
    for i in range(9):
        ma.log.append(('w', tm.lit(i, I), m[i]))
    da.const = ma.const = True
    da.name, ma.name = 'dr', 'drot'
    return d, m, da, ma


def orth(m):
    """the rotation matrix is orthonormal (every CoordSys keeps that: P02)"""
    h = []
    for i in range(3):
        for j in range(i, 3):
            h.append(tm.eq(sm(*[mul(m[3 * i + k], m[3 * j + k]) for k in range(3)]), ONE if i == j else ZERO))
            h.append(tm.eq(sm(*[mul(m[3 * k + i], m[3 * k + j]) for k in range(3)]), ONE if i == j else ZERO))
    return h


def tovec(m, w):
    """components along the columns of the matrix"""
    return [sm(*[mul(m[3 * k + i], w[k]) for k in range(3)]) for i in range(3)]


def fromvec(m, w):
    return [sm(*[mul(m[3 * i + k], w[k]) for k in range(3)]) for i in range(3)]


def dot(a, b):
    return sm(*[mul(p, q) for p, q in zip(a, b)])


def cross(a, b):
    return [sub(mul(a[1], b[2]), mul(a[2], b[1])), sub(mul(a[2], b[0]), mul(a[0], b[2])),
            sub(mul(a[0], b[1]), mul(a[1], b[0]))]


def eqs(u, name, got, want, **k):
    for c, a, b in zip('xyzwabc', got, want):
        eq1(u, '%s (%s)' % (name, c), a, b, **k)


def eq1(u, name, a, b, **k):
    if isinstance(a, T) and isinstance(b, T):
        if a.sort == B or b.sort == B:
            u.post(name, tm.iff(a, b), **k)
        else:
            u.post(name, tm.eq(a, b), **k)
    else:
        u.post(name, tm.const(a is b), **k)


class K:
    """one run of a kernel on the ray g"""

    def __init__(s, u, fn, mode, coated=False, split=False):
        s.u = u
        s.w = World(u)
        s.w.nanindex = mode == 'noindex'
        s.w.offscreen = mode == 'offscreen'
        s.x = x = u.exec(contracts=s.w.contracts(), ghost=G)
        u.e.assume(tm.le(IZERO, G))
        u.e.assume(tm.lt(G, SIZE))
        u.e.assume(tm.lt(SIZE, tm.lit(1 << 30, I)))
        nonf = ('vx', 'vy', 'vz') if mode == 'dead nan' else ()
        s.rv = Rays(x, '', nonf)
        s.rv2 = Rays(x, 'split_') if split else None
        s.old = s.rv.old
        s.dr, s.m, s.da, s.ma = frame(x, u)
        fl = tm.app('failed', (G,), B)
        if mode.startswith('dead'):
            u.e.assume(fl)
        else:
            u.e.assume(tm.lnot(fl))
            V = [s.old[k] for k in ('vx', 'vy', 'vz')]
            s.P = tovec(s.m, [sub(s.old[k], d) for k, d in zip('xyz', s.dr)])
            s.V = tovec(s.m, V)
            # the ray in the surface's frame: generalised to arbitrary position and velocity
            x.cuts, u.e.defs = {}, {}
            for l, nm in ((s.P, 'P'), (s.V, 'V')):
                for i, c in enumerate('xyz'):
                    w = v(nm + c)
                    x.cuts[tm.nf(l[i]).key()] = w
                    u.e.defs[w] = l[i]
                    l[i] = w
            s.vv = dot(s.V, s.V)
            u.e.assume(tm.lt(ZERO, s.vv))
        s.surf = Abs('Surface', 'surface')
        s.coat = ObjPtr(Abs('Coating', 'coating')) if coated else NULL
        s.nit = iv('niter')

    def go(s, name, args):
        f = s.u.prog.find(name)
        if f is None:
            raise Unsupported('function %s not found' % name)
        if len(f.params) != len(args):
            raise Unsupported('parameters of %s' % name)
        s.x.callfn(f, args)
        if not getattr(s.x, 'ghost_visits', 0):
            s.u.post('every ray is visited', tm.FALSE)
            raise PathEnd()
        if s.x.ghost_visits > 1:
            pass

    def hit(s):
        """(reported crossing?, time, hit point) as the contract gives them for this ray"""
        ok, t = s.w.tti('surface', s.P, s.V, s.nit)
        h = s.u.e.branch(ok)
        return h, t, [add(p, mul(q, t)) for p, q in zip(s.P, s.V)]

    def same(s, keys, rv=None, why='unchanged'):
        rv = rv or s.rv
        for k in keys:
            eq1(s.u, '%s %s' % (k, why), rv.now(k), rv.old[k])

    def miss(s, rv=None, why='a ray that misses'):
        rv = rv or s.rv
        s.same([k for k in DBL], rv, 'of %s unchanged' % why)
        for k in BOO:
            s.u.post('%s is marked %s' % (why, k), asb(rv.now(k)))

    def flags(s, rv=None, failed=False):
        rv = rv or s.rv
        if failed:
            for k in BOO:
                s.u.post('the ray is marked %s' % k, asb(rv.now(k)))
        else:
            s.same(BOO, rv)

    def flux(s, branch, cosn, rv=None):
        """multiplied exactly once by the branch's coefficient at the ray's wavelength and angle"""
        rv = rv or s.rv
        now = rv.now('flux')
        if s.coat is NULL and branch is not None:
            eq1(s.u, 'flux unchanged without a coating', now, s.old['flux'])
            return
        cs = s.w.calls(('coat',))
        if not cs or not fin(now):
            s.u.post('the flux is multiplied by the coating coefficient', tm.FALSE)
            return
        # cos^2 of the angle of incidence: (v.n)^2 / v^2
        (w, a), r = cs[-1]
        val_ = r[0 if branch == 'R' else 1]
        for (w1, a1), r1 in cs:
            if fin(now) and r1[0 if branch == 'R' else 1] in tm.subterms(now):
                w, a, val_ = w1, a1, r1[0 if branch == 'R' else 1]
        s.u.post('the flux is multiplied once by the %s' % ('reflectance' if branch == 'R' else 'transmittance'),
                 tm.eq(now, mul(s.old['flux'], val_)))
        eq1(s.u, 'the coefficient is taken at the ray\'s wavelength', w, s.old['wavelength'])
        s.u.post('the coefficient is taken at the cosine of the angle of incidence',
                 tm.eq(mul(sq(a), s.vv), sq(cosn)) if fin(a) else tm.FALSE)


def asb(t):
    b = cxx.asbool(t)
    return b if b is not None else tm.FALSE


def dead_post(k, rv=None, rv2=None):
    k.same(DBL, rv, 'of a failed ray unchanged')
    k.same(['vignetted'], rv, 'of a failed ray unchanged')
    k.u.post('a failed ray stays failed', asb((rv or k.rv).now('failed')))


MODES = ('live', 'dead', 'dead nan')


def kern_intersect(mode, coated):
    def f(u):
        k = K(u, 'intersect', mode, coated)
        k.go('intersect', [k.surf, k.da, k.ma, k.rv.o, k.coat, iv('threads'), k.nit])
        if mode != 'live':
            return dead_post(k)
        h, t, p = k.hit()
        if not h:
            return k.miss()
        eqs(u, 'position advances along the old line by the elapsed time', [k.rv.now(c) for c in 'xyz'], p)
        eq1(u, 'time advances by the crossing time', k.rv.now('t'), add(k.old['t'], t))
        eqs(u, 'velocity unchanged', [k.rv.now('v' + c) for c in 'xyz'], k.V)
        k.same(['wavelength'])
        k.flags()
        n = k.w.normal('surface', p[0], p[1]) if coated else None
        k.flux('T', dot(k.V, n) if coated else None)
    return Unit('intersect %s%s' % (mode, ' coated' if coated else ''), ['intersect'], f)


def kern_reflect(mode, coated):
    def f(u):
        k = K(u, 'reflect', mode, coated)
        k.go('reflect', [k.surf, k.da, k.ma, k.rv.o, k.coat, iv('threads'), k.nit])
        if mode != 'live':
            return dead_post(k)
        h, t, p = k.hit()
        if not h:
            return k.miss()
        eqs(u, 'position advances along the old line by the elapsed time', [k.rv.now(c) for c in 'xyz'], p)
        eq1(u, 'time advances by the crossing time', k.rv.now('t'), add(k.old['t'], t))
        n = k.w.normal('surface', p[0], p[1])
        reflected(k, [k.rv.now('v' + c) for c in 'xyz'], n)
        k.same(['wavelength'])
        k.flags()
        k.flux('R', dot(k.V, n))
    return Unit('reflect %s%s' % (mode, ' coated' if coated else ''), ['reflect'], f)


def reflected(k, o, n):
    u = k.u
    if not fin(*o):
        u.post('the reflected direction is a number', tm.FALSE)
        return
    al = dot(k.V, n)
    eqs(u, 'velocity is reflected about the normal', o, [sub(a, mul(lit(2), mul(al, b))) for a, b in zip(k.V, n)])
    V = [v('V' + c) for c in 'xyz']
    nn = [v('N' + c) for c in 'xyz']
    unit = [tm.eq(dot(nn, nn), ONE)]
    W = [sub(a, mul(lit(2), mul(dot(V, nn), b))) for a, b in zip(V, nn)]
    u.post('normal component reversed', tm.eq(dot(W, nn), neg(dot(V, nn))), hyps=unit)
    for c, a, b in zip('xyz', cross(W, nn), cross(V, nn)):
        u.post('tangential component unchanged (%s)' % c, tm.eq(a, b), hyps=unit)
    u.post('speed preserved', tm.eq(dot(W, W), dot(V, V)), hyps=unit)


def refracted(k, rv, n):
    """velocity after refraction, or total internal reflection"""
    u = k.u
    N2 = k.w.index('medium', k.old['wavelength']) if not k.w.nanindex else NAN
    o = [rv.now('v' + c) for c in 'xyz']
    if N2 is NAN:
        u.post('no direction is invented without an index', tm.const(all(a is NAN for a in o)))
        k.flags(rv, failed=True)
        return
    # n1 = 1/|v|;  sin2^2 = (1 - cos^2) / (v^2 n2^2)
    c = dot(k.V, n)
    sin = div(sub(ONE, div(sq(c), k.vv)), mul(k.vv, sq(N2)))
    over = tm.lt(ONE, sin)
    if any(a is NAN for a in o):
        u.post('the direction is not a number in every component', tm.const(all(a is NAN for a in o)))
        u.post('only under total internal reflection', over)
        k.flags(rv, failed=True)
        return
    if not fin(*o):
        u.post('the refracted direction is a number', tm.FALSE)
        return
    u.post('no direction beyond the critical angle', tm.lnot(over))
    u.post('speed is one over the index', tm.eq(mul(dot(o, o), sq(N2)), ONE))
    # Snell: n2 (n2 v') x n = n1 (n1 v) x n with n1^2 = 1/v^2
    for q, a, b in zip('xyz', cross(o, n), cross(k.V, n)):
        u.post('index times sine conserved, same plane (%s)' % q, tm.eq(mul(mul(sq(N2), k.vv), a), b))
    far_side(k, c, dot(o, n), N2, o)
    k.flags(rv)


def link(u, d):
    """is d > 0 decided by a comparison on the path whose two sides differ by d?  (the identity is
    an obligation of its own, then the comparison decides)"""
    es = [h for h in u.e.pc if h.op == '=']
    for h in list(u.e.pc):
        c = h.args[0] if h.op == 'not' else h
        if c.op not in ('<', '<=') or c.args[0].sort != R:
            continue
        x = sub(c.args[1], c.args[0])          # c says  x > 0 (or >= 0)
        for s in (1, -1):
            w = x if s == 1 else neg(x)
            if len(tm.subterms(w)) < 12 or not prove.quick_eq(tm.eq(d, w), es, 3.0):
                continue
            u.lemma('comparison on the path is the one specified', tm.eq(d, w), es)
            pos = h.op != 'not'
            strict = c.op == '<'
            if s == 1 and pos and strict or s == -1 and not pos and not strict:
                return True                    # d > 0
            if s == 1 and not pos or s == -1 and pos:
                return False                   # d <= 0 (or < 0)
    return None


def far_side(k, c, d, scale, o):
    """sign of the outgoing normal component: scale * d = +-q with q a square root"""
    u = k.u
    goal = tm.land(tm.implies(tm.lt(ZERO, c), tm.le(ZERO, d)), tm.implies(tm.lt(c, ZERO), tm.le(d, ZERO)))
    C, D, Q, S = v('c_'), v('d_'), v('q_'), v('s_')
    up = u.e.branch(tm.lt(ZERO, c))
    if not up and not u.e.branch(tm.lt(c, ZERO)):
        return                  # grazing: both sides are equally far
    sd = mul(scale, d)
    u.post('scale is positive', tm.lt(ZERO, scale))
    es = [h for h in u.e.pc if h.op == '=']
    for q in sorted({q for a in o for q in tm.subterms(a) if q.op == 'sqrt'}, key=lambda q: q.id):
        for w in (q, neg(q)):
            if prove.quick_eq(tm.eq(sd, w), es):
                u.post('normal component is the root of one minus sine squared', tm.eq(sd, w), hyps=es)
                u.post('crosses to the far side', tm.le(ZERO, D) if up else tm.le(D, ZERO), hyps=[
                    tm.lt(ZERO, S), tm.le(ZERO, Q), tm.eq(mul(S, D), Q if w is q else neg(Q))])
                return
    u.post('crosses to the far side', goal)


def kern_refract(mode, coated):
    def f(u):
        k = K(u, 'refract', mode, coated)
        k.go('refract', [k.surf, k.da, k.ma, Abs('Medium', 'incoming'), Abs('Medium', 'medium'), k.rv.o, k.coat,
                         iv('threads'), k.nit])
        if mode.startswith('dead'):
            return dead_post(k)
        h, t, p = k.hit()
        if not h:
            return k.miss()
        eqs(u, 'position advances along the old line by the elapsed time', [k.rv.now(c) for c in 'xyz'], p)
        eq1(u, 'time advances by the crossing time', k.rv.now('t'), add(k.old['t'], t))
        n = k.w.normal('surface', p[0], p[1])
        k.same(['wavelength'])
        k.flux('T', dot(k.V, n))
        refracted(k, k.rv, n)
    return Unit('refract %s%s' % (mode, ' coated' if coated else ''), ['refract'], f, tmo=40)


def kern_rsplit(mode):
    def f(u):
        k = K(u, 'rSplit', mode, True, split=True)
        k.go('rSplit', [k.surf, k.da, k.ma, Abs('Medium', 'incoming'), Abs('Medium', 'medium'),
                        Abs('Coating', 'coating'), k.rv.o, k.rv2.o, iv('threads'), k.nit])
        if mode.startswith('dead'):
            dead_post(k)
            k.same(ALLF, k.rv2, 'of the second batch untouched for a failed ray')
            return
        h, t, p = k.hit()
        if not h:
            k.miss()
            k.miss(k.rv2, 'a missing ray in the second batch')
            return
        n = k.w.normal('surface', p[0], p[1])
        for rv, nm in ((k.rv, 'transmitted'), (k.rv2, 'reflected')):
            eqs(u, '%s position is the crossing' % nm, [rv.now(c) for c in 'xyz'], p)
            eq1(u, '%s time' % nm, rv.now('t'), add(k.old['t'], t))
            eq1(u, '%s wavelength' % nm, rv.now('wavelength'), k.old['wavelength'])
        reflected(k, [k.rv2.now('v' + c) for c in 'xyz'], n)
        for b in BOO:
            eq1(u, 'reflected ray keeps its mark %s' % b, asb(k.rv2.now(b)), k.old[b])
        k.flux('R', dot(k.V, n), k.rv2)
        k.flux('T', dot(k.V, n))
        refracted(k, k.rv, n)
    return Unit('rSplit %s' % mode, ['rSplit'], f, tmo=40)


def kern_screen(mode):
    def f(u):
        k = K(u, 'refractScreen', mode)
        k.go('refractScreen', [k.surf, k.da, k.ma, Abs('Surface', 'screen'), k.rv.o, iv('threads'), k.nit])
        if mode.startswith('dead'):
            return dead_post(k)
        h, t, p = k.hit()
        if not h:
            return k.miss()
        k.same(['wavelength', 'flux'])
        if mode == 'offscreen':
            k.flags(failed=True)
            return
        n = k.w.normal('surface', p[0], p[1])
        gx, gy = k.w.grad('screen', p[0], p[1])
        s_ = k.w.sag('screen', p[0], p[1])
        eqs(u, 'position is the crossing', [k.rv.now(c) for c in 'xyz'], p)
        eq1(u, 'time advances by the crossing time and the delay', k.rv.now('t'), sm(k.old['t'], t, s_))
        o = [k.rv.now('v' + c) for c in 'xyz']
        # tangential direction cosines before and after
        S = tm.sqrt(k.vv)
        g = [gx, gy, ZERO]
        d = [add(div(a, S), b) for a, b in zip(k.V, g)]
        tan = sub(dot(d, d), sq(dot(d, n)))
        over = tm.lt(ONE, tan)
        isfail = [asb(k.rv.now(b)) for b in BOO]
        dec = link(u, sub(tan, ONE))
        if dec is None:
            dec = u.e.branch(over)
        if dec:
            k.flags(failed=True)
            return
        k.flags()
        if not fin(*o):
            u.post('the new direction is a number', tm.FALSE)
            return
        for q, a, b in zip('xyz', cross(o, n), cross(d, n)):
            u.post('direction cosines along the surface gain the gradient (%s)' % q, tm.eq(a, mul(S, b)))
        u.post('speed preserved', tm.eq(dot(o, o), k.vv))
        c, e = dot(k.V, n), dot(o, n)
        far_side(k, c, e, div(ONE, S), o)
    return Unit('refractScreen %s' % mode, ['refractScreen'], f, tmo=60)


def kern_obscure():
    def f(u):
        k = K(u, 'obscure', 'any')
        u.e.pc[:] = [c for c in u.e.pc if not (c.op == 'not' and c.args[0].op == 'app')]
        k.go('obscure', [Abs('Obscuration', 'obsc'), k.rv.o, iv('threads')])
        k.same([q for q in ALLF if q != 'vignetted'])
        ins = k.w.contains(k.old['x'], k.old['y'])
        eq1(u, 'vignetted exactly when it was or lies inside', asb(k.rv.now('vignetted')),
            tm.lor(k.old['vignetted'], ins))
    return Unit('obscure', ['obscure'], f)


def kern_transform(name, back):
    def f(u):
        k = K(u, name, 'any')
        u.e.pc[:] = [c for c in u.e.pc if not (c.op == 'not' and c.args[0].op == 'app')]
        k.go(name, [k.da, k.ma, k.rv.o, iv('threads')])
        P, V = [k.old[c] for c in 'xyz'], [k.old['v' + c] for c in 'xyz']
        if back:
            wp, wv = [add(a, d) for a, d in zip(fromvec(k.m, P), k.dr)], fromvec(k.m, V)
        else:
            wp, wv = k.P, k.V
        eqs(u, 'position', [k.rv.now(c) for c in 'xyz'], wp)
        eqs(u, 'velocity', [k.rv.now('v' + c) for c in 'xyz'], wv)
        k.same(['t', 'wavelength', 'flux'] + BOO)
    return Unit(name, [name], f)


class Arrays:
    def __init__(s, u, names, ghosts=None):
        s.u = u
        s.a = {}
        for n in names:
            s.a[n] = Arr(n, SIZE)
            s.a[n].ghost = [G]

    def old(s, n):
        return s.a[n].initial(G)

    def now(s, n, i=None):
        i = G if i is None else i
        for (kind, j, w) in reversed(s.a[n].log):
            if kind == 'w' and tm.same(i, j):
                return w
            if kind == 'w' and tm.constdiff(i, j) is not None:
                continue
            raise Unsupported('write elsewhere')
        return s.a[n].initial(i)


def pre_idx(u):
    u.e.assume(tm.le(IZERO, G))
    u.e.assume(tm.lt(G, SIZE))
    u.e.assume(tm.lt(SIZE, tm.lit(1 << 30, I)))


def visited(u, x):
    if not getattr(x, 'ghost_visits', 0):
        u.post('every element is visited', tm.FALSE)
        raise PathEnd()


def kern_arrays(name, back):
    def f(u):
        x = u.exec(ghost=G)
        pre_idx(u)
        A = Arrays(u, 'xyz')
        d, m, da, ma = frame(x, u)
        x.callfn(u.prog.find(name), [da, ma] + [Ptr(A.a[c]) for c in 'xyz'] + [SIZE, iv('threads')])
        visited(u, x)
        P = [A.old(c) for c in 'xyz']
        w = [add(a, b) for a, b in zip(fromvec(m, P), d)] if back else tovec(m, [sub(a, b) for a, b in zip(P, d)])
        eqs(u, 'position', [A.now(c) for c in 'xyz'], w)
    return Unit(name, [name], f)


def lem_transforms():
    """forward then reverse is the identity; lengths and angles preserved; composition (P01)"""
    def f(u):
        m = [v('rot%d' % i) for i in range(9)]
        d = [v('dr%d' % i) for i in range(3)]
        p, q = [v('p' + c) for c in 'xyz'], [v('q' + c) for c in 'xyz']
        h = orth(m)
        F = lambda w: tovec(m, [sub(a, b) for a, b in zip(w, d)])
        Rv = lambda w: [add(a, b) for a, b in zip(fromvec(m, w), d)]
        for nm, g in (('reverse undoes forward', Rv(F(p))), ('forward undoes reverse', F(Rv(p)))):
            for c, a, b in zip('xyz', g, p):
                u.post('%s (%s)' % (nm, c), tm.eq(a, b), hyps=h)
        a, b = tovec(m, p), tovec(m, q)
        u.post('dot products preserved', tm.eq(dot(a, b), dot(p, q)), hyps=h)
        a, b = fromvec(m, p), fromvec(m, q)
        u.post('dot products preserved (reverse)', tm.eq(dot(a, b), dot(p, q)), hyps=h)
    return Unit('transform lemmas', ['(lemma) rigid transforms'], f)


def kern_finish():
    """finishParallel: puts each point on the plane through dr across vv, moving along vv"""
    def f(u):
        x = u.exec(ghost=G)
        pre_idx(u)
        A = Arrays(u, 'xyz')
        d, m, da, ma = frame(x, u)
        vv = [v('vv' + c) for c in 'xyz']
        va = x.zarr(3)
        for i in range(3):
            va.log.append(('w', tm.lit(i, I), vv[i]))
        h = orth(m)
        for c in h:
            u.e.assume(c)
        vz = tovec(m, vv)[2]
        u.e.assume(tm.ne(vz, ZERO))
        x.callfn(u.prog.find('finishParallel'), [da, ma, va] + [Ptr(A.a[c]) for c in 'xyz'] + [SIZE])
        visited(u, x)
        P = [A.old(c) for c in 'xyz']
        o = [A.now(c) for c in 'xyz']
        loc = tovec(m, [sub(a, b) for a, b in zip(P, d)])
        s = div(neg(loc[2]), vz)
        if not fin(*o):
            u.post('a point is produced', tm.FALSE)
            return
        eqs(u, 'moved along the given direction', o, [add(a, mul(s, b)) for a, b in zip(P, vv)], hyps=h + [tm.ne(vz, ZERO)])
        w = [add(a, mul(v('s_'), b)) for a, b in zip(P, vv)]
        u.post('onto the plane', tm.eq(tovec(m, [sub(a, b) for a, b in zip(w, d)])[2], ZERO),
               hyps=[tm.eq(mul(v('s_'), vz), neg(loc[2]))])
    return Unit('finishParallel', ['finishParallel'], f)


# ---------------------------------------------------------------- RayVector (P15)
def rvmethod(u, names, out=None, consts=True):
    x = u.exec(ghost=G)
    pre_idx(u)
    r = Rays(x)
    A = Arrays(u, names)
    return x, r, A


def rv_position():
    def f(u):
        x, r, A = rvmethod(u, ['xout', 'yout', 'zout'])
        for k in ALLF:
            r.arr[k].const = True
        t = v('T')
        x.method(r.o, 'positionAtTime', [t] + [Ptr(A.a[n]) for n in ('xout', 'yout', 'zout')] + [iv('threads')])
        visited(u, x)
        dt = sub(t, r.old['t'])
        eqs(u, 'position plus velocity times elapsed time', [A.now(n) for n in ('xout', 'yout', 'zout')],
            [add(r.old[c], mul(r.old['v' + c], dt)) for c in 'xyz'])
    return Unit('RayVector::positionAtTime', ['RayVector::positionAtTime'], f)


def rv_propagate():
    def f(u):
        x, r, A = rvmethod(u, [])
        t = v('T')
        x.method(r.o, 'propagateInPlace', [t, iv('threads')])
        visited(u, x)
        dt = sub(t, r.old['t'])
        eqs(u, 'moved to its position at that time', [r.now(c) for c in 'xyz'],
            [add(r.old[c], mul(r.old['v' + c], dt)) for c in 'xyz'])
        eq1(u, 'time set', r.now('t'), t)
        for k in ('vx', 'vy', 'vz', 'wavelength', 'flux', 'vignetted', 'failed'):
            eq1(u, k + ' unchanged', r.now(k), r.old[k])
    return Unit('RayVector::propagateInPlace', ['RayVector::propagateInPlace'], f)


from fractions import Fraction
import math
PI = tm.lit(Fraction(math.pi))


def phase_of(r, p, t, i=None):
    o = r.old if i is None else {k: r.arr[k].initial(i) for k in ALLF}
    V = [o['v' + c] for c in 'xyz']
    kr = div(dot(V, [sub(a, o[c]) for a, c in zip(p, 'xyz')]), dot(V, V))
    return mul(div(mul(lit(2), PI), o['wavelength']), sub(kr, sub(t, o['t'])))


def phase_pre(u, r):
    V = [r.old['v' + c] for c in 'xyz']
    u.e.assume(tm.lt(ZERO, dot(V, V)))
    u.e.assume(tm.lt(ZERO, r.old['wavelength']))


def rv_phase():
    def f(u):
        x, r, A = rvmethod(u, ['out'])
        phase_pre(u, r)
        for k in ALLF:
            r.arr[k].const = True
        p, t = [v('P' + c) for c in 'xyz'], v('T')
        x.method(r.o, 'phase', p + [t, Ptr(A.a['out']), iv('threads')])
        visited(u, x)
        eq1(u, 'phase is k.(r-r0) - omega (t-t0)', A.now('out'), phase_of(r, p, t))
    return Unit('RayVector::phase', ['RayVector::phase'], f)


def rv_amplitude():
    def f(u):
        x = u.exec(ghost=G)
        pre_idx(u)
        r = Rays(x)
        phase_pre(u, r)
        for k in ALLF:
            r.arr[k].const = True
        a = Arr('out', mul(lit(2, I), SIZE))
        g2 = mul(lit(2, I), G)
        a.ghost = [g2, add(g2, IONE)]
        A = Arrays(u, [])
        A.a['out'] = a
        p, t = [v('P' + c) for c in 'xyz'], v('T')
        x.method(r.o, 'amplitude', p + [t, Ptr(a), iv('threads')])
        visited(u, x)
        ph = phase_of(r, p, t)
        c, s_ = A.now('out', g2), A.now('out', add(g2, IONE))
        eq1(u, 'real part is the cosine of the phase', c, tm.fn1('cos', ph))
        eq1(u, 'imaginary part is the sine of the phase', s_, tm.fn1('sin', ph))
    return Unit('RayVector::amplitude', ['RayVector::amplitude'], f)


def rv_sum(deadnan):
    def f(u):
        x = u.exec()
        u.e.assume(tm.le(IZERO, SIZE))
        u.e.assume(tm.lt(SIZE, tm.lit(1 << 30, I)))
        r = Rays(x)
        for k in ALLF:
            r.arr[k].ghost = None
            r.arr[k].const = True
        p, t = [v('P' + c) for c in 'xyz'], v('T')
        ign = tm.var('ignoreVignetted', B)
        old = {k: r.arr[k].initial for k in ALLF}
        if deadnan:
            for k in ('x', 'y', 'z', 'vx', 'vy', 'vz', 't', 'wavelength', 'flux'):
                r.arr[k].base = (lambda i, k=k: fp.XNF if u.e.branch(tm.app('failed', (i,), B)) else ap(k, i))

        def term(i, fn):
            o = {k: (ap(k, i) if k in DBL else tm.app(k, (i,), B)) for k in ALLF}
            V = [o['v' + c] for c in 'xyz']
            kr = div(dot(V, [sub(a, o[c]) for a, c in zip(p, 'xyz')]), dot(V, V))
            ph = mul(div(mul(lit(2), PI), o['wavelength']), sub(kr, sub(t, o['t'])))
            live = tm.land(tm.lnot(o['failed']), tm.lnot(tm.land(ign, o['vignetted'])))
            return tm.ite(live, mul(tm.fn1(fn, ph), o['flux']), ZERO)
        for fn in ('cos', 'sin'):
            tm.RECUR['sum_' + fn] = (lambda: ZERO, lambda k, fn=fn: add(tm.app('sum_' + fn, (k,)), term(k, fn)))
        xs = []

        def ex(x_, k, tv, en):
            # the wave of an unfailed ray is well defined
            V = [ap('v' + c, k) for c in 'xyz']
            fl = tm.app('failed', (k,), B)
            if not x_.matching:
                x_.e.assume(tm.lor(fl, tm.land(tm.lt(ZERO, dot(V, V)), tm.lt(ZERO, ap('wavelength', k)))))
                if not deadnan:
                    x_.e.assume(tm.land(tm.lt(ZERO, dot(V, V)), tm.lt(ZERO, ap('wavelength', k))))
            return [tm.app('sum_cos', (k,)), tm.app('sum_sin', (k,))]
        x.fold = Fold(ex)
        out = x.method(r.o, 'sumAmplitude', p + [t, ign, iv('threads')])
        if not isinstance(out, cxx.Cplx):
            u.post('a complex number is returned', tm.FALSE)
            return
        eq1(u, 'real part is the flux-weighted sum over the rays counted', out.re, tm.app('sum_cos', (SIZE,)))
        eq1(u, 'imaginary part is the flux-weighted sum over the rays counted', out.im, tm.app('sum_sin', (SIZE,)))
    return Unit('RayVector::sumAmplitude' + (' (failed rays not numbers)' if deadnan else ''),
                ['RayVector::sumAmplitude'], f)


def pick(*names):
    """units of the kernels named"""
    us = []
    for n in names:
        if n == 'intersect':
            us += [kern_intersect(m, c) for m in MODES for c in (False, True)]
        elif n == 'reflect':
            us += [kern_reflect(m, c) for m in MODES for c in (False, True)]
        elif n == 'refract':
            us += [kern_refract(m, c) for m in MODES + ('noindex',) for c in (False, True)]
        elif n == 'rSplit':
            us += [kern_rsplit(m) for m in MODES + ('noindex',)]
        elif n == 'screen':
            us += [kern_screen(m) for m in MODES + ('offscreen',)]
        elif n == 'obscure':
            us += [kern_obscure()]
        elif n == 'transform':
            us += [kern_transform('applyForwardTransform', False), kern_transform('applyReverseTransform', True),
                   kern_arrays('applyForwardTransformArrays', False),
                   kern_arrays('applyReverseTransformArrays', True), lem_transforms()]
        elif n == 'finish':
            us += [kern_finish()]
        elif n == 'wave':
            us += [rv_position(), rv_propagate(), rv_phase(), rv_amplitude(), rv_sum(False), rv_sum(True)]
    return us
