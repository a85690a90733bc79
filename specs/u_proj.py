"""P17: the field-angle projections of batoid/utils.py."""
from pw import *
import prove

UT = 'batoid/utils.py::'
NM = ['postel', 'zemax', 'gnomonic', 'stereographic', 'lambert', 'orthographic']
TWO = tm.lit(2)
PI = pysym.PI


def sq(x):
    return tm.mul(x, x)


def rho2(u, v):
    return tm.add(sq(u), sq(v))


def hints(u, cands):
    """a root is simplified to c when its radicand equals c^2 and c >= 0 follows from the path"""
    def h(a):
        for c in cands():
            g = tm.eq(a, sq(c))
            if tm.isc(g):
                ok = tm.cval(g)
            else:
                ok = g in u.e.pc or prove.quick_eq(g, prove.flatten(u.e.pc), 3.0)
            if ok and not prove.feasible(u.e.pc + [tm.lt(c, ZERO)], 500):
                return c
        return None
    u.e.sqrt_hints = [h]


def angles_fact(u, x):
    """x may be recovered by the inverse functions: assumed facts of the mathematical functions"""
    u.trust('inverse trigonometric functions: arccos(cos x) = x on [0, pi], arcsin(sin x) = x on [-pi/2, pi/2], '
            'arctan(tan x) = x on (-pi/2, pi/2)')


def dom(u, nm, a, b):
    """documented domain of the projection"""
    r2 = rho2(a, b)
    if nm == 'postel':
        u.assume(tm.lt(r2, sq(PI)))
        u.assume(tm.lt(tm.lit(3), PI), tm.lt(PI, tm.lit(4)))
        r = tm.sqrt(r2)
        u.assume(tm.implies(tm.lt(ZERO, r2), tm.lt(ZERO, tm.fn1('sin', r))))
        u.trust('sin x > 0 for 0 < x < pi')
        u.assume(tm.lt(r, PI))
    elif nm == 'zemax':
        u.assume(tm.lt(tm.lit(3), PI), tm.lt(PI, tm.lit(4)))
        for x in (a, b):
            u.assume(tm.lt(tm.neg(PI), tm.mul(TWO, x)), tm.lt(tm.mul(TWO, x), PI))
            u.assume(tm.lt(ZERO, tm.fn1('cos', x)))
        u.trust('cos x > 0 for |x| < pi/2')
    elif nm == 'lambert':
        u.assume(tm.lt(r2, tm.lit(4)))
    elif nm == 'orthographic':
        u.assume(tm.lt(r2, ONE))


def direction(u, nm, x, y, d, what):
    """the documented direction of the field (x, y)"""
    e = u.e
    vs = [rv(q) for q in d]
    if not all(isinstance(q, T) for q in vs):
        u.post(what + ': the direction is a number', tm.FALSE)
        return
    a, b, g = vs
    r2 = rho2(x, y)
    u.post(what + ': unit length', tm.eq(tm.add(tm.add(sq(a), sq(b)), sq(g)), ONE))
    zero = e.branch(tm.eq(r2, ZERO))
    if zero:
        # x = y = 0
        for q in (x, y):
            e.assume(tm.eq(q, ZERO))
        if nm in ('postel', 'stereographic', 'lambert'):
            # these have a removable singularity here: the value must be the straight direction
            pass
        for q, w, n in ((a, ZERO, 'x'), (b, ZERO, 'y'), (g, tm.lit(-1), 'z')):
            if nm == 'zemax':
                e.assume(tm.eq(tm.fn1('sin', x), ZERO))
                e.assume(tm.eq(tm.fn1('sin', y), ZERO))
                e.assume(tm.eq(tm.fn1('cos', x), ONE))
                e.assume(tm.eq(tm.fn1('cos', y), ONE))
            if nm == 'postel':
                e.assume(tm.eq(tm.fn1('cos', tm.sqrt(r2)), ONE))
            u.post(what + ': on axis the straight direction (%s)' % n, tm.eq(q, w))
        return
    r = tm.sqrt(r2)
    if nm == 'postel':
        u.post(what + ': x', tm.eq(tm.mul(a, r), tm.mul(x, tm.fn1('sin', r))))
        u.post(what + ': y', tm.eq(tm.mul(b, r), tm.mul(y, tm.fn1('sin', r))))
        u.post(what + ': z', tm.eq(g, tm.neg(tm.fn1('cos', r))))
    elif nm == 'zemax':
        u.post(what + ': tan u', tm.eq(tm.mul(tm.neg(a), tm.fn1('cos', x)), tm.mul(g, tm.fn1('sin', x))))
        u.post(what + ': tan v', tm.eq(tm.mul(tm.neg(b), tm.fn1('cos', y)), tm.mul(g, tm.fn1('sin', y))))
        u.post(what + ': downward', tm.lt(g, ZERO))
    elif nm == 'gnomonic':
        u.post(what + ': x', tm.eq(tm.neg(a), tm.mul(g, x)))
        u.post(what + ': y', tm.eq(tm.neg(b), tm.mul(g, y)))
        u.post(what + ': downward', tm.lt(g, ZERO))
    elif nm == 'stereographic':
        q = tm.div(r2, tm.lit(4))
        u.post(what + ': x', tm.eq(tm.mul(a, tm.add(ONE, q)), x))
        u.post(what + ': y', tm.eq(tm.mul(b, tm.add(ONE, q)), y))
        u.post(what + ': z', tm.eq(tm.mul(g, tm.add(ONE, q)), tm.sub(q, ONE)))
    elif nm == 'lambert':
        u.post(what + ': z (equal area)', tm.eq(tm.mul(TWO, g), tm.sub(r2, TWO)))
        f = tm.sqrt(tm.sub(ONE, tm.div(r2, tm.lit(4))))
        u.post(what + ': x', tm.lor(tm.land(tm.eq(a, ZERO), tm.eq(x, ZERO)), tm.lt(ZERO, tm.mul(a, x))))
        u.post(what + ': y', tm.lor(tm.land(tm.eq(b, ZERO), tm.eq(y, ZERO)), tm.lt(ZERO, tm.mul(b, y))))
        u.post(what + ': same azimuth', tm.eq(tm.mul(a, y), tm.mul(b, x)))
    elif nm == 'orthographic':
        u.post(what + ': x', tm.eq(a, x))
        u.post(what + ': y', tm.eq(b, y))
        u.post(what + ': downward', tm.le(g, ZERO))


def funcs(b, nm, how):
    m = b.utils
    N = nm.capitalize()
    if how == 0:
        return getattr(m, nm + 'ToDirCos'), getattr(m, 'dirCosTo' + N)
    return (lambda u, v: m.fieldToDirCos(u, v, projection=nm)), (lambda a, c, g: m.dirCosToField(a, c, g, projection=nm))


def inputs(u, mode, names):
    """scalars, or element k of arrays of arbitrary length"""
    if mode == 0:
        xs = [real(n) for n in names]
        return xs, xs, None, None
    n, k = intv('n'), intv('k')
    u.assume(tm.le(tm.IZERO, k.v), tm.lt(k.v, n.v))
    xs = [arr(q, n) for q in names]
    u.e.ghosts = [(k.v,)]
    return xs, [x.get(k.v) for x in xs], k, n


def elem(u, r, mode, k, n, what, cnt):
    if mode == 0 or not any(isinstance(q, A) for q in r):
        if not (isinstance(r, tuple) and len(r) == cnt):
            u.post(what + ': %d values' % cnt, tm.FALSE)
            raise PathEnd()
        if mode == 1:
            # one element on axis may give plain numbers
            u.post(what + ': plain numbers only for one element', tm.eq(n.v, tm.IONE))
        return list(r)
    out = []
    for q in r:
        if not (isinstance(q, A) and len(q.dims) == 1):
            u.post(what + ': arrays of the input\'s shape', tm.FALSE)
            raise PathEnd()
        out.append(q.get(k.v))
    return out


def to_dir(nm):
    def go(u):
        w, b = begin(u)
        how, mode = u.e.choose(2), u.e.choose(2)
        to, fr = funcs(b, nm, how)
        xs, (x, y), k, n = inputs(u, mode, ['u', 'v'])
        dom(u, nm, x.v, y.v)
        hints(u, lambda: [])
        d = elem(u, to(*xs), mode, k, n, 'direction', 3)
        direction(u, nm, x.v, y.v, d, 'field to direction')
        if mode:
            for q, nn, z in zip(xs, 'uv', (x, y)):
                peq(u, 'the input array is not changed', q.get(k.v), mk(tm.app(nn, (k.v,))))
    return go


def there_back(nm):
    def go(u):
        w, b = begin(u)
        how, mode = u.e.choose(2), u.e.choose(2)
        to, fr = funcs(b, nm, how)
        xs, (x, y), k, n = inputs(u, mode, ['u', 'v'])
        dom(u, nm, x.v, y.v)
        r = tm.sqrt(rho2(x.v, y.v))
        u.e.angles = [x.v, y.v] if nm == 'zemax' else [r] if nm == 'postel' else []
        angles_fact(u, None)
        if nm == 'postel':
            # cos x = -1... 1 at the ends only
            u.assume(tm.implies(tm.eq(tm.fn1('cos', r), ONE), tm.eq(r, ZERO)))
            u.trust('cos x = 1 on [0, pi) only at 0')
        d = to(*xs)
        f = elem(u, fr(*d), mode, k, n, 'field', 2)
        peq(u, 'field to direction and back: u', f[0], x)
        peq(u, 'field to direction and back: v', f[1], y)
    return go


def back_there(nm):
    def go(u):
        w, b = begin(u)
        how, mode = u.e.choose(2), u.e.choose(2)
        to, fr = funcs(b, nm, how)
        xs, (x, y, z), k, n = inputs(u, mode, ['a', 'b', 'g'])
        a, c, g = x.v, y.v, z.v
        u.assume(tm.eq(tm.add(tm.add(sq(a), sq(c)), sq(g)), ONE))
        if nm in ('gnomonic', 'zemax', 'orthographic'):
            u.assume(tm.lt(g, ZERO))
        else:
            u.assume(tm.lt(g, ONE))
        th = tm.fn1('arccos', tm.neg(g))
        s = tm.sqrt(tm.sub(ONE, sq(g)))
        u.assume(tm.lt(tm.lit(3), PI), tm.lt(PI, tm.lit(4)))
        u.assume(tm.implies(tm.lt(tm.neg(g), ONE), tm.lt(ZERO, th)))
        u.assume(tm.implies(tm.lt(tm.neg(ONE), tm.neg(g)), tm.lt(th, PI)))
        u.trust('arccos x > 0 for x < 1, arccos x < pi for x > -1')
        u.assume(tm.implies(tm.lt(ZERO, tm.sub(ONE, sq(g))), tm.lt(ZERO, s)))
        half = tm.div(th, TWO)
        tanh = tm.mul(TWO, tm.div(tm.fn1('sin', half), tm.fn1('cos', half)))
        if nm == 'stereographic':
            u.e.angles = [half]
        hints(u, lambda: [th, tanh, tm.neg(g), tm.neg(tm.div(ONE, g)) if nm in ('gnomonic', 'zemax') else th,
                          s, tm.sqrt(tm.add(TWO, tm.mul(TWO, g)))])
        f = fr(*xs)
        ff = elem(u, f, mode, k, n, 'field', 2)
        if u.e.branch(tm.eq(g, tm.lit(-1))):
            for q in (a, c):
                u.e.assume(tm.eq(q, ZERO))
            peq(u, 'the straight direction is the on-axis field: u', ff[0], 0.0)
            peq(u, 'the straight direction is the on-axis field: v', ff[1], 0.0)
            return
        d = elem(u, to(*f), mode, k, n, 'direction', 3)
        peq(u, 'direction to field and back: x', d[0], x)
        peq(u, 'direction to field and back: y', d[1], y)
        peq(u, 'direction to field and back: z', d[2], z)
    return go


def u_generic(u):
    w, b = begin(u)
    m = b.utils
    x, y, z = real('u'), real('v'), real('g')
    bad = lambda f: isfail(f, ValueError)
    u.post('unknown projections are refused', tm.const(bad(lambda: m.fieldToDirCos(x, y, projection='mercator'))))
    u.post('unknown projections are refused (back)', tm.const(bad(lambda: m.dirCosToField(x, y, z, projection='mercator'))))
    d = m.fieldToDirCos(x, y)
    e = m.postelToDirCos(x, y)
    peq(u, 'the default projection is Postel', d, e)
    u.e.assume(tm.lt(sq(z.v), ONE))
    peq(u, 'the default projection is Postel (back)', m.dirCosToField(x, y, z), m.dirCosToPostel(x, y, z))


def units():
    out = []
    for nm in NM:
        N = nm.capitalize()
        fs = [UT + nm + 'ToDirCos', UT + 'fieldToDirCos']
        gs = [UT + 'dirCosTo' + N, UT + 'dirCosToField']
        out.append(punit(nm + ': documented unit direction', fs, to_dir(nm)))
        out.append(punit(nm + ': field to direction and back', fs + gs, there_back(nm)))
        out.append(punit(nm + ': direction to field and back', fs + gs, back_there(nm)))
    out.append(punit('projection dispatch', [UT + 'fieldToDirCos', UT + 'dirCosToField'], u_generic))
    return out
