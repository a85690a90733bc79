"""Units about media (P14), coatings (P11), obscurations (P12) and ray-batch equality (P18)."""
import terms as tm
from terms import I, B, R, ZERO, ONE, IZERO, IONE, T
import fp, cxx, zoo
from cxx import Arr, Ptr, Cell, Obj, ObjPtr, Abs, Fold
from fp import NAN
from unit import Unit
from zoo import v, iv, sq, sm, lit, add, sub, mul, div, neg, ap, val
from engine import PathEnd


def bapp(f, *a):
    """Boolean recursive spec function, unfolded when its count is a constant"""
    t = tm.app(f, a, B)
    return tm.unfold(t) if f in tm.RECUR else t


def new(x, cls, args):
    o = x.newobj(cls, args)
    cxx.freeze(x.e, o)
    return o


# ---------------------------------------------------------------- P14
def simple_medium(cls, names, formula, pre=None):
    def f(u):
        x = u.exec()
        ps = [v(n) for n in names]
        o = new(x, cls, ps)
        w = v('wavelength')
        if pre:
            u.assume(*pre(w, *ps))
        r = x.method(o, 'getN', [w])
        want = formula(w, *ps)
        u.post('%s::getN equals the documented formula' % cls,
               tm.eq(r, want) if isinstance(r, T) else tm.FALSE)
    return Unit(cls + '::getN', [cls + '::getN', cls + '::' + cls], f)


def simple_medium_nan(cls, names, rad, pre=None):
    """no index is invented where the formula has none"""
    def f(u):
        x = u.exec()
        ps = [v(n) for n in names]
        o = new(x, cls, ps)
        w = v('wavelength')
        if pre:
            u.assume(*pre(w, *ps))
        u.assume(tm.lt(rad(w, *ps), ZERO))
        r = x.method(o, 'getN', [w])
        u.post('%s::getN is not a number where the radicand is negative' % cls, tm.const(not isinstance(r, T)))
    return Unit(cls + '::getN without value', [cls + '::getN'], f)


def um2(w):
    return mul(sq(w), lit('1000000000000'))


def sell_rad(w, b1, b2, b3, c1, c2, c3):
    x = um2(w)
    return sm(ONE, *[div(mul(b, x), sub(x, c)) for b, c in ((b1, c1), (b2, c2), (b3, c3))])


def sell_pre(w, b1, b2, b3, c1, c2, c3):
    return [tm.ne(um2(w), c) for c in (c1, c2, c3)]


def sumita_rad(w, *A):
    x = um2(w)
    return sm(A[0], mul(A[1], x), *[div(A[k + 1], tm.powi(x, k)) for k in range(1, 5)])


def nonneg_rad(rad, pre):
    return lambda w, *p: pre(w, *p) + [tm.le(ZERO, rad(w, *p))]


def air(w, P, Tk, W):
    F = lambda s: lit(tm.Fraction(s))
    p, t, h = mul(P, F('7.50061683')), sub(Tk, F('273.15')), mul(W, F('7.50061683'))
    s2 = div(F('1e-12'), sq(w))
    n = mul(sm(F('64.328'), div(F('29498.1'), sub(F('146.0'), s2)), div(F('255.4'), sub(F('41.0'), s2))), F('1e-6'))
    tt = add(ONE, mul(F('0.003661'), t))
    n = div(mul(n, mul(p, add(ONE, mul(mul(sub(F('1.049'), mul(F('0.0157'), t)), F('1e-6')), p)))),
            mul(F('720.883'), tt))
    n = sub(n, mul(mul(div(sub(F('0.0624'), mul(F('0.000680'), s2)), tt), h), F('1e-6')))
    return add(ONE, n)


def air_pre(w, P, Tk, W):
    F = lambda s: lit(tm.Fraction(s))
    s2 = div(F('1e-12'), sq(w))
    return [tm.ne(w, ZERO), tm.ne(F('146.0'), s2), tm.ne(F('41.0'), s2),
            tm.ne(add(ONE, mul(F('0.003661'), sub(Tk, F('273.15')))), ZERO)]


class TableM:
    def __init__(s, x):
        s.n = iv('size')
        x.e.assume(tm.le(lit(2, I), s.n))
        s.args = Arr('args', s.n, const=True)
        s.vals = Arr('vals', s.n, const=True)
        s.seen = [IZERO, sub(s.n, IONE)]
        s.e = x.e
        s.args.onread = s.read
        s.e.assume(s.order(*s.seen))
        s.o = new(x, 'TableMedium', [Ptr(s.args), Ptr(s.vals), s.n])

    def a(s, i):
        return s.args.initial(i)

    def order(s, i, j):
        inr = tm.land(tm.le(IZERO, i), tm.lt(i, j), tm.lt(j, s.n))
        return tm.implies(inr, tm.lt(s.a(i), s.a(j)))

    def read(s, i):
        """the tabulated wavelengths increase (precondition), instantiated for every pair of read indexes"""
        if any(tm.same(i, j) for j in s.seen):
            return
        for j in s.seen:
            s.e.assume(s.order(i, j))
            s.e.assume(s.order(j, i))
        s.seen.append(i)


def u_table():
    def f(u):
        x = u.exec()
        t = TableM(x)
        w = v('wavelength')
        j = iv('j')
        a, b = t.a(j), t.a(add(j, IONE))
        u.assume(tm.le(IZERO, j), tm.lt(add(j, IONE), t.n), tm.le(a, w), tm.le(w, b))
        t.read(j)
        t.read(add(j, IONE))

        def preds(x_, ints, k=None):
            out = []
            for i in ints:
                for d in (-1, 0, 1):
                    q = add(i, lit(d, I))
                    inr = tm.land(tm.le(IZERO, q), tm.lt(q, t.n))
                    out.append(tm.land(inr, tm.le(t.a(q), w)))
                    out.append(tm.land(inr, tm.lt(w, t.a(q))))
                out.append(tm.le(i, t.n))
                p = sub(i, IONE)           # everything before i lies at or below the wavelength
                out.append(tm.lor(tm.le(i, IZERO), tm.land(tm.lt(p, t.n), tm.le(t.a(p), w))))
            return out
        x.fold = Fold(preds=preds)
        r = x.method(t.o, 'getN', [w])
        if not isinstance(r, T):
            u.post('TableMedium::getN has a value inside the table', tm.FALSE)
            return
        va, vb = t.vals.initial(j), t.vals.initial(add(j, IONE))
        want = add(va, div(mul(sub(w, a), sub(vb, va)), sub(b, a)))
        # where the code's bracket is, relative to the arbitrary one
        for K in x.kvars:
            for d in (0, 1, 2, -1, -2):
                if u.e.branch(tm.eq(K, add(j, lit(d, I)))):
                    break
        if u.e.infeasible():
            raise PathEnd()
        if u.e.branch(tm.eq(w, b)):
            want = vb
        elif u.e.branch(tm.eq(w, a)):
            want = va
        u.post('TableMedium::getN interpolates linearly between neighbouring entries', tm.eq(r, want))
    return Unit('TableMedium::getN', ['TableMedium::getN', 'TableMedium::TableMedium'], f)


def u_table_out():
    def f(u):
        x = u.exec()
        t = TableM(x)
        w = v('wavelength')
        u.assume(tm.lor(tm.lt(w, t.a(IZERO)), tm.lt(t.a(sub(t.n, IONE)), w)))
        r = x.method(t.o, 'getN', [w])
        u.post('TableMedium::getN is not a number outside the table', tm.const(r is NAN))
    return Unit('TableMedium::getN outside', ['TableMedium::getN'], f)


def media():
    return [
        simple_medium('ConstMedium', ['n'], lambda w, n: n),
        simple_medium('SellmeierMedium', ['B1', 'B2', 'B3', 'C1', 'C2', 'C3'],
                      lambda *a: tm.sqrt(sell_rad(*a)), nonneg_rad(sell_rad, sell_pre)),
        simple_medium_nan('SellmeierMedium', ['B1', 'B2', 'B3', 'C1', 'C2', 'C3'], sell_rad, sell_pre),
        simple_medium('SumitaMedium', ['A%d' % i for i in range(6)],
                      lambda *a: tm.sqrt(sumita_rad(*a)), nonneg_rad(sumita_rad, lambda w, *p: [tm.ne(w, ZERO)])),
        simple_medium_nan('SumitaMedium', ['A%d' % i for i in range(6)], sumita_rad,
                          lambda w, *p: [tm.ne(w, ZERO)]),
        simple_medium('Air', ['P', 'T', 'W'], air, air_pre),
        u_table(), u_table_out()]


# ---------------------------------------------------------------- P11
def u_coating():
    def f(u):
        x = u.exec()
        rr, tt, w, c = v('reflectivity'), v('transmissivity'), v('wavelength'), v('cosine')
        o = new(x, 'SimpleCoating', [rr, tt])
        a, b = Cell(fp.POISON), Cell(fp.POISON)
        x.method(o, 'getCoefs', [w, c, a, b])
        r = x.method(o, 'getReflect', [w, c])
        t = x.method(o, 'getTransmit', [w, c])
        for nm, got, want in (('getCoefs reflect', a.v, rr), ('getCoefs transmit', b.v, tt),
                              ('getReflect', r, rr), ('getTransmit', t, tt)):
            u.post('SimpleCoating::%s is the stated constant' % nm, tm.eq(got, want) if isinstance(got, T) else tm.FALSE)
    return Unit('SimpleCoating', ['SimpleCoating::getCoefs', 'SimpleCoating::getReflect',
                                  'SimpleCoating::getTransmit', 'SimpleCoating::SimpleCoating'], f)


# ---------------------------------------------------------------- P12
def region(cls, names, spec, pre=None):
    def f(u):
        x = u.exec()
        ps = [v(n) for n in names]
        if pre:
            u.assume(*pre(*ps))
        o = new(x, cls, ps)
        X, Y = v('x'), v('y')
        r = x.method(o, 'contains', [X, Y])
        u.post('%s contains exactly the documented region' % cls, tm.iff(r, spec(X, Y, *ps)))
    return Unit(cls + '::contains', [cls + '::contains', cls + '::' + cls], f)


def dist(X, Y, x0, y0):
    return tm.sqrt(add(sq(sub(X, x0)), sq(sub(Y, y0))))


def rot(X, Y, x0, y0, th):
    c, s = tm.fn1('cos', th), tm.fn1('sin', th)
    dx, dy = sub(X, x0), sub(Y, y0)
    return add(mul(c, dx), mul(s, dy)), sub(mul(c, dy), mul(s, dx))


def half(w):
    return div(w, lit(2))


def rect(X, Y, w, h, x0, y0, th):
    p, q = rot(X, Y, x0, y0, th)
    return tm.land(tm.lt(neg(half(w)), p), tm.lt(p, half(w)), tm.lt(neg(half(h)), q), tm.lt(q, half(h)))


def ray(X, Y, w, th, x0, y0):
    p, q = rot(X, Y, x0, y0, th)
    return tm.land(tm.lt(ZERO, p), tm.lt(neg(half(w)), q), tm.lt(q, half(w)))


def u_negation():
    def f(u):
        x = u.exec(contracts={('Obscuration', 'contains'): c_member})
        o = new(x, 'ObscNegation', [ObjPtr(Abs('Obscuration', lit(0, I)))])
        X, Y = v('x'), v('y')
        r = x.method(o, 'contains', [X, Y])
        u.post('a negation contains exactly the complement', tm.iff(r, tm.lnot(member(lit(0, I), X, Y))))
    return Unit('ObscNegation::contains', ['ObscNegation::contains', 'ObscNegation::ObscNegation'], f)


def member(i, X, Y):
    return tm.app('member', (i, X, Y), B)


def c_member(x, o, X, Y):
    return member(o.ident, val(X), val(Y))


zoo.rec('anymem', lambda X, Y: tm.FALSE, lambda k, X, Y: tm.lor(bapp('anymem', k, X, Y), member(k, X, Y)))
zoo.rec('allmem', lambda X, Y: tm.TRUE, lambda k, X, Y: tm.land(bapp('allmem', k, X, Y), member(k, X, Y)))


def u_many(cls, f0):
    """union / intersection of any number of members"""
    def f(u):
        x = u.exec(contracts={('Obscuration', 'contains'): c_member})
        n = iv('nobsc')
        u.assume(tm.le(IZERO, n))
        arr = Arr('obscs', n, 'Obscuration*', base=lambda i: ObjPtr(Abs('Obscuration', i)), const=True)
        o = new(x, cls, [Ptr(arr), n])
        X, Y = v('x'), v('y')
        S = lambda k: bapp(f0, k, X, Y)
        x.fold = Fold(lambda x_, k, t, en: [S(k), tm.lnot(S(k))],
                      preds=lambda x_, ints: sum([[S(i), tm.lnot(S(i))] for i in ints], []))
        r = x.method(o, 'contains', [X, Y])
        for K in x.kvars:        # monotone in the number of members (lemma)
            K1 = add(K, IONE)
            if f0 == 'anymem':
                u.assume(tm.implies(tm.land(tm.le(K1, n), S(K1)), S(n)))
            else:
                u.assume(tm.implies(tm.land(tm.le(K1, n), S(n)), S(K1)))
        u.post('%s contains exactly what %s' % (cls, 'some member contains' if f0 == 'anymem' else
                                                'every member contains'), tm.iff(r, S(n)))
    return Unit(cls + '::contains', [cls + '::contains', cls + '::' + cls], f)


def u_many_lemma():
    def f(u):
        X, Y, i, n = v('x'), v('y'), iv('i'), iv('n')
        A, L = (lambda k: bapp('anymem', k, X, Y)), (lambda k: bapp('allmem', k, X, Y))
        n1 = add(n, IONE)
        u.post('any: kept by further members (step)', tm.implies(tm.implies(A(i), A(n)), tm.implies(A(i), A(n1))))
        u.post('all: needed for every prefix (step)', tm.implies(tm.implies(L(n), L(i)), tm.implies(L(n1), L(i))))
        i1 = add(i, IONE)
        u.post('any: contains each member', tm.implies(member(i, X, Y), A(i1)))
        u.post('all: inside each member', tm.implies(L(i1), member(i, X, Y)))
    return Unit('set combination lemmas', ['(lemma) union and intersection'], f)


# polygons: vertices (xp, yp); edge k joins vertex k to the next one, cyclically
def vx(k, n):
    return tm.ite(tm.lt(k, n), ap('xp', k), ap('xp', IZERO))


def vy(k, n):
    return tm.ite(tm.lt(k, n), ap('yp', k), ap('yp', IZERO))


def tmin(a, b):
    return tm.ite(tm.lt(b, a), b, a)


def tmax(a, b):
    return tm.ite(tm.lt(a, b), b, a)


def spans(k, Y, n):
    """edge k crosses the horizontal line at Y (half-open)"""
    k1 = add(k, IONE)
    a, b = vy(k, n), vy(k1, n)
    return tm.lor(tm.land(tm.lt(a, Y), tm.le(Y, b)), tm.land(tm.lt(b, Y), tm.le(Y, a)))


def xcross(k, Y, n):
    k1 = add(k, IONE)
    return add(div(mul(sub(Y, vy(k, n)), sub(vx(k1, n), vx(k, n))), sub(vy(k1, n), vy(k, n))), vx(k, n))


def crosses(k, X, Y, n):
    return tm.land(spans(k, Y, n), tm.le(X, xcross(k, Y, n)))


def xor(a, b):
    return tm.lnot(tm.iff(a, b))


zoo.rec('oddx', lambda X, Y, n: tm.FALSE, lambda k, X, Y, n: xor(bapp('oddx', k, X, Y, n), crosses(k, X, Y, n)))


class Poly:
    def __init__(s, x):
        s.n = iv('nvert')
        x.e.assume(tm.le(IONE, s.n))
        s.xp, s.yp = Arr('xp', s.n, const=True), Arr('yp', s.n, const=True)
        s.o = new(x, 'ObscPolygon', [Ptr(s.xp), Ptr(s.yp), s.n])


def u_polygon():
    def f(u):
        x = u.exec()
        p = Poly(x)
        X, Y = v('x'), v('y')
        S = lambda k: bapp('oddx', k, X, Y, p.n)
        def cand(x_, k, t, en):
            i = k if u.e.branch(tm.lt(k, p.n)) else IZERO
            return [S(k), ap('xp', i), ap('yp', i)]
        x.fold = Fold(cand)
        r = x.method(p.o, 'contains', [X, Y])
        u.post('ObscPolygon contains exactly the points with an odd number of edges to their right',
               tm.iff(r, S(p.n)))
    return Unit('ObscPolygon::contains', ['ObscPolygon::contains', 'ObscPolygon::ObscPolygon'], f)


def regions():
    pos = lambda *q: [tm.le(ZERO, a) for a in q]
    return [
        region('ObscCircle', ['radius', 'x0', 'y0'], lambda X, Y, r, x0, y0: tm.lt(dist(X, Y, x0, y0), r),
               lambda r, x0, y0: pos(r)),
        region('ObscAnnulus', ['inner', 'outer', 'x0', 'y0'],
               lambda X, Y, a, b, x0, y0: tm.land(tm.le(a, dist(X, Y, x0, y0)), tm.lt(dist(X, Y, x0, y0), b)),
               lambda a, b, x0, y0: pos(a, b)),
        region('ObscRectangle', ['w', 'h', 'x0', 'y0', 'th'], rect, lambda w, h, *a: pos(w, h)),
        region('ObscRay', ['w', 'th', 'x0', 'y0'], ray, lambda w, *a: pos(w)),
        u_negation(), u_many('ObscUnion', 'anymem'), u_many('ObscIntersection', 'allmem'), u_many_lemma(),
        u_polygon()]


# ---------------------------------------------------------------- P18 (compiled part)
zoo.rec('eqd', lambda: tm.TRUE, lambda k: tm.land(bapp('eqd', k), tm.eq(ap('lhs_double', k), ap('rhs_double', k))))
zoo.rec('eqb', lambda: tm.TRUE, lambda k: tm.land(bapp('eqb', k), tm.iff(
    tm.app('lhs_bool', (k,), B), tm.app('rhs_bool', (k,), B))))


def u_dualeq(ty, op):
    S = lambda k: bapp('eqd' if ty == 'double' else 'eqb', k)
    cls = 'DualView<%s>' % ty

    def f(u):
        x = u.exec()
        n = iv('size')
        u.assume(tm.le(IZERO, n))
        os_ = []
        for nm in ('lhs', 'rhs'):
            a = Arr('%s_%s' % (nm, ty), n, ty, const=True)
            o = x.newobj(cls, [Ptr(a), n])
            if u.e.choose(2):
                x.method(o, 'syncToDevice', [])
            os_.append(o)
        x.fold = Fold(lambda x_, k, t, en: [S(k), tm.lnot(S(k))],
                      preds=lambda x_, ints: sum([[S(i)] for i in ints], []))
        r = x.method(os_[0], op, [os_[1]])
        for K in x.kvars:
            K1 = add(K, IONE)
            u.assume(tm.implies(tm.land(tm.le(K1, n), S(n)), S(K1)))
        r = asb(r)
        u.post('%s::%s compares every element' % (cls, op), tm.iff(r if op == 'operator==' else tm.lnot(r), S(n)))
    return Unit('%s::%s' % (cls, op), ['%s::%s' % (cls, op)], f)


def asb(r):
    b = cxx.asbool(r)
    return b if b is not None else tm.ne(r, tm.lit(0, r.sort))


def u_dualeq_lemma():
    def f(u):
        i, n = iv('i'), iv('n')
        n1, i1 = add(n, IONE), add(i, IONE)
        for nm in ('eqd', 'eqb'):
            L = lambda k: bapp(nm, k)
            u.post('%s: needed for every prefix (step)' % nm, tm.implies(tm.implies(L(n), L(i)), tm.implies(L(n1), L(i))))
        u.post('equal batches agree in every number', tm.implies(bapp('eqd', i1), tm.eq(ap('lhs_double', i), ap('rhs_double', i))))
        u.post('equal batches agree in every flag', tm.implies(bapp('eqb', i1), tm.iff(
            tm.app('lhs_bool', (i,), B), tm.app('rhs_bool', (i,), B))))
    return Unit('array equality lemmas', ['(lemma) array equality'], f)


RVF = ['x', 'y', 'z', 'vx', 'vy', 'vz', 't', 'wavelength', 'flux', 'vignetted', 'failed']


def arrname(o):
    c, = [c for k, c in o.f.items() if str(k).split('::')[-1] == 'data']
    return c.v.arr.name


def u_rveq(op):
    def c(x, this, rhs):
        rhs = val(rhs)
        rhs = rhs.o if isinstance(rhs, ObjPtr) else rhs
        a, b = arrname(this), arrname(rhs)
        return tm.var('same_%s_%s' % (a, b), B)

    def f(u):
        con = {'DualView<%s>::operator==' % t: c for t in ('double', 'bool')}
        con.update({'DualView<%s>::operator!=' % t: (lambda x, th, r: tm.lnot(c(x, th, r))) for t in ('double', 'bool')})
        x = u.exec(contracts=con)
        n = iv('size')
        u.assume(tm.le(IZERO, n))
        objs = []
        for nm in ('L', 'R'):
            args = [Ptr(Arr('%s.%s' % (nm, k), n, 'bool' if k in RVF[9:] else 'double', const=True)) for k in RVF]
            objs.append(x.newobj('RayVector', args + [n]))
        r = asb(x.method(objs[0], op, [objs[1]]))
        want = tm.land(*[tm.var('same_L.%s_R.%s' % (k, k), B) for k in RVF])
        u.post('RayVector::%s compares all eleven quantities' % op, tm.iff(r if op == 'operator==' else tm.lnot(r), want))
    return Unit('RayVector::' + op, ['RayVector::' + op, 'RayVector::RayVector'], f)


def equality():
    return [u_dualeq('double', 'operator=='), u_dualeq('bool', 'operator=='), u_dualeq('double', 'operator!='),
            u_dualeq('bool', 'operator!='), u_dualeq_lemma(), u_rveq('operator=='), u_rveq('operator!=')]
