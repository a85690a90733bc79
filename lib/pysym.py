"""Deductive verification of the Python part: the real source of /repo/batoid/*.py is executed by
CPython with symbolic numbers.  Every module is compiled from the current source text on every run;
the only changes made to its syntax tree are
  - a float literal becomes the exact decimal number it spells (no rounding),
  - a/b becomes a call that divides exactly also when both are Python ints.
The names `np`, `_batoid`, the builtins float/int/len/hash/range/... are bound to the objects below:
numbers are terms over the reals (or special values), arrays are either numpy object arrays of such
numbers (concrete shape) or lazily indexed functions (class A: symbolic extents, contents given for
an arbitrary index); `_batoid` is the contract of the C++ part (proved by the units about /repo/src).
Every `if` on a symbolic truth value forks the path (engine.branch)."""
import ast, os, sys, types, builtins as _bi, operator, itertools, math, numbers
from fractions import Fraction
import numpy as RN
import terms as tm
from terms import T, R, I, B, ZERO, ONE
import fp, engine, prove
from engine import Unsupported, PathEnd

CUR = [None]          # the engine of the running unit


def E():
    return CUR[0]


# ------------------------------------------------------------------ numbers
class Num:
    __slots__ = ('v',)
    __array_priority__ = 100

    def __init__(s, v):
        s.v = v

    def __bool__(s):
        return not _bi.bool(cmp('==', s, 0))

    def __repr__(s):
        return 'S_(%d)' % regnum(s)
    __str__ = __repr__

    def __format__(s, spec):
        return repr(s)

    def __hash__(s):
        if isinstance(s.v, T):
            if tm.isc(s.v):
                return _bi.hash(tm.cval(s.v))
            return _bi.hash(('num', s.v.id))
        return _bi.hash(('spec', s.v.n))

    def __float__(s):
        raise Unsupported('a symbolic number is passed to code that needs a machine double')

    def __complex__(s):
        raise Unsupported('a symbolic number is passed to code that needs a machine complex')

    def __abs__(s):
        return absv(s)

    def __neg__(s):
        return neg(s)

    def __pos__(s):
        return s

    def item(s):
        return s

    def conjugate(s):
        return s
    conj = conjugate

    @property
    def real(s):
        return s

    def __round__(s, n=None):
        raise Unsupported('round of a symbolic number')

    def __deepcopy__(s, memo):
        return s

    def __copy__(s):
        return s

    def __reduce__(s):
        return (fromreg, (regnum(s),))


class NumR(Num):
    __slots__ = ()

    def __int__(s):
        raise Unsupported('int() of a symbolic number outside the analysed code')

    def is_integer(s):
        return cmp('==', s, trunc(s))

    def hex(s):
        raise Unsupported('hex')


class NumI(Num):
    __slots__ = ()

    def __index__(s):
        raise Unsupported('a symbolic integer is used as a concrete index or size')

    def __int__(s):
        raise Unsupported('int() of a symbolic integer outside the analysed code')

    @property
    def denominator(s):
        return 1


numbers.Real.register(NumR)
numbers.Integral.register(NumI)
_reg = []
_regix = {}


def regnum(s):
    k = (type(s).__name__, s.v.id if isinstance(s.v, T) else s.v.n)
    if k not in _regix:
        _regix[k] = len(_reg)
        _reg.append(s)
    return _regix[k]


def fromreg(i):
    return _reg[i]


_arrs = []


def regarr(a):
    _arrs.append(a)
    return len(_arrs) - 1


class NumB:
    """symbolic truth value"""
    __slots__ = ('t',)

    def __init__(s, t):
        s.t = t

    def __bool__(s):
        return E().branch(s.t)

    def __invert__(s):
        return mkb(tm.lnot(s.t))

    def __and__(s, o):
        o = boolterm(o)
        return NotImplemented if o is None else mkb(tm.land(s.t, o))
    __rand__ = __and__

    def __or__(s, o):
        o = boolterm(o)
        return NotImplemented if o is None else mkb(tm.lor(s.t, o))
    __ror__ = __or__

    def __eq__(s, o):
        o = boolterm(o)
        return NotImplemented if o is None else mkb(tm.iff(s.t, o))

    def __ne__(s, o):
        r = s.__eq__(o)
        return r if r is NotImplemented else inv(r)

    def __hash__(s):
        return _bi.hash(('numb', s.t.id))

    def __repr__(s):
        k = ('B', s.t.id)
        if k not in _regix:
            _regix[k] = len(_reg)
            _reg.append(s)
        return 'S_(%d)' % _regix[k]

    def __reduce__(s):
        repr(s)
        return (fromreg, (_regix[('B', s.t.id)],))

    # a truth value used as a number
    def _n(s):
        return mk(tm.ite(s.t, tm.IONE, tm.IZERO))

    def __int__(s):
        return 1 if s else 0
    __index__ = __int__

    def any(s):
        return s

    def all(s):
        return s


def inv(b):
    return (not b) if isinstance(b, (_bi.bool, RN.bool_)) else ~b


def mkb(t):
    return tm.cval(t) if tm.isc(t) else NumB(t)


def boolterm(o):
    if isinstance(o, NumB):
        return o.t
    if isinstance(o, (_bi.bool, RN.bool_)):
        return tm.const(_bi.bool(o))
    return None


def mk(v):
    """value -> Python number (constant integers become Python ints)"""
    if isinstance(v, T):
        if v.sort == B:
            return mkb(v)
        if v.sort == I:
            if tm.isc(v):
                return _bi.int(tm.cval(v))
            return NumI(v)
    return NumR(v)


class Cx:
    """complex number with symbolic parts"""
    __array_priority__ = 100

    def __init__(s, re, im):
        s.real, s.imag = re, im

    def __add__(s, o):
        o = cx(o)
        return NotImplemented if o is None else Cx(add(s.real, o.real), add(s.imag, o.imag))
    __radd__ = __add__

    def __sub__(s, o):
        o = cx(o)
        return NotImplemented if o is None else Cx(sub(s.real, o.real), sub(s.imag, o.imag))

    def __rsub__(s, o):
        o = cx(o)
        return NotImplemented if o is None else o - s

    def __mul__(s, o):
        o = cx(o)
        if o is None:
            return NotImplemented
        return Cx(sub(mul(s.real, o.real), mul(s.imag, o.imag)), add(mul(s.real, o.imag), mul(s.imag, o.real)))
    __rmul__ = __mul__

    def __truediv__(s, o):
        if val(o) is None:
            return NotImplemented
        return Cx(div(s.real, o), div(s.imag, o))

    def __neg__(s):
        return Cx(neg(s.real), neg(s.imag))

    def __abs__(s):
        return f1('sqrt', add(mul(s.real, s.real), mul(s.imag, s.imag)))

    def conjugate(s):
        return Cx(s.real, neg(s.imag))
    conj = conjugate


def cx(o):
    if isinstance(o, Cx):
        return o
    if isinstance(o, _bi.complex):
        return Cx(fl(o.real), fl(o.imag))
    if val(o) is not None:
        return Cx(o, 0)
    return None


def val(o):
    """number -> term or special value; None when o is not a number"""
    if isinstance(o, Num):
        return o.v
    if isinstance(o, NumB):
        return tm.ite(o.t, tm.IONE, tm.IZERO)
    if isinstance(o, (_bi.bool, RN.bool_)):
        return tm.lit(1 if o else 0, I)
    if isinstance(o, (_bi.int, RN.integer)):
        return tm.lit(_bi.int(o), I)
    if isinstance(o, (_bi.float, RN.floating)):
        o = _bi.float(o)
        if o != o:
            return fp.NAN
        if o in (math.inf, -math.inf):
            return fp.PINF if o > 0 else fp.NINF
        return tm.lit(Fraction(repr(o)), R)
    if isinstance(o, Fraction):
        return tm.lit(o, R)
    if isinstance(o, RN.ndarray) and o.shape == ():
        return val(o.item())
    return None


def rv(o):
    """as a real value"""
    v = val(o)
    if v is None:
        raise TypeError('not a number: %r' % type(o))
    return tm.toreal(v) if isinstance(v, T) else v


def fl(o):
    """float(o)"""
    v = val(o)
    if v is None:
        if isinstance(o, str):
            return mk(val(_bi.float(o)))
        if isinstance(o, A):
            return o._scalar()
        if isinstance(o, RN.ndarray) and o.size == 1:
            return fl(o.ravel()[0])
        raise TypeError('float() argument must be a string or a real number, not %r' % type(o).__name__)
    return NumR(tm.toreal(v) if isinstance(v, T) else v)


def _isr(v):
    return not isinstance(v, T) or v.sort == R


def _arith(f):
    def op(a, b):
        x, y = val(a), val(b)
        if x is None or y is None:
            if isinstance(a, (Cx, _bi.complex)) or isinstance(b, (Cx, _bi.complex)):
                return getattr(operator, f)(cx(a), cx(b))
            return NotImplemented
        r = getattr(fp, f)(E(), x, y)
        if not (_isr(x) or _isr(y)):
            return mk(r)
        return NumR(tm.toreal(r) if isinstance(r, T) else r)
    return op


add, sub, mul = _arith('add'), _arith('sub'), _arith('mul')


def div(a, b):
    if isinstance(a, (Cx, _bi.complex)):
        return Cx(div(cx(a).real, b), div(cx(a).imag, b))
    x, y = val(a), val(b)
    if x is None or y is None:
        return NotImplemented
    x = tm.toreal(x) if isinstance(x, T) else x
    y = tm.toreal(y) if isinstance(y, T) else y
    return NumR(fp.div(E(), x, y))


def neg(a):
    return mk(fp.neg(E(), val(a)))


def absv(a):
    if isinstance(a, Cx):
        return abs(a)
    v = val(a)
    if isinstance(v, T) and v.sort == I:
        return a if E().branch(tm.le(tm.IZERO, v)) else mk(tm.neg(v))
    return NumR(fp.fabs(E(), v))


def floordiv(a, b):
    x, y = val(a), val(b)
    if x is None or y is None:
        return NotImplemented
    if not _isr(x) and not _isr(y):
        if tm.isc(x) and tm.isc(y):
            return mk(tm.lit(_bi.int(tm.cval(x)) // _bi.int(tm.cval(y)), I))
        return mk(divmod_(x, y)[0])
    q = fp.div(E(), tm.toreal(x) if isinstance(x, T) else x, tm.toreal(y) if isinstance(y, T) else y)
    if not isinstance(q, T):
        return NumR(fp.NAN)
    return NumR(tm.toreal(floor_(q)))


def floor_(q):
    """integer part of a real term (known when the term is an integer)"""
    if q.op == 'toreal':
        return q.args[0]
    if tm.isc(q):
        return tm.floor(q)
    try:
        n = tm.nf(q)
        c = tm.rconst(n)
        if c is not None:
            return tm.floor(tm.lit(c))
        if not n.d and all(Fraction(c).denominator == 1 for c in n.n.values()) and all(
                tm.atomkey(a)[0] == 'floor' or (tm.atomkey(a)[0] in ('var', 'app') and tm.atomkey(a)[-1] == I)
                for m in n.n for a, e in m):
            return tm.poly_term(n.n)
    except tm.Unsup:
        pass
    r = tm.floor(q)
    E().assume(tm.le(tm.toreal(r), q))
    E().assume(tm.lt(q, tm.add(tm.toreal(r), ONE)))
    return r


def divmod_(x, y):
    """integer quotient and remainder by a constant"""
    if not tm.isc(y) or tm.cval(y) <= 0:
        e = E()
        if e.branch(tm.lt(tm.IZERO, y)):        # quotients that are settled by comparisons
            if e.branch(tm.le(tm.IZERO, x)):
                if e.branch(tm.lt(x, y)):
                    return tm.IZERO, x
            elif e.branch(tm.le(tm.IZERO, tm.add(x, y))):
                return tm.lit(-1, I), tm.add(x, y)
        raise Unsupported('integer division by a symbolic integer')
    c = tm.cval(y)
    try:
        n = tm.nf(x)
        nm = repr(n.key())
        if not n.d:
            k0 = n.n.get((), Fraction(0))
            rest = {m: Fraction(v) / c for m, v in n.n.items() if m}
            if Fraction(k0).denominator == 1 and all(v.denominator == 1 for v in rest.values()):
                k0, c_ = _bi.int(k0), _bi.int(c)
                if k0 // c_:
                    rest[()] = Fraction(k0 // c_)
                p = tm.poly_term(rest) if rest else tm.IZERO
                if p.sort == R:
                    p = tm.floor(p) if tm.isc(p) else p.args[0] if p.op == 'toreal' else None
                if p is not None:
                    return p, tm.lit(k0 % c_, I)
    except tm.Unsup:
        nm = str(x.id)
    k = E().defs_int.setdefault((nm, c), len(E().defs_int))
    q, r = tm.var('quo%d' % k, I), tm.var('rem%d' % k, I)
    E().assume(tm.eq(x, tm.add(tm.mul(y, q), r)))
    E().assume(tm.le(tm.IZERO, r))
    E().assume(tm.lt(r, y))
    return q, r


def mod(a, b):
    x, y = val(a), val(b)
    if x is None or y is None:
        return NotImplemented
    if not _isr(x) and not _isr(y):
        if tm.isc(x) and tm.isc(y):
            return mk(tm.lit(_bi.int(tm.cval(x)) % _bi.int(tm.cval(y)), I))
        return mk(divmod_(x, y)[1])
    return sub(a, mul(floordiv(a, b), b))


def power(a, b):
    if isinstance(a, Cx):
        raise Unsupported('power of a complex number')
    x, y = val(a), val(b)
    if x is None or y is None:
        return NotImplemented
    if isinstance(y, T) and tm.isc(y):
        c = tm.cval(y)
        if c == Fraction(1, 2):
            return f1('sqrt', a)
        if c.denominator == 1 and abs(c) <= 64:
            n = _bi.int(c)
            if n >= 0:
                r = mk(tm.lit(1, I)) if not _isr(x) and not _isr(y) else NumR(ONE)
                for _ in _bi.range(n):
                    r = mul(r, a)
                return r
            return div(1, power(a, -n))
    raise Unsupported('power with a symbolic exponent')


def trunc(a):
    """int(a)"""
    v = val(a)
    if v is None:
        if isinstance(a, A):
            return trunc(a._scalar())
        if isinstance(a, RN.ndarray) and a.size == 1:
            return trunc(a.ravel()[0])
        return _bi.int(a)
    if not _isr(v):
        return mk(v)
    if not isinstance(v, T):
        raise ValueError('cannot convert float NaN or infinity to integer')
    if E().branch(tm.le(ZERO, v)):
        return mk(floor_(v))
    return mk(tm.neg(floor_(tm.neg(v))))


def f1(f, a):
    if isinstance(a, (Cx, _bi.complex)):
        a = cx(a)
        if f == 'exp':
            m = 1 if cmp('==', a.real, 0) is True else f1('exp', a.real)
            return Cx(mul(m, f1('cos', a.imag)), mul(m, f1('sin', a.imag)))
        if f == 'conjugate':
            return a.conjugate()
        if f in ('abs', 'absolute'):
            return abs(a)
        raise Unsupported(f + ' of a complex number')
    v = rv(a)
    if f == 'sqrt':
        return NumR(fp.sqrt(E(), v))
    if f in ('absolute', 'fabs', 'abs'):
        return absv(a)
    if f in ('deg2rad', 'radians'):
        return div(mul(a, NumR(PI)), 180)
    if f in ('rad2deg', 'degrees'):
        return div(mul(a, 180), NumR(PI))
    if f == 'square':
        return mul(a, a)
    if f == 'negative':
        return neg(a)
    if f == 'positive':
        return a
    if f == 'floor':
        return NumR(tm.toreal(floor_(v)))
    if f == 'ceil':
        return neg(NumR(tm.toreal(floor_(tm.neg(v)))))
    if f in ('conjugate', 'conj', 'real'):
        return a
    if f == 'reciprocal':
        return div(1, a)
    if f == 'sign':
        s = fp._sgn(E(), v)
        return fl(s)
    if f == 'exp2':
        f = 'exp2'
    if f == 'tan' and isinstance(v, T):
        # tan = sin/cos
        return NumR(fp.div(E(), tm.fn1('sin', v), tm.fn1('cos', v)))
    if f in ('arcsin', 'arccos', 'arctan') and isinstance(v, T):
        return NumR(arcf(f, v))
    return NumR(fp.fn1(E(), f, v))


def arcf(f, v):
    """inverse trigonometric functions: assumed facts of the mathematical functions"""
    r = arcf_(f, v)
    e = E()
    if isinstance(r, T) and not tm.isc(r):
        two = tm.lit(2)
        for x in getattr(e, 'angles', ()):
            c, s = tm.fn1('cos', x), tm.fn1('sin', x)
            if f == 'arccos':
                p = tm.land(tm.le(ZERO, x), tm.le(x, PI), tm.eq(v, c))
            elif f == 'arcsin':
                p = tm.land(tm.le(tm.neg(PI), tm.mul(two, x)), tm.le(tm.mul(two, x), PI), tm.eq(v, s))
            else:
                p = tm.land(tm.lt(tm.neg(PI), tm.mul(two, x)), tm.lt(tm.mul(two, x), PI), tm.eq(tm.mul(v, c), s))
            # decide the premises here where that is easy
            flat = set(x.id for p_ in e.pc for x in prove.flatten([p_]))
            if all(tm.same(*q.args) or prove.quick_eq(q, prove.flatten(e.pc), 3.0) if q.op == '=' else q.id in flat or not prove.feasible(e.pc + [tm.lnot(q)], 300)
                   for q in prove.split_goal(p)):
                return x
            e.assume(tm.implies(p, tm.eq(r, x)))
    return r


def arcf_(f, v):
    e = E()
    if f == 'arctan':
        r = tm.fn1('arctan', v)
        if not tm.isc(r):
            # sin/cos of arctan
            q = tm.sqrt(tm.add(ONE, tm.mul(v, v)))
            e.assume(tm.eq(tm.fn1('cos', r), tm.div(ONE, q)))
            e.assume(tm.eq(tm.fn1('sin', r), tm.div(v, q)))
            e.assume(tm.eq(tm.fn1('cos', tm.mul(tm.lit(2), r)), tm.div(tm.sub(ONE, tm.mul(v, v)), tm.add(ONE, tm.mul(v, v)))))
            e.assume(tm.eq(tm.fn1('sin', tm.mul(tm.lit(2), r)), tm.div(tm.mul(tm.lit(2), v), tm.add(ONE, tm.mul(v, v)))))
            e.assume(tm.implies(tm.eq(v, ZERO), tm.eq(r, ZERO)))
            e.assume(tm.lt(tm.neg(PI), tm.mul(tm.lit(2), r)))
            e.assume(tm.lt(tm.mul(tm.lit(2), r), PI))
            e.trusted.add('arctan: cos(arctan x) = 1/sqrt(1+x^2), sin(arctan x) = x/sqrt(1+x^2), |arctan x| < pi/2')
        return r
    # outside [-1, 1]: nan
    if e.branch(tm.lt(tm.mul(v, v), ONE)) or e.branch(tm.eq(tm.mul(v, v), ONE)):
        r = tm.fn1(f, v)
        if tm.isc(r):
            return r
        if f == 'arcsin':
            e.assume(tm.eq(tm.fn1('sin', r), v))
            e.assume(tm.eq(tm.fn1('cos', r), tm.sqrt(tm.sub(ONE, tm.mul(v, v)))))
            e.assume(tm.le(tm.neg(PI), tm.mul(tm.lit(2), r)))
            e.assume(tm.le(tm.mul(tm.lit(2), r), PI))
            e.trusted.add('arcsin: sin(arcsin x) = x, cos(arcsin x) = sqrt(1-x^2), |arcsin x| <= pi/2')
        else:
            e.assume(tm.eq(tm.fn1('cos', r), v))
            e.assume(tm.eq(tm.fn1('sin', r), tm.sqrt(tm.sub(ONE, tm.mul(v, v)))))
            e.assume(tm.le(ZERO, r))
            e.assume(tm.le(r, PI))
            h = tm.div(r, tm.lit(2))
            e.assume(tm.eq(tm.fn1('cos', h), tm.sqrt(tm.div(tm.add(ONE, v), tm.lit(2)))))
            e.assume(tm.eq(tm.fn1('sin', h), tm.sqrt(tm.div(tm.sub(ONE, v), tm.lit(2)))))
            e.trusted.add('half angles: cos(arccos(x)/2) = sqrt((1+x)/2), sin(arccos(x)/2) = sqrt((1-x)/2)')
            e.trusted.add('arccos: cos(arccos x) = x, sin(arccos x) = sqrt(1-x^2), 0 <= arccos x <= pi')
        return r
    return fp.NAN


def f2(f, a, b):
    if f == 'hypot':
        return f1('sqrt', add(mul(a, a), mul(b, b)))
    if f == 'arctan2':
        y, x = rv(a), rv(b)
        if isinstance(x, T) and isinstance(y, T):
            return NumR(tm.app('arctan2', (y, x)))
        return NumR(fp.ANY)
    if f in ('maximum', 'fmax'):
        return a if cmp('>=', a, b) else b
    if f in ('minimum', 'fmin'):
        return a if cmp('<=', a, b) else b
    raise Unsupported('np.' + f)


CMP = {'==': ('eq', 0), '<': ('lt', 0), '<=': ('le', 0), '>': ('lt', 1), '>=': ('le', 1)}


def cmp(op, a, b):
    if isinstance(a, NumB) and isinstance(b, (NumB, _bi.bool, RN.bool_)) or \
            isinstance(b, NumB) and isinstance(a, (_bi.bool, RN.bool_)):
        if op in ('==', '!='):
            r = mkb(tm.iff(boolterm(a), boolterm(b)))
            return r if op == '==' else inv(r)
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        if a is None or b is None:
            return NotImplemented
        r = mkb(tm.land(boolterm(cmp('==', a.real, b.real)), boolterm(cmp('==', a.imag, b.imag))))
        return r if op == '==' else inv(r)
    x, y = val(a), val(b)
    if x is None or y is None:
        return NotImplemented
    if op == '!=':
        return mkb(tm.lnot(fp.eq(E(), x, y)))
    f, sw = CMP[op]
    return mkb(getattr(fp, f)(E(), *((y, x) if sw else (x, y))))


OPUF = {}


def _scalar_method(fn, refl=False):
    def m(s, o):
        if isinstance(o, (RN.ndarray, A)) and not (isinstance(o, RN.ndarray) and o.shape == ()):
            if isinstance(o, RN.ndarray) and fn in OPUF:
                return elementwise(OPUF[fn], [o, s] if refl else [s, o])
            return NotImplemented
        return fn(o, s) if refl else fn(s, o)
    return m


for _n, _f in (('add', add), ('sub', sub), ('mul', mul), ('truediv', div), ('floordiv', floordiv), ('mod', mod),
               ('pow', power)):
    setattr(Num, '__%s__' % _n, _scalar_method(_f))
    setattr(Num, '__r%s__' % _n, _scalar_method(_f, True))
    if _n != 'pow':
        setattr(NumB, '__%s__' % _n, _scalar_method(_f))
        setattr(NumB, '__r%s__' % _n, _scalar_method(_f, True))
for _n, _o in (('eq', '=='), ('ne', '!='), ('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')):
    setattr(Num, '__%s__' % _n, _scalar_method(lambda a, b, _o=_o: cmp(_o, a, b)))
Num.__divmod__ = lambda s, o: (floordiv(s, o), mod(s, o))
OPUF.update({add: 'add', sub: 'subtract', mul: 'multiply', div: 'divide', floordiv: 'floor_divide', mod: 'remainder',
            power: 'power'})
PI = tm.var('pi')
SDIV = div


def pydiv(a, b):
    """a / b of the analysed source"""
    ka, kb = isinstance(a, (_bi.int, _bi.float, Fraction, Num)), isinstance(b, (_bi.int, _bi.float, Fraction, Num))
    if ka and kb:
        y = val(b)
        if isinstance(y, T) and tm.isc(y) and tm.cval(y) == 0 and isinstance(b, _bi.int) and \
                isinstance(a, (_bi.int, _bi.float)):
            raise ZeroDivisionError('division by zero')
        return div(a, b)
    return a / b


# ------------------------------------------------------------------ extents and indexes
class Prod:
    """extent of a flattened block; its index is the tuple of the block's indexes"""

    def __init__(s, ds):
        s.ds = tuple(ds)


class Cat:
    """extent of a concatenation; its index is ('cat', which, index)"""

    def __init__(s, ds):
        s.ds = tuple(ds)


class CatOff:
    """start of a slice of a concatenation: pieces a..b-1"""

    def __init__(s, a, b):
        s.a, s.b = a, b


def nofork(f):
    """f() with no case distinction on undecided conditions (None if there is one)"""
    e = E()
    old = e.branch
    n = len(e.pc)

    class Forks(Exception):
        pass

    def br(c):
        if isinstance(c, _bi.bool):
            return c
        if tm.isc(c):
            return tm.cval(c)
        if c in e.pc:
            return True
        if tm.lnot(c) in e.pc:
            return False
        a = prove.feasible(e.pc + [c], 300)
        b = prove.feasible(e.pc + [tm.lnot(c)], 300)
        if a and b:
            raise Forks()
        return a
    e.branch = br
    try:
        return f()
    except Forks:
        return None
    finally:
        e.branch = old


def bound(d, n):
    """the index that stands for an arbitrary element of extent d"""
    if isinstance(d, Prod):
        return tuple(bound(x, '%s_%d' % (n, i)) for i, x in enumerate(d.ds))
    if isinstance(d, Sel):
        m = d.mask
        ix = tuple(bound(x, '%s_s%d' % (n, i)) for i, x in enumerate(m.dims))
        return ('sel', ix[0] if len(ix) == 1 else ix)
    if isinstance(d, Cat):
        raise Unsupported('a sum over a concatenation')
    return tm.var('any.' + n, I)


def maskterm(m):
    """truth term of an arbitrary element of a mask (None: it needs case distinctions)"""
    k = ('maskterm', m.uid, m.buf.f)
    c = E().__dict__.setdefault('_maskterms', {})
    if k not in c:
        def f():
            ix = tuple(bound(x, 'm%d' % i) for i, x in enumerate(m.dims))
            return boolterm(cast1(m.at(ix), 'b'))
        c[k] = nofork(f)
    return c[k]


class Sel:
    """extent of a selection x[mask]: an arbitrary selected element is ('sel', original index)"""

    def __init__(s, mask):
        s.mask = mask


def dimnum(d):
    if isinstance(d, _bi.int):
        return d
    if isinstance(d, T):
        return mk(d)
    if isinstance(d, Prod):
        r = 1
        for x in d.ds:
            r = mul(r, dimnum(x))
        return r
    if isinstance(d, Cat):
        r = 0
        for x in d.ds:
            r = add(r, dimnum(x))
        return r
    if isinstance(d, Sel):
        w = WORLD[0]
        if w is not None and hasattr(w, 'count'):
            return w.count(d.mask)
        n = tm.var('count%d' % d.mask.uid, I)
        E().assume(tm.le(tm.IZERO, n))
        return mk(n)
    raise Unsupported('extent %r' % (d,))


def todim(n):
    if isinstance(n, (Prod, Cat, Sel)):
        return n
    if isinstance(n, SDim):
        return n.d
    v = val(n)
    if v is None or _isr(v):
        raise TypeError('%r cannot be interpreted as an integer' % type(n).__name__)
    return _bi.int(tm.cval(v)) if tm.isc(v) else v


def samedim(a, b):
    """None: cannot be told structurally"""
    if isinstance(a, Prod) and isinstance(b, Prod) and len(a.ds) == len(b.ds):
        return all(samedim(x, y) is True for x, y in zip(a.ds, b.ds)) or None
    if isinstance(a, Cat) and isinstance(b, Cat) and len(a.ds) == len(b.ds):
        return all(samedim(x, y) is True for x, y in zip(a.ds, b.ds)) or None
    if isinstance(a, Sel) and isinstance(b, Sel):
        if a.mask is b.mask:
            return True
        p, q = maskterm(a.mask), maskterm(b.mask)
        return (p is not None and p is q and len(a.mask.dims) == len(b.mask.dims) and
                all(samedim(x, y) is True for x, y in zip(a.mask.dims, b.mask.dims))) or None
    if isinstance(a, (_bi.int, T)) and isinstance(b, (_bi.int, T)):
        x, y = tm.wrap(a, I), tm.wrap(b, I)
        if tm.same(x, y):
            return True
        c = tm.constdiff(x, y)
        if c is not None:
            return False
    return None


def dimeq(a, b):
    r = samedim(a, b)
    if r is None:
        if isinstance(a, (_bi.int, T)) and isinstance(b, (_bi.int, T)):
            return E().branch(tm.eq(tm.wrap(a, I), tm.wrap(b, I)))
        c = cmp('==', dimnum(a), dimnum(b))
        if c is False:
            return c
        if c is True and not isinstance(a, Sel) and not isinstance(b, Sel):
            return c
        if _bi.bool(c):
            raise Unsupported('arrays with differently structured extents are combined')
        return False
    return r


def isone(d):
    if isinstance(d, _bi.int):
        return d == 1
    return None      # symbolic: decided by dimeq where needed


def bdim(a, b):
    """extent of a broadcast"""
    if a is b or samedim(a, b) is True:
        return a
    if isone(a):
        return b
    if isone(b):
        return a
    if isinstance(a, _bi.int) and isinstance(b, _bi.int):
        raise ValueError('operands could not be broadcast together')
    if dimeq(a, b):
        return a if isinstance(a, _bi.int) else b
    for p, q in ((a, b), (b, a)):
        if isinstance(p, T) and E().branch(tm.eq(p, tm.IONE)):
            return q
    raise ValueError('operands could not be broadcast together')


def bshape(shapes):
    n = max([len(x) for x in shapes] or [0])
    out = []
    for k in _bi.range(n):
        d = 1
        for sh in shapes:
            j = k - n + len(sh)
            if j >= 0:
                d = bdim(d, sh[j])
        out.append(d)
    return tuple(out)


def ixeq(a, b):
    """truth term: two indexes are equal"""
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b)):
            return tm.FALSE
        if a and a[0] in ('cat', 'sel'):
            if a[0] != b[0]:
                return tm.FALSE
            if a[0] == 'cat':
                return ixeq(a[2], b[2]) if a[1] == b[1] else tm.FALSE
            return ixeq(a[1], b[1])
        return tm.land(*[ixeq(x, y) for x, y in zip(a, b)])
    return tm.eq(tm.wrap(a, I), tm.wrap(b, I))


def cidx(i):
    """concrete index or None"""
    if isinstance(i, _bi.int):
        return i
    if isinstance(i, T) and tm.isc(i):
        return _bi.int(tm.cval(i))
    return None


# ------------------------------------------------------------------ arrays of concrete shape
class SArr(RN.ndarray):
    """numpy array (concrete shape) of numbers (dtype object) or of truth values"""

    def __array_ufunc__(s, uf, method, *ins, out=None, **kw):
        name = uf.__name__
        if any(isinstance(x, A) for x in ins):
            return NotImplemented
        if method == 'reduce' and name in ('add', 'multiply', 'logical_and', 'logical_or', 'bitwise_or', 'maximum',
                                           'minimum'):
            return _reduce(name, ins[0], out=out, **kw)
        if method == 'at' or method not in ('__call__', 'outer'):
            raise Unsupported('np.%s.%s' % (name, method))
        if name == 'matmul':
            r = matmul(*[RN.asarray(x) for x in ins])
        elif method == 'outer':
            a, b = [RN.asarray(x) for x in ins]
            r = elementwise(name, [a.reshape(a.shape + (1,) * b.ndim), b])
        else:
            r = elementwise(name, list(ins))
        if out is not None:
            o = out[0]
            if isinstance(o, SArr) or isinstance(o, RN.ndarray):
                o[...] = cast(r, kind(o))
                return o
        w = kw.get('where', True)
        if w is not True:
            raise Unsupported('ufunc where=')
        return r

    def __array_function__(s, func, types_, args, kwargs):
        f = getattr(NP, func.__name__, None)
        raise Unsupported('np.%s on a symbolic array from outside the analysed code' % func.__name__)

    def astype(s, dt, *a, **k):
        return cast(s, dtkind(dt)).copy()

    def copy(s, order='C'):
        return RN.ndarray.copy(s)

    def fill(s, v):
        s[...] = v

    def item(s, *a):
        return RN.asarray(s).item(*a) if s.size == 1 or a else RN.asarray(s).item(*a)

    @property
    def ctypes(s):
        return CT(s)

    def dot(s, o):
        return NP.dot(s, o)

    def sum(s, axis=None, **k):
        return NP.sum(s, axis=axis, **k)

    def mean(s, axis=None, **k):
        return NP.mean(s, axis=axis, **k)

    def __repr__(s):
        return 'array(%s)' % (_lst(RN.asarray(s).tolist()),)

    def __reduce__(s):
        return (_remake, (s.shape, kind(s), list(RN.asarray(s).ravel())))

    def __deepcopy__(s, memo):
        return s.copy()

    def __getitem__(s, k):
        k = fixkey(k)
        r = RN.ndarray.__getitem__(s, k)
        return r

    def __setitem__(s, k, v):
        if isinstance(v, A):
            raise Unsupported('a symbolic-extent array is stored in one of concrete shape')
        k = fixkey(k)
        if s.dtype == object:
            kd = kind(s)
            v = castany(v, kd)
            if isinstance(v, (list, tuple, RN.ndarray)):
                v = oarr(v)
        RN.ndarray.__setitem__(s, k, v)

    def __hash__(s):
        raise TypeError('unhashable type: numpy.ndarray')

    def _ip(s, name, o):
        r = elementwise(name, [s, o])
        if isinstance(r, A):
            raise Unsupported('a symbolic-extent array is stored in one of concrete shape')
        if isinstance(r, RN.ndarray) and r.shape != s.shape:
            raise ValueError('non-broadcastable output operand')
        s[...] = cast(r, kind(s)) if isinstance(r, RN.ndarray) else cast1(r, kind(s))
        return s


for _n, _u in (('add', 'add'), ('sub', 'subtract'), ('mul', 'multiply'), ('truediv', 'divide'), ('pow', 'power'),
               ('floordiv', 'floor_divide'), ('mod', 'remainder')):
    setattr(SArr, '__i%s__' % _n, lambda s, o, _u=_u: s._ip(_u, o))


def _remake(shape, kd, l):
    return mkarr(l, shape, kd)


def _lst(x):
    if isinstance(x, list):
        return '[' + ', '.join(_lst(y) for y in x) + ']'
    return repr(x)


_KIND = {}


def kind(a):
    """'f' float, 'i' int, 'b' bool, 'c' complex, 'O' other"""
    if isinstance(a, A):
        return a.kind
    if isinstance(a, RN.ndarray):
        if a.dtype == RN.bool_:
            return 'b'
        if a.dtype.kind in 'iu':
            return 'i'
        if a.dtype.kind in 'f':
            return 'f'
        if a.dtype.kind == 'c':
            return 'c'
        b = a
        while b.base is not None and isinstance(b.base, RN.ndarray):
            b = b.base
        k = 'i'
        for x in b.ravel()[:64] if b.size else ():
            q = skind(x)
            if q == 'O':
                return 'O'
            if 'bifc'.index(q) > 'bifc'.index(k):
                k = q
        return k if b.size else 'f'
    return skind(a)


def skind(x):
    if isinstance(x, (_bi.bool, RN.bool_, NumB)):
        return 'b'
    if isinstance(x, (Cx, _bi.complex)):
        return 'c'
    v = val(x)
    if v is None:
        return 'O'
    return 'f' if _isr(v) else 'i'


def cast1(x, k):
    if k == 'f':
        if x is None:
            return NumR(fp.NAN)
        return fl(x) if not isinstance(x, Cx) else x.real
    if k == 'i':
        return trunc(x)
    if k == 'b':
        if isinstance(x, (_bi.bool, RN.bool_, NumB)):
            return _bi.bool(x) if not isinstance(x, NumB) else x
        c = cmp('!=', x, 0)
        return c
    if k == 'c':
        return cx(x)
    return x


def oarr(v):
    """nested lists -> object array"""
    if isinstance(v, RN.ndarray):
        if v.dtype == object or v.dtype == RN.bool_:
            return v
        o = RN.empty(v.shape, dtype=object)
        for i in RN.ndindex(*v.shape):
            o[i] = lift(v[i])
        return o

    def shp(x):
        if isinstance(x, RN.ndarray):
            return x.shape
        if isinstance(x, (list, tuple)):
            if not len(x):
                return (0,)
            ss = [shp(y) for y in x]
            if any(t != ss[0] for t in ss):
                raise ValueError('setting an array element with a sequence (inhomogeneous shape)')
            return (len(x),) + ss[0]
        return ()

    sh = shp(v)
    o = RN.empty(sh, dtype=object)

    def put(x, ix):
        if isinstance(x, (list, tuple)):
            for j, y in enumerate(x):
                put(y, ix + (j,))
        elif isinstance(x, RN.ndarray):
            if x.shape == ():
                o[ix] = lift(x.item())
            else:
                for j in RN.ndindex(*x.shape):
                    o[ix + j] = lift(x[j])
        else:
            o[ix] = lift(x)
    put(v, ())
    return o


def lift(x):
    if isinstance(x, (_bi.bool, RN.bool_)):
        return _bi.bool(x)
    if isinstance(x, (_bi.float, RN.floating)):
        return NumR(val(x))
    if isinstance(x, RN.integer):
        return _bi.int(x)
    if isinstance(x, Fraction):
        return NumR(tm.lit(x, R))
    if isinstance(x, _bi.complex):
        return cx(x)
    return x


def cast(a, k):
    a = oarr(a)
    if k == 'b':
        if a.dtype == RN.bool_:
            return a.view(SArr)
        r = RN.empty(a.shape, dtype=object)
        flat = [cast1(x, 'b') for x in a.ravel()]
        if all(isinstance(x, _bi.bool) for x in flat):
            return RN.array(flat, dtype=_bi.bool).reshape(a.shape).view(SArr)
        # truth values kept in a bool array: decide them
        return RN.array([_bi.bool(x) for x in flat], dtype=_bi.bool).reshape(a.shape).view(SArr)
    if k is None or k == 'O':
        k2 = kind(a)
        if k is None and k2 in 'fc' and a.dtype == object:
            k = k2
        else:
            if a.dtype == object and k is None and k2 == 'b':
                return cast(a, 'b')
            return a.view(SArr)
    r = RN.empty(a.shape, dtype=object)
    for i in RN.ndindex(*a.shape):
        r[i] = cast1(a[i], k)
    return r.view(SArr)


def castany(v, k):
    if k not in ('f', 'c', 'i'):
        return v
    if isinstance(v, RN.ndarray):
        return cast(v, k) if v.shape else cast1(v.item(), k)
    if isinstance(v, (list, tuple)):
        return cast(v, k)
    return cast1(v, k)


def mkarr(flat, shape, k=None):
    o = RN.empty(len(flat), dtype=object)
    for i, x in enumerate(flat):
        o[i] = x
    o = o.reshape(shape)
    if k == 'b' or (k is None and len(flat) and all(isinstance(x, (_bi.bool, RN.bool_)) for x in flat)):
        return RN.array([_bi.bool(x) for x in flat], dtype=_bi.bool).reshape(shape).view(SArr)
    return o.view(SArr)


BIN = dict(add=add, subtract=sub, multiply=mul, divide=div, true_divide=div, floor_divide=floordiv,
           remainder=mod, mod=mod, power=power, float_power=power)
CMPU = dict(equal='==', not_equal='!=', less='<', less_equal='<=', greater='>', greater_equal='>=')
UN = ('sqrt', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'exp', 'log', 'absolute', 'fabs', 'deg2rad', 'rad2deg',
      'radians', 'degrees', 'square', 'negative', 'positive', 'floor', 'ceil', 'conjugate', 'reciprocal', 'sign',
      'sinh', 'cosh', 'tanh', 'log10', 'log2', 'exp2')
BI2 = ('hypot', 'arctan2', 'maximum', 'minimum', 'fmax', 'fmin')


def scalar_op(name):
    if name in BIN:
        return BIN[name]
    if name in CMPU:
        return lambda a, b: _cmp_np(CMPU[name], a, b)
    if name in UN:
        return lambda a: f1(name, a)
    if name in BI2:
        return lambda a, b: f2(name, a, b)
    if name == 'isnan':
        return lambda a: mkb(fp.isnan(E(), rv(a)))
    if name == 'isinf':
        return lambda a: mkb(fp.isinf(E(), rv(a)))
    if name == 'isfinite':
        return lambda a: mkb(tm.land(tm.lnot(fp.isinf(E(), rv(a))), tm.lnot(fp.isnan(E(), rv(a)))))
    if name in ('logical_not', 'invert', 'bitwise_not'):
        return lambda a: inv(cast1(a, 'b'))
    if name in ('logical_and', 'bitwise_and'):
        return lambda a, b: mkb(tm.land(boolterm(cast1(a, 'b')), boolterm(cast1(b, 'b'))))
    if name in ('logical_or', 'bitwise_or'):
        return lambda a, b: mkb(tm.lor(boolterm(cast1(a, 'b')), boolterm(cast1(b, 'b'))))
    if name in ('logical_xor', 'bitwise_xor'):
        return lambda a, b: inv(mkb(tm.iff(boolterm(cast1(a, 'b')), boolterm(cast1(b, 'b')))))
    raise Unsupported('np.' + name)


def _cmp_np(op, a, b):
    r = cmp(op, a, b)
    if r is NotImplemented:
        r = {'==': operator.eq, '!=': operator.ne}[op](a, b)
    return r


BOOLOUT = set(CMPU) | {'isnan', 'isinf', 'isfinite', 'logical_not', 'logical_and', 'logical_or', 'logical_xor'}


def isarr(x):
    return isinstance(x, (RN.ndarray, A, list, tuple))


def elementwise(name, ins):
    f = scalar_op(name)
    if any(isinstance(x, MaskedArray) for x in ins):
        m = None
        for x in ins:
            if isinstance(x, MaskedArray):
                m = x.mask if m is None else m | x.mask
        return MaskedArray(elementwise(name, [x.data if isinstance(x, MaskedArray) else x for x in ins]), m)
    if any(hasA(x) for x in ins):
        return A.lazy_op(f, [toA(x) for x in ins], 'b' if name in BOOLOUT else None)
    if not any(isarr(x) for x in ins):
        r = f(*[lift(x) for x in ins])
        if r is NotImplemented:
            raise TypeError('unsupported operand for np.%s' % name)
        return r
    arrs = [oarr(x) if isarr(x) else oarr([x]).reshape(()) for x in ins]
    bs = RN.broadcast_arrays(*[RN.asarray(a) for a in arrs])
    shape = bs[0].shape
    flat = []
    for ix in RN.ndindex(*shape):
        r = f(*[lift(b[ix]) for b in bs])
        if r is NotImplemented:
            raise TypeError('unsupported operand for np.%s' % name)
        flat.append(r)
    if shape == ():
        return flat[0]
    if flat and any(isinstance(x, NumB) for x in flat):
        flat = [_bi.bool(x) for x in flat]       # decided here: the path forks
    if name in BOOLOUT:
        return mkarr(flat, shape, 'b')
    return mkarr(flat, shape)


def _reduce(name, a, axis=0, dtype=None, out=None, keepdims=False, initial=None, where=True, **k):
    if name == 'add':
        return NP.sum(a, axis=axis, keepdims=keepdims)
    if name in ('logical_and', 'logical_or', 'bitwise_or'):
        a = cast(a, 'b')
        return (RN.all if name == 'logical_and' else RN.any)(RN.asarray(a), axis=axis)
    fn = {'multiply': mul, 'maximum': lambda p, q: f2('maximum', p, q),
          'minimum': lambda p, q: f2('minimum', p, q)}[name]
    return fold(fn, a, axis)


def fold(fn, a, axis=None, keepdims=False):
    a = RN.asarray(oarr(a))
    if axis is None:
        fl_ = list(a.ravel())
        if not fl_:
            raise ValueError('zero-size array to reduction operation')
        r = fl_[0]
        for x in fl_[1:]:
            r = fn(r, x)
        return r
    if isinstance(axis, tuple):
        for ax in sorted([x % a.ndim for x in axis], reverse=True):
            a = fold(fn, a, ax)
        return a
    b = RN.moveaxis(a, axis, 0)
    r = b[0]
    flat = []
    for ix in RN.ndindex(*b.shape[1:]):
        r = b[(0,) + ix]
        for j in _bi.range(1, b.shape[0]):
            r = fn(r, b[(j,) + ix])
        flat.append(r)
    if b.ndim == 1:
        return flat[0]
    res = mkarr(flat, b.shape[1:])
    return NP.expand_dims(res, axis) if keepdims else res


def matmul(a, b):
    a, b = oarr(a), oarr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: not enough dimensions')
    if a.ndim == 1:
        if b.ndim == 1:
            if len(a) != len(b):
                raise ValueError('matmul: mismatch in core dimension')
            r = fl(0) if kind(a) == 'f' or kind(b) == 'f' else 0
            for x, y in zip(a, b):
                r = add(r, mul(x, y))
            return r
        r = matmul(a[None, :], b)
        return r.reshape(r.shape[:-2] + r.shape[-1:])
    if b.ndim == 1:
        r = matmul(a, b[:, None])
        return r.reshape(r.shape[:-1])
    sh = RN.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    n, m, p = a.shape[-2], a.shape[-1], b.shape[-1]
    if b.shape[-2] != m:
        raise ValueError('matmul: mismatch in core dimension')
    a = RN.broadcast_to(RN.asarray(a), sh + a.shape[-2:])
    b = RN.broadcast_to(RN.asarray(b), sh + b.shape[-2:])
    out = RN.empty(sh + (n, p), dtype=object)
    for ix in RN.ndindex(*sh):
        for i in _bi.range(n):
            for j in _bi.range(p):
                r = None
                for k in _bi.range(m):
                    t = mul(lift(a[ix + (i, k)]), lift(b[ix + (k, j)]))
                    r = t if r is None else add(r, t)
                out[ix + (i, j)] = r if r is not None else fl(0)
    return out.view(SArr)


def fixkey(k):
    """array index with symbolic parts -> concrete"""
    def one(x):
        if isinstance(x, NumI):
            raise Unsupported('a symbolic integer indexes an array of concrete shape')
        if isinstance(x, slice):
            for y in (x.start, x.stop, x.step):
                if isinstance(y, Num):
                    raise Unsupported('symbolic slice of an array of concrete shape')
            return x
        if isinstance(x, A):
            raise Unsupported('an array of concrete shape is indexed by a symbolic-extent array')
        if isinstance(x, RN.ndarray) and x.dtype == object:
            l = x.tolist()
            return RN.array(RN.asarray(x), dtype=_bi.bool if kind(x) == 'b' else _bi.int)
        if isinstance(x, NumB):
            return _bi.bool(x)
        if isinstance(x, list) and x and any(isinstance(y, (NumB, NumI)) for y in x):
            return [one(y) for y in x]
        return x
    if isinstance(k, tuple):
        return tuple(one(x) for x in k)
    return one(k)


class CT:
    """.ctypes of an array: .data identifies the array"""

    def __init__(s, a):
        s.a = a
        s.data = PtrTo(a)


class PtrTo:
    def __init__(s, a):
        s.a = a


# ------------------------------------------------------------------ arrays of symbolic extent
_uid = [0]


class Buf:
    def __init__(s, f):
        s.f = f           # index tuple -> number


class A:
    __array_ufunc__ = None
    __array_priority__ = 1000
    __hash__ = None

    def __init__(s, shape, f, kd='f', buf=None, fwd=None, inv=None, lay='C'):
        s.dims = tuple(shape)
        s.kind = kd
        s.lay = lay         # memory layout: C, F (contiguous) or any
        s.buf = buf or Buf(f)
        s.fwd, s.inv_ = fwd, inv
        _uid[0] += 1
        s.uid = _uid[0]

    # ---- access
    def get(s, *ix):
        """element at an index (terms or ints)"""
        if len(ix) != len(s.dims):
            raise Unsupported('index of wrong rank')
        return s.at(tuple(ix))

    def at(s, ix):
        ix = tuple(0 if isone(d) else i for d, i in zip(s.dims, ix))
        return s.buf.f(s.fwd(ix) if s.fwd else ix)

    def snap(s):
        """the present contents as a function of the index"""
        f, fwd, dims = s.buf.f, s.fwd, s.dims
        return (lambda ix: f(fwd(ix))) if fwd else f

    def _scalar(s):
        if all(isone(d) for d in s.dims):
            return s.at((0,) * len(s.dims))
        for d in s.dims:
            if not isone(d) and not E().branch(tm.eq(dimnum(d).v, tm.IONE)):
                raise TypeError('only length-1 arrays can be converted to Python scalars')
        return s.at((0,) * len(s.dims))

    @property
    def shape(s):
        return tuple(SDim(d) if isinstance(d, (Prod, Cat, Sel)) else mk(d) if isinstance(d, T) else d for d in s.dims)

    @property
    def ndim(s):
        return len(s.dims)

    @property
    def size(s):
        r = 1
        for d in s.dims:
            r = mul(r, dimnum(d))
        return r

    @property
    def dtype(s):
        return DT[s.kind]

    @property
    def flags(s):
        return types.SimpleNamespace(c_contiguous=True, writeable=True, f_contiguous=True)

    def __len__(s):
        raise Unsupported('len() of a symbolic-extent array outside the analysed code')

    def slen(s):
        if not s.dims:
            raise TypeError('len() of unsized object')
        d = s.dims[0]
        return SDim(d) if isinstance(d, (Prod, Cat, Sel)) else dimnum(d)

    def __bool__(s):
        one = True
        for d in s.dims:
            n = dimnum(d)
            c = cmp('==', n, 1)
            if not _bi.bool(c):
                one = False
        if not one:
            raise ValueError('The truth value of an array with more than one element is ambiguous.')
        return _bi.bool(s.at((0,) * len(s.dims)))

    def __iter__(s):
        d = s.dims[0]
        if isinstance(d, _bi.int):
            return iter([s[i] for i in _bi.range(d)])
        raise Unsupported('iteration over a symbolic-extent array')

    def __repr__(s):
        return 'A_(%d)' % regarr(s)

    def __reduce__(s):
        return (_afromreg, (regarr(s.copy()),))

    def __deepcopy__(s, memo):
        return s.copy()

    def __getattr__(s, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('ndarray.%s on a symbolic-extent array' % n)

    # ---- views
    def view_(s, dims, fwd, inv, lay='any'):
        of, oi = s.fwd, s.inv_

        def f2_(ix):
            b = fwd(ix)
            return of(b) if of else b

        def i2_(bx):
            if oi:
                c, mid = oi(bx)
                if mid is None:
                    return tm.FALSE, None
            else:
                c, mid = tm.TRUE, bx
            c2, ix = inv(mid)
            return tm.land(c, c2), ix
        return A(dims, None, s.kind, s.buf, f2_, i2_, lay)

    @property
    def T(s):
        return s.transpose()

    def transpose(s, *axes):
        n = len(s.dims)
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = axes[0]
        p = [x % n for x in axes] if axes and axes[0] is not None else list(_bi.range(n))[::-1]
        q = [p.index(k) for k in _bi.range(n)]
        return s.view_([s.dims[k] for k in p], lambda ix: tuple(ix[q[k]] for k in _bi.range(n)),
                       lambda b: (tm.TRUE, tuple(b[p[k]] for k in _bi.range(n))),
                       s.lay if p == list(_bi.range(n)) or (n == 1) else dict(C='F', F='C').get(s.lay, 'any') if p == list(_bi.range(n))[::-1] else 'any')

    def _key(s, key):
        if not isinstance(key, tuple):
            key = (key,)
        n = sum(1 for k in key if k is not None and k is not Ellipsis)
        if any(k is Ellipsis for k in key):
            i = [k is Ellipsis for k in key].index(True)
            key = key[:i] + (slice(None),) * (len(s.dims) - n) + key[i + 1:]
        else:
            key = key + (slice(None),) * (len(s.dims) - n)
        return key

    def __getitem__(s, key):
        if isinstance(key, A) or (isinstance(key, RN.ndarray) and key.ndim >= 1) or isinstance(key, list):
            return s._fancy(key)
        key = s._key(key)
        if any(isinstance(k, (A, RN.ndarray, list)) for k in key):
            # one advanced index on one axis, the rest full slices
            pos = [i for i, k in enumerate(key) if isinstance(k, (A, RN.ndarray, list))]
            if len(pos) == 1 and all(isinstance(k, slice) and k == slice(None) for i, k in enumerate(key) if i != pos[0]):
                return s._take(toA(key[pos[0]]), pos[0])
            raise Unsupported('advanced indexing')
        if len([k for k in key if k is not None]) > len(s.dims):
            raise IndexError('too many indices for array')
        dims, parts = [], []       # parts: per base axis ('fix', i) | ('sl', outpos, start, step)
        ax = 0
        for k in key:
            if k is None:
                dims.append(1)
                continue
            d = s.dims[ax]
            if isinstance(k, slice):
                st, ln, step = slice_(k, d)
                parts.append(('sl', len(dims), st, step))
                dims.append(ln)
            else:
                v = val(k)
                if v is None:
                    raise IndexError('only integers, slices, ellipsis, newaxis and integer or boolean arrays are valid indices')
                if _isr(v):
                    raise IndexError('only integers are valid indices')
                n = dimnum(d)
                i = k
                if not isinstance(d, (_bi.int, T)):
                    raise Unsupported('integer index into a flattened extent')
                if _bi.bool(cmp('<', i, 0)):
                    i = add(i, n)
                if _bi.bool(cmp('<', i, 0)) or not _bi.bool(cmp('<', i, n)):
                    raise IndexError('index out of bounds')
                parts.append(('fix', val(i)))
            ax += 1

        def fwd(ix):
            r = []
            for p in parts:
                if p[0] == 'fix':
                    r.append(p[1])
                elif isinstance(p[2], CatOff):
                    o, j = p[2], ix[p[1]]
                    r.append(('cat', o.a, j) if o.b == o.a + 1 else ('cat', o.a + j[1], j[2]))
                else:
                    r.append(aff(ix[p[1]], p[2], p[3]))
            return tuple(r)

        def inv(b):
            c = []
            ix = [0] * len(dims)
            for p, x in zip(parts, b):
                if p[0] == 'fix':
                    c.append(ixeq(x, p[1]))
                else:
                    if p[2] is None:
                        ix[p[1]] = x
                    elif isinstance(p[2], CatOff):
                        o = p[2]
                        if not o.a <= x[1] < o.b:
                            return tm.FALSE, None
                        ix[p[1]] = x[2] if o.b == o.a + 1 else ('cat', x[1] - o.a, x[2])
                    else:
                        if p[3] not in (1, -1):
                            raise Unsupported('store through a strided slice')
                        j = tm.mul(tm.lit(p[3], I), tm.sub(tm.wrap(x, I), tm.wrap(p[2], I)))
                        c += [tm.le(tm.IZERO, j), tm.lt(j, tm.wrap(dims[p[1]], I))]
                        ix[p[1]] = j
            return tm.land(*c), tuple(ix)
        r = s.view_(dims, fwd, inv, s._slay(parts))
        if not dims:
            return r.at(())
        if all(isinstance(d, _bi.int) for d in dims):
            return r._concrete()
        return r

    def _slay(s, parts):
        if s.lay == 'any':
            return 'any'
        seen = False
        for p in (parts if s.lay == 'C' else parts[::-1]):
            if p[0] == 'fix':
                if seen:
                    return 'any'
            elif seen and p[2] is not None:
                return 'any'
            elif p[2] is not None and (isinstance(p[2], CatOff) or p[3] != 1):
                return 'any'
            else:
                seen = True
        return s.lay

    def _concrete(s):
        return CView(s).arr()

    def _fancy(s, key):
        key = toA(key)
        if key.kind == 'b':
            if len(key.dims) != len(s.dims):
                if len(key.dims) == 1 and len(s.dims) > 1:
                    d = Sel(key)
                    dimeq(key.dims[0], s.dims[0])
                    f = s.snap()
                    return A((d,) + s.dims[1:], lambda ix: f((unsel(ix[0]),) + tuple(ix[1:])), s.kind)
                raise Unsupported('boolean index of lower rank')
            for p, q in zip(key.dims, s.dims):
                if not dimeq(p, q):
                    raise IndexError('boolean index did not match indexed array')
            f = s.snap()
            if len(s.dims) == 1:
                return A((Sel(key),), lambda ix: f((unsel(ix[0]),)), s.kind)
            return A((Sel(key),), lambda ix: f(tuple(unsel(ix[0]))), s.kind)
        if len(s.dims) == 1:
            return s._take(key, 0)
        return s._take(key, 0)

    def _take(s, key, ax):
        if key.kind == 'b':
            raise Unsupported('boolean index on one axis')
        f, g = s.snap(), key.snap()
        kd = key.dims
        d = s.dims[ax]

        def h(ix):
            j = g(tuple(ix[ax:ax + len(kd)]))
            v = val(j)
            n = dimnum(d)
            if _bi.bool(cmp('<', j, 0)):
                v = val(add(j, n))
            if not _bi.bool(cmp('<', mk(v), n)):
                raise IndexError('index out of bounds')
            return f(tuple(ix[:ax]) + (v,) + tuple(ix[ax + len(kd):]))
        return A(s.dims[:ax] + kd + s.dims[ax + 1:], h, s.kind)

    def __setitem__(s, key, v):
        if isinstance(v, MaskedArray):
            v = v.data
        if isinstance(key, A) and key.kind == 'b' or isinstance(key, RN.ndarray) and key.dtype == RN.bool_:
            key = toA(key)
            for p, q in zip(key.dims, s.dims):
                if not dimeq(p, q):
                    raise IndexError('boolean index did not match indexed array')
            m = key.snap()
            if isarr(v):
                v = toA(v)
                if v.dims and not all(isone(d) for d in v.dims):
                    if len(v.dims) == 1 and isinstance(v.dims[0], Sel) and samedim(v.dims[0], Sel(key)) is True:
                        w0 = v.snap()
                        w = lambda ix: w0((('sel', ix[0] if len(ix) == 1 else ix),))
                    else:
                        raise Unsupported('masked store of an array')
                else:
                    w1 = v
                    w = lambda ix: w1.at((0,) * len(w1.dims))
            else:
                w = lambda ix: v
            s._store(w, m)
            return
        if isinstance(key, (A, RN.ndarray, list)):
            raise Unsupported('store through an index array')
        if s.ndim and not (key is Ellipsis):
            t = s._slice_view(key)
        else:
            t = s
        if isarr(v):
            w0 = toA(v)
            bshape([t.dims, w0.dims])
            snap = w0.snap()
            nd = len(w0.dims)
            td = len(t.dims)

            def w(ix):
                jx = tuple(ix)[td - nd:]
                return snap(tuple(0 if isone(d) else j for d, j in zip(w0.dims, jx)))
        else:
            w = lambda ix: v
        t._store(w, None)

    def _slice_view(s, key):
        """like __getitem__ but always a view"""
        key = s._key(key)
        k2 = tuple(k if isinstance(k, slice) or k is None else slice_one(k) for k in key)
        v = s._conc_free(k2)
        drop = [i for i, k in enumerate(key) if not isinstance(k, slice) and k is not None]
        if not drop:
            return v
        keep = [i for i in _bi.range(len(v.dims)) if i not in drop]

        def fwd(ix):
            r = [0] * len(v.dims)
            for j, i in enumerate(keep):
                r[i] = ix[j]
            return tuple(r)
        return v.view_([v.dims[i] for i in keep], fwd, lambda b: (tm.TRUE, tuple(b[i] for i in keep)))

    def _conc_free(s, key):
        old = A._concrete
        A._concrete = lambda q: q
        try:
            return s[key]
        finally:
            A._concrete = old

    def _store(s, w, mask):
        buf, fwd, inv_, kd = s.buf, s.fwd, s.inv_, s.kind
        old = buf.f

        def f(b):
            if inv_:
                c, ix = inv_(b)
                if ix is None:
                    return old(b)
            else:
                c, ix = tm.TRUE, b
            if not E().branch(c):
                return old(b)
            if mask is not None and not _bi.bool(mask(ix)):
                return old(b)
            return cast1(lift(w(ix)), kd)
        buf.f = f

    # ---- elementwise
    @staticmethod
    def lazy_op(f, ins, kd=None):
        shape = bshape([x.dims for x in ins])
        snaps = [(x.snap(), x.dims) for x in ins]
        n = len(shape)

        def g(ix):
            a = []
            for sn, d in snaps:
                jx = ix[n - len(d):]
                a.append(sn(tuple(0 if isone(dd) else j for dd, j in zip(d, jx))))
            r = f(*a)
            if r is NotImplemented:
                raise TypeError('unsupported operand types')
            return r
        lay = 'any' if n > 1 and any(x.lay != 'C' for x in ins if len(x.dims) == n) else 'C'
        if kd is None:
            ks = [x.kind for x in ins]
            kd = 'f'
            if 'c' in ks:
                kd = 'c'
            elif 'O' in ks:
                kd = 'O'
            elif all(k in 'bi' for k in ks):
                kd = 'i' if f in (add, sub, mul, floordiv, mod) else ('b' if all(k == 'b' for k in ks) and f not in (div,) else 'f')
        if not shape:
            return g(())
        return A(shape, g, kd, lay=lay)

    def _bin(s, name, o, refl=False):
        if not (isarr(o) or val(o) is not None or isinstance(o, Cx)):
            return NotImplemented
        return elementwise(name, [o, s] if refl else [s, o])

    def klay(s):
        """layout of a copy that keeps the order of the axes in memory"""
        return 'C' if len(s.dims) <= 1 else s.lay

    def copy(s, order='C'):
        return A(s.dims, s.snap(), s.kind, lay=s.klay() if order in ('K', 'A') else order or 'C')

    def astype(s, dt, **k):
        kd = dtkind(dt)
        sn = s.snap()
        return A(s.dims, lambda ix: cast1(sn(ix), kd), kd, lay=k.get('order') or s.klay())

    def fill(s, v):
        s._store(lambda ix: v, None)

    def reshape(s, *sh, order=None):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = tuple(sh[0])
        if len(sh) == 1 and val(sh[0]) is not None and cmp('==', sh[0], -1) is True:
            return s.ravel()
        sh = tuple(x.d if isinstance(x, SDim) else todim(x) for x in sh)
        if len(sh) == len(s.dims) and all(samedim(a, b) is True for a, b in zip(sh, s.dims)):
            return s
        # splitting one flattened extent
        if len(s.dims) == 1 and isinstance(s.dims[0], Prod) and len(sh) == len(s.dims[0].ds) and \
                all(samedim(a, b) is True for a, b in zip(sh, s.dims[0].ds)):
            return s.view_(sh, lambda ix: (tuple(ix),), lambda b: (tm.TRUE, tuple(b[0])), 'C' if s.lay == 'C' else 'any')
        # one plain extent into a block of that size, row by row
        if len(s.dims) == 1 and isinstance(s.dims[0], (_bi.int, T)) and len(sh) == 2 and \
                all(isinstance(x, (_bi.int, T)) for x in sh):
            p = mul(mk(tm.wrap(sh[0], I)), mk(tm.wrap(sh[1], I)))
            if _bi.bool(cmp('==', p, dimnum(s.dims[0]))):
                w = tm.wrap(sh[1], I)

                def noinv(b):
                    raise Unsupported('store through a reshaped array')
                return s.view_(sh, lambda ix: (tm.add(tm.mul(tm.wrap(ix[0], I), w), tm.wrap(ix[1], I)),), noinv, 'C' if s.lay == 'C' else 'any')
            raise ValueError('cannot reshape array')
        # flattening everything into one extent of that size
        if len(sh) == 1 and len(s.dims) > 1:
            return s.ravel()
        raise Unsupported('reshape of a symbolic-extent array')

    def ravel(s, order=None):
        if len(s.dims) == 1:
            return s
        if len([d for d in s.dims if not isone(d)]) == 1:
            k = [i for i, d in enumerate(s.dims) if not isone(d)][0]
            n = len(s.dims)
            return s.view_([s.dims[k]], lambda ix: tuple(ix[0] if i == k else 0 for i in _bi.range(n)),
                           lambda b: (tm.TRUE, (b[k],)), 'C')
        return s.view_([Prod(s.dims)], lambda ix: tuple(ix[0]), lambda b: (tm.TRUE, (tuple(b),)), 'C')

    def flatten(s, order=None):
        return s.ravel().copy()

    def squeeze(s):
        k = [i for i, d in enumerate(s.dims) if not isone(d)]
        n = len(s.dims)
        return s.view_([s.dims[i] for i in k],
                       lambda ix: tuple(ix[k.index(i)] if i in k else 0 for i in _bi.range(n)),
                       lambda b: (tm.TRUE, tuple(b[i] for i in k)))

    @property
    def ctypes(s):
        w = WORLD[0]
        if w is not None and getattr(w, 'u', None) is not None and s.dims:
            w.u.post('memory handed to the C++ part is contiguous', tm.const(s.lay in ('C', 'F')))
            w.u.post('memory handed to the C++ part holds doubles (truth values, complex doubles)', tm.const(s.kind in 'fbc'))
        return CT(s)

    def tolist(s):
        return AList(s)

    def any(s, *a, **k):
        return NP.any(s, *a, **k)

    def all(s, *a, **k):
        return NP.all(s, *a, **k)

    def sum(s, axis=None, **k):
        return NP.sum(s, axis=axis, **k)

    def mean(s, axis=None, **k):
        return NP.mean(s, axis=axis, **k)

    def max(s, *a, **k):
        return NP.max(s, *a, **k)

    def min(s, *a, **k):
        return NP.min(s, *a, **k)

    def dot(s, o):
        return NP.dot(s, o)

    @property
    def real(s):
        if s.kind != 'c':
            return s
        sn = s.snap()
        return A(s.dims, lambda ix: sn(ix).real, 'f')

    @property
    def imag(s):
        sn = s.snap()
        return A(s.dims, lambda ix: cx(sn(ix)).imag, 'f')

    def __matmul__(s, o):
        return NP.matmul(s, o)

    def __rmatmul__(s, o):
        return NP.matmul(o, s)

    def __neg__(s):
        return elementwise('negative', [s])

    def __pos__(s):
        return s.copy()

    def __abs__(s):
        return elementwise('absolute', [s])

    def __invert__(s):
        return elementwise('logical_not', [s])


for _n, _u in (('add', 'add'), ('sub', 'subtract'), ('mul', 'multiply'), ('truediv', 'divide'),
               ('floordiv', 'floor_divide'), ('mod', 'remainder'), ('pow', 'power'), ('and', 'logical_and'),
               ('or', 'logical_or'), ('xor', 'logical_xor')):
    setattr(A, '__%s__' % _n, lambda s, o, _u=_u: s._bin(_u, o))
    setattr(A, '__r%s__' % _n, lambda s, o, _u=_u: s._bin(_u, o, True))

    def _inp(s, o, _u=_u):
        r = s._bin(_u, o)
        if isinstance(r, A):
            bshape([s.dims, r.dims])
            if len(r.dims) > len(s.dims):
                raise ValueError('non-broadcastable output operand')
        s[...] = r
        return s
    setattr(A, '__i%s__' % _n, _inp)
for _n, _u in (('eq', 'equal'), ('ne', 'not_equal'), ('lt', 'less'), ('le', 'less_equal'), ('gt', 'greater'),
               ('ge', 'greater_equal')):
    setattr(A, '__%s__' % _n, lambda s, o, _u=_u: s._bin(_u, o))


def _afromreg(i):
    return _arrs[i].copy()


def selected(c):
    """np.where(c)"""
    m = A(c.dims, (lambda sn: lambda ix: cast1(sn(ix), 'b'))(c.snap()), 'b')
    d = Sel(m)

    def axis(k):
        def f(ix):
            i = unsel(ix[0])
            i = i if len(m.dims) == 1 else i[k]
            if not isinstance(i, (_bi.int, T)):
                raise Unsupported('np.where over a structured extent')
            if isinstance(ix[0], tuple):
                n = dimnum(m.dims[k])
                E().assume(tm.land(tm.le(tm.IZERO, tm.wrap(i, I)), tm.lt(tm.wrap(i, I), tm.wrap(val(n), I))))
            return mk(tm.wrap(i, I))
        return A((d,), f, 'i')
    return tuple(axis(k) for k in _bi.range(len(m.dims)))


def unsel(i):
    return i[1] if isinstance(i, tuple) and i and i[0] == 'sel' else i


class SDim(NumI):
    """a structured extent as a number"""
    __slots__ = ('d',)

    def __init__(s, d):
        s.d = d
        v = val(dimnum(d))
        s.v = v


class AList:
    """tolist() of a symbolic-extent array"""

    def __init__(s, a):
        s.f = a.snap()
        s.dims, s.kind = a.dims, a.kind

    def __iter__(s):
        raise Unsupported('iteration over the elements of a symbolic-extent array')


def slice_one(k):
    v = val(k)
    if v is None or _isr(v):
        raise IndexError('bad index')
    if cmp('==', k, -1) is True:
        return slice(k, None)
    return slice(k, add(k, 1))


def aff(i, st, step):
    if st is None:
        return i
    if isinstance(i, tuple):
        raise Unsupported('slice of a flattened extent')
    return tm.add(tm.wrap(st, I), tm.mul(tm.lit(step, I), tm.wrap(i, I)))


def catslice(k, d):
    """a slice of a concatenation between boundaries of its pieces -> (first, last) piece or None"""
    ends = [lift(0)]
    for x in d.ds:
        ends.append(add(ends[-1], dimnum(x)))

    def find(x, dflt):
        if x is None:
            return dflt
        for j, q in enumerate(ends):
            c = cmp('==', x, q)
            if c is True or (isinstance(c, NumB) and not prove.feasible(E().pc + [tm.lnot(c.t)], 1000)):
                return j
        return None
    a, b = find(k.start, 0), find(k.stop, len(d.ds))
    if a is None or b is None or b <= a:
        return None
    return a, b


def slice_(k, d):
    """(start or None for the whole extent, length, step)"""
    step = 1 if k.step is None else k.step
    if k.start is None and k.stop is None and step == 1:
        return None, d, 1
    if isinstance(d, Cat) and step == 1:
        ab = catslice(k, d)
        if ab is not None:
            a, b = ab
            return CatOff(a, b), d.ds[a] if b == a + 1 else Cat(d.ds[a:b]), 1
    if not isinstance(d, (_bi.int, T)):
        raise Unsupported('slice of a flattened extent')
    if not isinstance(step, _bi.int):
        raise Unsupported('symbolic step')
    n = mk(tm.wrap(d, I))

    def clamp(x, dflt, lo, hi):
        if x is None:
            return dflt
        if _bi.bool(cmp('<', x, 0)):
            x = add(x, n)
            if _bi.bool(cmp('<', x, lo)):
                x = lo
        elif not _bi.bool(cmp('<=', x, hi)):
            x = hi
        return x
    if step > 0:
        a = clamp(k.start, 0, 0, n)
        b = clamp(k.stop, n, 0, n)
        ln = sub(b, a)
        if _bi.bool(cmp('<', ln, 0)):
            ln = 0
        if step != 1:
            ln = floordiv(add(ln, step - 1), step)
    else:
        a = clamp(k.start, sub(n, 1), -1, sub(n, 1))
        b = clamp(k.stop, -1, -1, sub(n, 1))
        ln = sub(a, b)
        if _bi.bool(cmp('<', ln, 0)):
            ln = 0
        if step != -1:
            ln = floordiv(add(ln, -step - 1), -step)
    return val(a), todim(ln), step


class CView:
    """a part of concrete shape of a symbolic-extent array: copied out (stores do not propagate, so
    in-place use is refused by numpy semantics only when the code does it; such code is unsupported)"""

    def __init__(s, a):
        s.a = a

    def arr(s):
        a = s.a
        return mkarr([a.at(ix) for ix in itertools.product(*[_bi.range(d) for d in a.dims])], a.dims,
                     'b' if a.kind == 'b' else None)


def hasA(x):
    if isinstance(x, A):
        return True
    if isinstance(x, (list, tuple)):
        return any(hasA(y) for y in x)
    return False


def toA(x):
    if isinstance(x, MaskedArray):
        x = x.data
    """anything array-like as an A (concrete ones as index functions)"""
    if isinstance(x, A):
        return x
    if isinstance(x, (list, tuple)) and hasA(x):
        parts = [toA(y) for y in x]
        sh = bshape([p.dims for p in parts])
        for p in parts:
            if len(p.dims) != len(sh):
                raise ValueError('inhomogeneous shape')
        snaps = [(p.snap(), p.dims) for p in parts]

        def f(ix):
            k = cidx(ix[0])
            if k is None:
                for k in _bi.range(len(snaps) - 1):
                    if E().branch(tm.eq(tm.wrap(ix[0], I), tm.lit(k, I))):
                        break
                else:
                    k = len(snaps) - 1
            sn, d = snaps[k]
            return sn(tuple(0 if isone(dd) else j for dd, j in zip(d, ix[1:])))
        ks = [p.kind for p in parts]
        kd = max(ks, key='bifcO'.index)
        return A((len(parts),) + sh, f, kd)
    if isinstance(x, (list, tuple, RN.ndarray)):
        a = RN.asarray(oarr(x)).copy()
        kd = kind(a)

        def f(ix):
            jx = []
            for i, n in zip(ix, a.shape):
                k = cidx(i)
                if k is None:
                    if isinstance(i, tuple):
                        raise Unsupported('structured index into an array of concrete shape')
                    for k in _bi.range(n - 1):
                        if E().branch(tm.eq(i, tm.lit(k, I))):
                            break
                    else:
                        k = n - 1
                jx.append(k)
            return lift(a[tuple(jx)])
        return A(a.shape, f, kd)
    v = lift(x)
    return A((), lambda ix: v, skind(v))


# ------------------------------------------------------------------ dtypes, builtins
class _FloatMeta(type):
    def __instancecheck__(c, x):
        return isinstance(x, (_bi.float, NumR, RN.floating))

    def __call__(c, x=0.0):
        return fl(x)

    def __eq__(c, o):
        return o is c or o is _bi.float or o is RN.float64

    def __hash__(c):
        return _bi.hash(_bi.float)


class Float(metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(c, x):
        return isinstance(x, (_bi.int, NumI)) and True

    def __call__(c, x=0, *a):
        if a:
            return _bi.int(x, *a)
        return trunc(x)

    def __eq__(c, o):
        return o is c or o is _bi.int or o is RN.int64

    def __hash__(c):
        return _bi.hash(_bi.int)


class Int(metaclass=_IntMeta):
    pass


def dtkind(dt):
    if dt is None:
        return None
    if isinstance(dt, DType):
        return dt.k
    if dt is Float or dt is _bi.float or dt in (RN.float64,):
        return 'f'
    if dt is Int or dt is _bi.int or dt in (RN.int64, RN.int32, RN.intp):
        return 'i'
    if dt is _bi.bool or dt is RN.bool_:
        return 'b'
    if dt is _bi.complex or dt is RN.complex128:
        return 'c'
    if dt is object:
        return 'O'
    if isinstance(dt, RN.dtype):
        return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'c': 'c', 'O': None}[dt.kind]
    if isinstance(dt, str):
        return {'float': 'f', 'float64': 'f', 'f8': 'f', 'd': 'f', 'int': 'i', 'bool': 'b', 'complex': 'c',
                'i8': 'i', 'int64': 'i', 'complex128': 'c'}[dt.strip('<>=')]
    raise Unsupported('dtype %r' % (dt,))


class DType:
    def __init__(s, k):
        s.k = k
        s.kind = {'f': 'f', 'i': 'i', 'b': 'b', 'c': 'c', 'O': 'O'}[k]
        s.itemsize = {'f': 8, 'i': 8, 'b': 1, 'c': 16, 'O': 8}[k]

    def __eq__(s, o):
        try:
            return dtkind(o) == s.k
        except Exception:
            return False

    def __hash__(s):
        return _bi.hash(s.k)


DT = {k: DType(k) for k in 'fibcO'}


def slen(x):
    if isinstance(x, A):
        return x.slen()
    if isinstance(x, AList):
        return dimnum(x.dims[0])
    m = getattr(type(x), '__len__', None)
    if m is not None and not isinstance(x, (list, tuple, dict, str, set, bytes, RN.ndarray)):
        return m(x)
    return _bi.len(x)


def senumerate(x, start=0):
    if isinstance(x, Seq):
        return Seq(x.n, lambda k: (mk(tm.add(k, tm.wrap(val(start), I))), x.item(k)), x.inv)
    return _bi.enumerate(x, start)


def szip(*a, **k):
    if _bi.any(isinstance(x, Seq) for x in a):
        if not _bi.all(isinstance(x, Seq) and x.n is a[0].n for x in a):
            raise Unsupported('zip of sequences of different arbitrary lengths')
        return Seq(a[0].n, lambda i: _bi.tuple(x.item(i) for x in a), a[0].inv)
    return _bi.zip(*a, **k)


def srange(*a):
    if any(isinstance(x, Num) for x in a):
        iv = getattr(E(), 'loopinv', None)
        if iv is not None:
            lo = 0 if len(a) == 1 else a[0]
            hi = a[0] if len(a) == 1 else a[1]
            st = a[2] if len(a) == 3 else 1
            if st == 1:
                n = sub(hi, lo)
                return Seq(tm.wrap(val(n), I), lambda k: add(lo, mk(k)), iv)
            if st == -1:
                n = sub(lo, hi)
                return Seq(tm.wrap(val(n), I), lambda k: sub(lo, mk(k)), iv)
        raise Unsupported('range() with a symbolic bound')
    return _bi.range(*[_bi.int(x) if isinstance(x, RN.integer) else x for x in a])


def smax(*a, **k):
    return _extreme('>', a, k)


def smin(*a, **k):
    return _extreme('<', a, k)


def _extreme(op, a, k):
    l = list(a[0]) if len(a) == 1 else list(a)
    key = k.get('key') or (lambda x: x)
    if not l:
        if 'default' in k:
            return k['default']
        raise ValueError('max() iterable argument is empty')
    r = l[0]
    for x in l[1:]:
        p, q = key(x), key(r)
        c = cmp(op, p, q)
        if c is NotImplemented:
            c = p > q if op == '>' else p < q
        if c:
            r = x
    return r


class H:
    """hash value: equal for equal structure only.  Two hashes are provably equal exactly when the
    hashed tuples are equal component by component."""

    def __init__(s, k):
        s.k = k

    def __hash__(s):
        return 0

    def __eq__(s, o):
        return isinstance(o, H) and eqstruct(s.k, o.k)

    def __index__(s):
        return 0


def eqstruct(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(eqstruct(x, y) for x, y in zip(a, b))
    if isinstance(a, H) or isinstance(b, H):
        return isinstance(a, H) and isinstance(b, H) and eqstruct(a.k, b.k)
    x, y = val(a), val(b)
    if x is not None and y is not None:
        if isinstance(x, T) and isinstance(y, T):
            return E().branch(tm.eq(x, y))
        return x is y
    if isinstance(a, NumB) or isinstance(b, NumB):
        return _bi.bool(cmp('==', a, b))
    return type(a) == type(b) and a == b


def shash(x):
    return H(_hk(x))


def _hk(x):
    if isinstance(x, tuple):
        return ('tuple',) + tuple(_hk(y) for y in x)
    if isinstance(x, frozenset):
        return ('frozenset',) + tuple(sorted((_hk(y) for y in x), key=repr))
    if isinstance(x, (list, dict, set, RN.ndarray, A)):
        raise TypeError('unhashable type: %r' % type(x).__name__)
    if isinstance(x, AListTuple):
        return ('atuple', x.key())
    if isinstance(x, (Num, NumB, _bi.int, _bi.float, _bi.bool, str, bytes, type(None), Fraction, types.FunctionType, type,
                      RN.bool_, RN.integer, RN.floating)):
        return x
    h = type(x).__hash__
    if h is None:
        raise TypeError('unhashable type: %r' % type(x).__name__)
    if h is object.__hash__:
        return ('id', id(x))
    r = h(x)
    return r.k if isinstance(r, H) else r


class AListTuple(tuple):
    pass


# ------------------------------------------------------------------ numpy as seen by the analysed code
class _Ctx:
    def __enter__(s):
        return s

    def __exit__(s, *a):
        return False


def kw_none(**k):
    for n, v in k.items():
        if v not in (None, False, 'K', 'C', True, 'same_kind', 'unsafe', 'A', 'F'):
            raise Unsupported('numpy keyword ' + n)


def mkcast(x, kd):
    """array-like of concrete shape -> SArr"""
    o = oarr(x)
    if o.shape == ():
        k = kd if kd is not None else skind(o.item())
        r = RN.empty((), dtype=object)
        r[()] = cast1(o.item(), k) if k in 'fibc' else o.item()
        return r.view(SArr)
    if kd is None:
        k = kind(o)
        if o.dtype == RN.bool_:
            return o.copy().view(SArr)
        return cast(o.copy(), k if k in 'fcb' else 'O')
    return cast(o.copy(), kd)


class Linalg:
    def norm(s, x, ord=None, axis=None, keepdims=False):
        if ord not in (None, 2):
            raise Unsupported('norm ord')
        if hasA(x):
            return NP.sqrt(NP.sum(toA(x) * toA(x), axis=axis, keepdims=keepdims))
        x = mkcast(x, 'f')
        return NP.sqrt(NP.sum(x * x, axis=axis, keepdims=keepdims))

    def det(s, m):
        m = mkcast(m, 'f')
        if m.shape == (2, 2):
            return sub(mul(m[0, 0], m[1, 1]), mul(m[0, 1], m[1, 0]))
        if m.shape == (3, 3):
            r = None
            for i in (0, 1, 2):
                j, k = (i + 1) % 3, (i + 2) % 3
                t = mul(m[0, i], sub(mul(m[1, j], m[2, k]), mul(m[1, k], m[2, j])))
                r = t if r is None else add(r, t)
            return r
        raise Unsupported('det of shape %r' % (m.shape,))

    def inv(s, m):
        m = mkcast(m, 'f')
        d = s.det(m)
        if _bi.bool(cmp('==', d, 0)):
            raise RN.linalg.LinAlgError('Singular matrix')
        if m.shape == (2, 2):
            l = [m[1, 1], neg(m[0, 1]), neg(m[1, 0]), m[0, 0]]
            return mkarr([div(x, d) for x in l], (2, 2))
        l = []
        for i in (0, 1, 2):
            for j in (0, 1, 2):
                a, b = (j + 1) % 3, (j + 2) % 3
                c, e = (i + 1) % 3, (i + 2) % 3
                l.append(div(sub(mul(m[a, c], m[b, e]), mul(m[a, e], m[b, c])), d))
        return mkarr(l, (3, 3))

    def solve(s, m, b):
        return NP.dot(s.inv(m), b)

    def lstsq(s, a, b, rcond=None):
        h = WORLD[0].lstsq if WORLD[0] is not None else None
        if h is None:
            raise Unsupported('np.linalg.lstsq')
        return h(a, b)

    def __getattr__(s, n):
        if n == 'LinAlgError':
            return RN.linalg.LinAlgError
        raise Unsupported('np.linalg.' + n)


class Rng:
    """a random generator: the k-th draw is an arbitrary number within the documented range, the same
    for the same seed and draw number"""

    def __init__(s, seed):
        s.seed, s.n = seed, 0

    def uniform(s, low=0.0, high=1.0, size=None):
        return s._draw('uniform', low, high, size)

    def random(s, size=None):
        return s._draw('uniform', 0, 1, size)

    def normal(s, loc=0.0, scale=1.0, size=None):
        s.n += 1
        nm = 'rng%s_%d' % (s.tag(), s.n)
        if size is None:
            return add(loc, mul(scale, NumR(tm.var(nm))))
        d = todim(size)
        return A((d,), lambda ix: add(loc, mul(scale, NumR(tm.app(nm, (tm.wrap(ix[0], I),))))), 'f')

    def tag(s):
        v = val(s.seed) if s.seed is not None else None
        return 'X' if v is None else str(v.id if isinstance(v, T) else v)

    def _draw(s, what, low, high, size):
        s.n += 1
        nm = 'rng%s_%d' % (s.tag(), s.n)

        def draw(t):
            E().assume(tm.le(ZERO, t))
            E().assume(tm.lt(t, ONE))
            return add(low, mul(sub(high, low), NumR(t)))
        if size is None:
            return draw(tm.var(nm))
        if isinstance(size, (tuple, list)):
            ds = tuple(todim(x) for x in size)
        else:
            ds = (todim(size),)
        E().trusted.add('numpy.random.Generator.uniform(a, b) draws from [a, b)')
        return A(ds, lambda ix: draw(tm.app(nm, tuple(tm.wrap(i, I) for i in ix))), 'f')

    def __getattr__(s, n):
        raise Unsupported('numpy.random.Generator.' + n)


class Random:
    Generator = Rng

    def default_rng(s, seed=None):
        if isinstance(seed, Rng):
            return seed
        return Rng(seed)

    def __getattr__(s, n):
        raise Unsupported('np.random.' + n)


class Fft:
    def fftfreq(s, n, d=1.0):
        N = todim(n)

        def f(ix):
            i = mk(tm.wrap(ix[0], I))
            h = add(floordiv(sub(n, 1), 2), 1)
            k = i if _bi.bool(cmp('<', i, h)) else sub(i, n)
            return div(k, mul(n, d))
        if isinstance(N, _bi.int):
            return mkarr([f((k,)) for k in _bi.range(N)], (N,))
        return A((N,), f, 'f')

    def fftshift(s, x, axes=None):
        a = toA(x)
        conc = not hasA(x)
        sn, dims = a.snap(), a.dims
        axs = _bi.range(len(dims)) if axes is None else [axes] if isinstance(axes, _bi.int) else list(axes)

        def f(ix):
            r = list(ix)
            for k in axs:
                n = dimnum(dims[k])
                i = mk(tm.wrap(ix[k], I))
                h = floordiv(n, 2)
                r[k] = val(sub(i, h)) if _bi.bool(cmp('>=', i, h)) else val(add(i, sub(n, h)))
                c = cidx(r[k])
                r[k] = r[k] if c is None else c
            return sn(tuple(r))
        res = A(dims, f, a.kind)
        return res._concrete() if conc else res

    def __getattr__(s, n):
        w = WORLD[0]
        if w is not None and n in getattr(w, 'fft', {}):
            return w.fft[n]
        raise Unsupported('np.fft.' + n)


class Leg:
    def leggauss(s, n):
        N = todim(n)
        E().trusted.add('numpy.polynomial.legendre.leggauss: nodes in (-1,1), weights positive and summing to 2')

        def node(ix):
            t = tm.app('leg_x', (tm.wrap(N, I), tm.wrap(ix[0], I)))
            E().assume(tm.lt(tm.lit(-1), t))
            E().assume(tm.lt(t, ONE))
            return NumR(t)

        def wt(ix):
            t = tm.app('leg_w', (tm.wrap(N, I), tm.wrap(ix[0], I)))
            E().assume(tm.lt(ZERO, t))
            return NumR(t)
        if isinstance(N, _bi.int):
            return mkarr([node((k,)) for k in _bi.range(N)], (N,)), mkarr([wt((k,)) for k in _bi.range(N)], (N,))
        return A((N,), node, 'f'), A((N,), wt, 'f')


WORLD = [None]


class NPShim:
    """the module `numpy` of the analysed code"""
    ndarray = None      # set below
    newaxis = None
    bool_ = RN.bool_
    float64 = Float
    float32 = Float
    int64 = Int
    int32 = Int
    intp = Int
    complex128 = _bi.complex
    integer = RN.integer
    floating = RN.floating
    number = RN.number
    linalg = Linalg()
    random = Random()
    fft = Fft()
    polynomial = types.SimpleNamespace(legendre=Leg())
    def ndindex(s, *sh):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = tuple(sh[0])
        ds = [todim(x) for x in sh]
        if all(isinstance(d, _bi.int) for d in ds):
            return RN.ndindex(*ds)
        return looprule(ds)

    class ma:
        pass

    @property
    def pi(s):
        return NumR(PI)

    @property
    def nan(s):
        return NumR(fp.NAN)

    @property
    def inf(s):
        return NumR(fp.PINF)

    def errstate(s, **k):
        return _Ctx()

    def seterr(s, **k):
        return {}

    # -- construction
    def array(s, x, dtype=None, copy=True, order=None, ndmin=0, subok=False):
        kd = dtkind(dtype)
        if isinstance(x, AList):
            return A(x.dims, x.f, x.kind)
        if hasA(x):
            a = toA(x)
            if kd is None or kd == a.kind:
                return a.copy(order or 'K')
            return a.astype(DT[kd], order=None if order in ('K', 'A') else order)
        if isinstance(x, RN.ndarray):
            return mkcast(x, kd)
        if not isinstance(x, (list, tuple)) and hasattr(x, '__len__') and hasattr(x, '__getitem__') and \
                not isinstance(x, str):
            x = list(x)
        r = mkcast(x, kd)
        while r.ndim < ndmin:
            r = r[None]
        return r

    def asarray(s, x, dtype=None, order=None, **k):
        kd = dtkind(dtype)
        if isinstance(x, (A, SArr)) and (kd is None or kind(x) == kd):
            return x
        return s.array(x, dtype)
    asanyarray = asarray

    def ascontiguousarray(s, x, dtype=None, lay='C', **k):
        # assumption: may or may not be the same memory; the code only reads or owns it
        r = s.atleast_1d(s.asarray(x, dtype))
        if isinstance(r, A) and (r.lay == 'any' or (len(r.dims) > 1 and r.lay != lay)):
            r = r.copy(lay)
        return r

    def asfortranarray(s, x, dtype=None, **k):
        return s.ascontiguousarray(x, dtype, 'F')

    def copy(s, x, **k):
        return s.array(x)

    def _alloc(s, shape, v, kd):
        if isinstance(shape, (Num, _bi.int, RN.integer)):
            shape = (shape,)
        ds = tuple(x.d if isinstance(x, SDim) else todim(x) for x in shape)
        if all(isinstance(d, _bi.int) for d in ds):
            n = math.prod(ds)
            vv = [v(k) for k in _bi.range(n)]
            return mkarr(vv, ds, 'b' if kd == 'b' else None)
        return A(ds, lambda ix: v(ix), kd)

    def zeros(s, shape, dtype=Float, order=None):
        kd = dtkind(dtype)
        z = cast1(0, kd)
        return s._alloc(shape, lambda k: z, kd)

    def ones(s, shape, dtype=Float, order=None):
        kd = dtkind(dtype)
        z = cast1(1, kd)
        return s._alloc(shape, lambda k: z, kd)

    def empty(s, shape, dtype=Float, order=None):
        kd = dtkind(dtype)
        if kd == 'b':
            return s._alloc(shape, lambda k: False, kd)
        if kd == 'O':
            return s._alloc(shape, lambda k: None, kd)
        u = NumR(fp.POISON)
        r = s._alloc(shape, lambda k: u, kd)
        if isinstance(r, A) and order == 'F':
            r.lay = 'F'
        return r

    def full(s, shape, v, dtype=None, order=None):
        kd = dtkind(dtype) or skind(v)
        v = cast1(v, kd)
        return s._alloc(shape, lambda k: v, kd)

    def zeros_like(s, x, dtype=None, **k):
        x = s.asarray(x)
        return s.zeros(x.shape, dtype or DT[kind(x)])

    def ones_like(s, x, dtype=None, **k):
        x = s.asarray(x)
        return s.ones(x.shape, dtype or DT[kind(x)])

    def empty_like(s, x, dtype=None, **k):
        x = s.asarray(x)
        r = s.empty(x.shape, dtype or DT[kind(x)])
        if isinstance(r, A) and isinstance(x, A):
            r.lay = x.klay() if k.get('order') in (None, 'K') else k['order']
        return r

    def full_like(s, x, v, dtype=None, **k):
        x = s.asarray(x)
        kd = dtkind(dtype) or kind(x)
        r = s.empty(x.shape, DT[kd])
        r[...] = v
        return r

    def eye(s, n, m=None, dtype=Float, **k):
        m = n if m is None else m
        kd = dtkind(dtype)
        return mkarr([cast1(1 if i == j else 0, kd) for i in _bi.range(n) for j in _bi.range(m)], (n, m))

    def identity(s, n, dtype=Float):
        return s.eye(n, dtype=dtype)

    def diag(s, x):
        x = mkcast(x, None)
        if x.ndim == 1:
            r = s.zeros((len(x), len(x)))
            for i in _bi.range(len(x)):
                r[i, i] = x[i]
            return r
        return mkarr([x[i, i] for i in _bi.range(_bi.min(x.shape))], (_bi.min(x.shape),))

    def linspace(s, a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
        N = todim(num)
        a, b = fl(a), fl(b)

        def f(ix):
            i = mk(tm.wrap(ix[0], I))
            m = sub(num, 1) if endpoint else num
            if _bi.bool(cmp('<=', m, 0)):
                return a
            return add(a, div(mul(i, sub(b, a)), m))
        if isinstance(N, _bi.int):
            if N < 0:
                raise ValueError('Number of samples, %s, must be non-negative.' % N)
            r = mkarr([f((k,)) for k in _bi.range(N)], (N,))
        else:
            r = A((N,), f, 'f')
        if retstep:
            m = sub(num, 1) if endpoint else num
            return r, div(sub(b, a), m)
        return r

    def arange(s, *a, dtype=None):
        a = list(a)
        start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if any(skind(x) == 'f' for x in (start, stop, step)):
            raise Unsupported('np.arange with floats')
        n = sub(stop, start)
        if cmp('==', step, 1) is not True:
            n = floordiv(add(n, sub(step, 1)), step)
        N = todim(n)
        f = lambda ix: add(start, mul(step, mk(tm.wrap(ix[0], I))))
        if isinstance(N, _bi.int):
            return mkarr([f((k,)) for k in _bi.range(max(N, 0))], (max(N, 0),))
        if _bi.bool(cmp('<', n, 0)):
            N = 0
            return mkarr([], (0,))
        return A((N,), f, 'i')

    def meshgrid(s, *xs, indexing='xy', **k):
        if not any(hasA(x) for x in xs):
            return [r.copy().view(SArr) for r in RN.meshgrid(*[RN.asarray(mkcast(x, None)) for x in xs], indexing=indexing)]
        xs = [toA(x).ravel() for x in xs]
        n = len(xs)
        order = list(_bi.range(n))
        if indexing == 'xy' and n > 1:
            order[0], order[1] = 1, 0
        dims = [xs[i].dims[0] for i in order]
        out = []
        for j, x in enumerate(xs):
            sn, pos, one = x.snap(), order.index(j), isone(x.dims[0])
            out.append(A(dims, lambda ix, sn=sn, pos=pos, one=one: sn((0 if one else ix[pos],)), x.kind))
        return out

    def mgrid(s):
        raise Unsupported('np.mgrid')

    # -- shape
    def shape(s, x):
        return s.asarray(x).shape

    def ndim(s, x):
        return s.asarray(x).ndim

    def size(s, x):
        return s.asarray(x).size

    def broadcast(s, *xs):
        if any(hasA(x) for x in xs):
            sh = bshape([toA(x).dims for x in xs])
            return types.SimpleNamespace(shape=A(sh, None).shape)
        return types.SimpleNamespace(shape=RN.broadcast_shapes(*[oarr(x).shape if isarr(x) else () for x in xs]))

    def broadcast_shapes(s, *shs):
        return RN.broadcast_shapes(*shs)

    def broadcast_to(s, x, shape, subok=False):
        if isinstance(shape, (Num, _bi.int)):
            shape = (shape,)
        ds = tuple(d.d if isinstance(d, SDim) else todim(d) for d in shape)
        if not hasA(x) and all(isinstance(d, _bi.int) for d in ds):
            return RN.broadcast_to(RN.asarray(mkcast(x, None)), ds).view(SArr)
        a = toA(x)
        b = bshape([a.dims, ds])
        if len(b) != len(ds):
            raise ValueError('input operand has more dimensions than allowed')
        for p, q in zip(b, ds):
            if not (p is q or samedim(p, q) or dimeq(p, q)):
                raise ValueError('operands could not be broadcast together with remapped shapes')
        sn, n, k = a.snap(), len(ds), len(a.dims)
        dd = a.dims
        return A(ds, lambda ix: sn(tuple(0 if isone(d) else j for d, j in zip(dd, ix[n - k:]))), a.kind, lay="any")

    def broadcast_arrays(s, *xs, **k):
        if any(hasA(x) for x in xs):
            sh = A(bshape([toA(x).dims for x in xs]), None).shape
        else:
            sh = RN.broadcast_shapes(*[mkcast(x, None).shape for x in xs])
        return [s.broadcast_to(x, sh) for x in xs]

    def atleast_1d(s, *xs):
        r = []
        for x in xs:
            a = s.asarray(x)
            r.append(a.reshape((1,)) if a.ndim == 0 else a)
        return r[0] if len(r) == 1 else tuple(r)

    def atleast_2d(s, *xs):
        r = []
        for x in xs:
            a = s.asarray(x)
            if a.ndim == 0:
                a = a.reshape((1, 1))
            elif a.ndim == 1:
                a = a[None, :]
            r.append(a)
        return r[0] if len(r) == 1 else tuple(r)

    def expand_dims(s, x, axis):
        x = s.asarray(x)
        n = x.ndim + 1
        k = [slice(None)] * x.ndim
        k.insert(axis % n, None)
        return x[tuple(k)]

    def squeeze(s, x, axis=None):
        if hasA(x):
            return toA(x).squeeze()
        return RN.squeeze(RN.asarray(x), axis=axis).view(SArr)

    def ravel(s, x, order=None):
        return s.asarray(x).ravel()

    def reshape(s, x, sh):
        return s.asarray(x).reshape(sh)

    def transpose(s, x, axes=None):
        x = s.asarray(x)
        return x.transpose(*([axes] if axes is not None else []))

    def moveaxis(s, x, a, b):
        x = s.asarray(x)
        n = x.ndim
        a = [y % n for y in (a if isinstance(a, (list, tuple)) else [a])]
        b = [y % n for y in (b if isinstance(b, (list, tuple)) else [b])]
        order = [k for k in _bi.range(n) if k not in a]
        for p, q in sorted(zip(b, a)):
            order.insert(p, q)
        return x.transpose(*order)

    def swapaxes(s, x, a, b):
        x = s.asarray(x)
        o = list(_bi.range(x.ndim))
        o[a], o[b] = o[b], o[a]
        return x.transpose(*o)

    def stack(s, xs, axis=0, **k):
        xs = list(xs)
        if hasA(xs):
            a = toA([toA(x) for x in xs])
            return a if axis == 0 else s.moveaxis(a, 0, axis)
        return RN.stack([RN.asarray(mkcast(x, None)) for x in xs], axis=axis).view(SArr)

    def concatenate(s, xs, axis=0, **k):
        xs = list(xs)
        if not hasA(xs):
            l = [RN.asarray(mkcast(x, None)) for x in xs]
            ks = [kind(x) for x in l]
            if any(q == 'f' for q in ks):
                l = [RN.asarray(cast(x, 'f')) for x in l]
            return RN.concatenate(l, axis=axis).view(SArr)
        xs = [toA(x) for x in xs]
        n = len(xs[0].dims)
        axis %= n
        d = Cat([x.dims[axis] for x in xs])
        sn = [x.snap() for x in xs]
        kd = max([x.kind for x in xs], key='bifcO'.index)
        if all(isinstance(q, _bi.int) for q in d.ds):
            where_ = [(j, q) for j, l in enumerate(d.ds) for q in _bi.range(l)]

            def f(ix):
                i = cidx(ix[axis])
                if i is None:
                    raise Unsupported('symbolic index into a concatenation')
                j, q = where_[i]
                return sn[j](tuple(ix[:axis]) + (q,) + tuple(ix[axis + 1:]))
            return A(xs[0].dims[:axis] + (len(where_),) + xs[0].dims[axis + 1:], f, kd)

        def f(ix):
            i = ix[axis]
            if not (isinstance(i, tuple) and i[0] == 'cat'):
                raise Unsupported('plain index into a concatenation')
            return sn[i[1]](tuple(ix[:axis]) + (i[2],) + tuple(ix[axis + 1:]))
        kd = max([x.kind for x in xs], key='bifcO'.index)
        return A(xs[0].dims[:axis] + (d,) + xs[0].dims[axis + 1:], f, kd)

    def hstack(s, xs, **k):
        xs = [s.atleast_1d(x) for x in xs]
        return s.concatenate(xs, axis=0 if xs[0].ndim == 1 else 1)

    def vstack(s, xs, **k):
        return s.concatenate([s.atleast_2d(x) for x in xs], axis=0)
    row_stack = vstack

    def column_stack(s, xs):
        ys = []
        for x in xs:
            x = s.asarray(x)
            ys.append(x[:, None] if x.ndim == 1 else x)
        return s.concatenate(ys, axis=1)

    def tile(s, x, reps):
        if hasA(x):
            raise Unsupported('np.tile')
        return RN.tile(RN.asarray(mkcast(x, None)), reps).view(SArr)

    def repeat(s, x, n, axis=None):
        if hasA(x):
            raise Unsupported('np.repeat')
        return RN.repeat(RN.asarray(mkcast(x, None)), n, axis=axis).view(SArr)

    def flip(s, x, axis=None):
        x = s.asarray(x)
        return x[tuple(slice(None, None, -1) if axis is None or k == axis else slice(None) for k in _bi.range(x.ndim))]

    # -- algebra
    def dot(s, a, b, out=None):
        a, b = s.asarray(a), s.asarray(b)
        if a.ndim == 0 or b.ndim == 0:
            return a * b
        if b.ndim > 2 or a.ndim > 2:
            raise Unsupported('np.dot of high rank')
        return s.matmul(a, b)

    def vdot(s, a, b):
        return s.dot(s.ravel(a), s.ravel(b))
    inner = vdot

    def matmul(s, a, b, **k):
        if not (hasA(a) or hasA(b)):
            return matmul(mkcast(a, None), mkcast(b, None))
        a, b = toA(a), toA(b)
        if a.ndim == 1 and b.ndim == 1:
            return s.sum(a * b)
        if a.ndim == 1:
            r = s.matmul(a[None, :], b)
            return r[..., 0, :]
        if b.ndim == 1:
            r = s.matmul(a, b[:, None])
            return r[..., 0]
        m, m2 = a.dims[-1], b.dims[-2]
        if not dimeq(m, m2):
            raise ValueError('matmul: mismatch in core dimension')
        m = m if isinstance(m, _bi.int) else m2
        if not isinstance(m, _bi.int):
            return sumA(a[..., :, :, None] * b[..., None, :, :], -2)
        sh = bshape([a.dims[:-2], b.dims[:-2]])
        da, db = a.dims, b.dims
        sa, sb = a.snap(), b.snap()
        n = len(sh)

        def f(ix):
            lead, i, j = ix[:n], ix[n], ix[n + 1]
            la = tuple(0 if isone(d) else q for d, q in zip(da[:-2], lead[n - len(da) + 2:]))
            lb = tuple(0 if isone(d) else q for d, q in zip(db[:-2], lead[n - len(db) + 2:]))
            r = None
            for k in _bi.range(m):
                t = mul(sa(la + (i, k)), sb(lb + (k, j)))
                r = t if r is None else add(r, t)
            return r
        kd = max([a.kind, b.kind], key='bifcO'.index)
        res = A(sh + (da[-2], db[-1]), f, kd)
        return res

    def tensordot(s, a, b, axes=2):
        a, b = s.asarray(a), s.asarray(b)
        if isinstance(axes, _bi.int):
            if axes == 0:
                return s.multiply(a.reshape(a.shape + (1,) * b.ndim), b)
            ax, bx = list(_bi.range(a.ndim - axes, a.ndim)), list(_bi.range(axes))
        else:
            ax, bx = axes
            ax = [ax] if isinstance(ax, _bi.int) else list(ax)
            bx = [bx] if isinstance(bx, _bi.int) else list(bx)
        ax, bx = [k % a.ndim for k in ax], [k % b.ndim for k in bx]
        if len(ax) != 1:
            raise Unsupported('tensordot over several axes')
        at = s.moveaxis(a, ax[0], -1)
        bt = s.moveaxis(b, bx[0], 0)
        a2, b2 = toA(at), toA(bt)
        m = a2.dims[-1]
        if not dimeq(m, b2.dims[0]):
            raise ValueError('shape-mismatch for sum')
        if not isinstance(m, _bi.int):
            raise Unsupported('tensordot over a symbolic extent')
        na = len(a2.dims) - 1
        sa, sb = a2.snap(), b2.snap()

        def f(ix):
            r = None
            for k in _bi.range(m):
                t = mul(sa(tuple(ix[:na]) + (k,)), sb((k,) + tuple(ix[na:])))
                r = t if r is None else add(r, t)
            return r
        dims = a2.dims[:-1] + b2.dims[1:]
        if not dims:
            return f(())
        r = A(dims, f, 'f' if 'f' in (a2.kind, b2.kind) else a2.kind)
        return r._concrete() if all(isinstance(d, _bi.int) for d in dims) else r

    def einsum(s, spec, *ops, **kw):
        if kw.get('out') is not None or not isinstance(spec, str):
            raise Unsupported('np.einsum with these arguments')
        spec = spec.replace(' ', '')
        if '->' not in spec:
            ls = spec.replace(',', '').replace('...', '')
            spec += '->' + ('...' if '...' in spec else '') + ''.join(c for c in sorted(set(ls)) if ls.count(c) == 1)
        ins, out = spec.split('->')
        ins = ins.split(',')
        if len(ins) != len(ops):
            raise ValueError('einsum: number of operands')
        ops = [s.asarray(x) for x in ops]
        if not _bi.all(isarr(x) for x in ops):
            raise Unsupported('np.einsum on scalars')
        ops = [toA(x) for x in ops]
        ext, pos, ells = {}, [], []
        for i, o in zip(ins, ops):
            nl = len(i.replace('...', ''))
            ne = len(o.dims) - nl
            if ne < 0 or (ne and '...' not in i):
                raise ValueError('einsum: operand has too many or too few dimensions')
            a = i.index('...') if '...' in i else nl
            ls = i.replace('...', '')
            at = list(_bi.range(a)) + list(_bi.range(a + ne, a + ne + nl - a))
            for c, k in zip(ls, at):
                d = o.dims[k]
                if c in ext and not isone(ext[c]):
                    if not isone(d) and not dimeq(ext[c], d):
                        raise ValueError('einsum: operands could not be broadcast')
                    if isinstance(d, _bi.int) and not isone(d):
                        ext[c] = d
                else:
                    ext[c] = d
            pos.append((a, ne, ls, at))
            ells.append(o.dims[a:a + ne])
        ell = bshape(ells) if '...' in out else ()
        if '...' not in out and any(ells):
            raise Unsupported('einsum summing over an ellipsis')
        olet = out.replace('...', '')
        oa = out.index('...') if '...' in out else 0
        summed = [c for c in ext if c not in olet]
        conc = [c for c in summed if isinstance(ext[c], _bi.int)]
        symb = [c for c in summed if c not in conc]
        dims = tuple(ext[c] for c in olet[:oa]) + tuple(ell) + tuple(ext[c] for c in olet[oa:]) + tuple(ext[c] for c in symb)
        sn = [o.snap() for o in ops]
        ne0 = len(ell)

        def f(ix):
            e = dict(zip(olet[:oa], ix))
            el = tuple(ix[oa:oa + ne0])
            e.update(zip(olet[oa:] + ''.join(symb), ix[oa + ne0:]))
            r = None
            for jx in itertools.product(*[_bi.range(ext[c]) for c in conc]):
                e.update(zip(conc, jx))
                t = None
                for o, g, (a, ne, ls, at) in zip(ops, sn, pos):
                    k = [None] * len(o.dims)
                    for c, q in zip(ls, at):
                        k[q] = 0 if isone(o.dims[q]) else e[c]
                    for q in _bi.range(ne):
                        k[a + q] = 0 if isone(o.dims[a + q]) else el[ne0 - ne + q]
                    x = g(tuple(k))
                    t = x if t is None else mul(t, x)
                r = t if r is None else add(r, t)
            return fl(0) if r is None else r
        if not dims:
            return f(())
        kd = max([o.kind for o in ops], key='bifcO'.index)
        r = A(dims, f, kd)
        for c in symb:
            r = sumA(r, len(r.dims) - 1) if isinstance(r, A) else r
        return r._concrete() if isinstance(r, A) and all(isinstance(d, _bi.int) for d in r.dims) else r

    def cross(s, a, b, axis=-1, **k):
        a, b = s.asarray(a), s.asarray(b)
        if axis != -1:
            raise Unsupported('np.cross axis')
        g = lambda x, i: x[..., i]
        c = []
        for i in (0, 1, 2):
            j, l = (i + 1) % 3, (i + 2) % 3
            c.append(g(a, j) * g(b, l) - g(a, l) * g(b, j))
        return s.stack(c, axis=-1)

    def outer(s, a, b):
        a, b = s.ravel(a), s.ravel(b)
        return a[:, None] * b[None, :]

    def sum(s, x, axis=None, keepdims=False, **k):
        if hasA(x):
            return sumA(toA(x), axis, keepdims)
        if not isarr(x):
            x = list(x)
        x = mkcast(x, None)
        if x.dtype == RN.bool_:
            return RN.asarray(x).sum(axis=axis)
        if x.size == 0:
            return fl(0)
        return fold(add, x, axis, keepdims)

    def mean(s, x, axis=None, keepdims=False, **k):
        x = s.asarray(x)
        t = s.sum(x, axis=axis, keepdims=keepdims)
        if isinstance(x, A):
            n = x.size if axis is None else dimnum(x.dims[axis])
        else:
            n = x.size if axis is None else x.shape[axis]
        return t / n if isarr(t) else div(t, n)

    def prod(s, x, axis=None):
        if hasA(x):
            raise Unsupported('np.prod')
        return fold(mul, mkcast(x, None), axis)

    def max(s, x, axis=None, **k):
        if hasA(x):
            return boundA('max', toA(x), axis)
        return fold(lambda p, q: f2('maximum', p, q), mkcast(x, None), axis)
    amax = max

    def min(s, x, axis=None, **k):
        if hasA(x):
            return boundA('min', toA(x), axis)
        return fold(lambda p, q: f2('minimum', p, q), mkcast(x, None), axis)
    amin = min

    def any(s, x, axis=None, **k):
        if hasA(x):
            return anyA(toA(x), axis)
        if not isarr(x):
            return cast1(lift(x), 'b')
        return _npb(RN.any(RN.asarray(cast(x, 'b')), axis=axis))

    def all(s, x, axis=None, **k):
        if hasA(x):
            return inv(anyA(elementwise('logical_not', [toA(x)]), axis))
        if not isarr(x):
            return cast1(lift(x), 'b')
        return _npb(RN.all(RN.asarray(cast(x, 'b')), axis=axis))

    def count_nonzero(s, x):
        if hasA(x):
            return dimnum(Sel(toA(x)))
        return _bi.int(RN.count_nonzero(RN.asarray(cast(x, 'b'))))

    def where(s, c, *ab):
        if not ab:
            if hasA(c):
                return selected(toA(c))
            if not isarr(c):
                c = [c]
            return RN.where(RN.asarray(cast(c, 'b')))
        a, b = ab
        f = lambda p, x, y: x if _bi.bool(cast1(p, 'b')) else y
        if any(hasA(q) for q in (c, a, b)):
            ks = [kind(toA(q)) for q in (a, b)]
            return A.lazy_op(f, [toA(q) for q in (c, a, b)], max(ks, key='bifcO'.index))
        if not any(isarr(q) for q in (c, a, b)):
            return f(lift(c), lift(a), lift(b))
        arrs = RN.broadcast_arrays(*[RN.asarray(oarr(q) if isarr(q) else oarr([q]).reshape(())) for q in (c, a, b)])
        return mkarr([f(*[z[ix] for z in arrs]) for ix in RN.ndindex(*arrs[0].shape)], arrs[0].shape)

    def nonzero(s, c):
        return s.where(c)

    def clip(s, x, lo, hi):
        return s.minimum(s.maximum(x, lo), hi)

    def select(s, conds, choices, default=0):
        if len(conds) != len(choices):
            raise ValueError('list of cases must be same length as list of conditions')
        r = default
        for c, v in reversed(list(zip(conds, choices))):
            r = s.where(c, v, r)
        return r

    # -- compositions
    def copysign(s, x, y):
        a = s.absolute(x)
        return s.where(s.signbit(y), -a, a)

    def signbit(s, x):
        return s.less(x, 0)         # exact reals have no negative zero

    def flatnonzero(s, x):
        return s.where(s.ravel(x))[0]

    def average(s, x, axis=None, weights=None):
        if weights is None:
            return s.mean(x, axis=axis)
        x, w = s.asarray(x), s.asarray(weights)
        if x.ndim != w.ndim:
            raise Unsupported('np.average')
        return s.sum(x * w, axis=axis) / s.sum(w, axis=axis)

    def copyto(s, dst, src, where=True):
        dst[...] = src if where is True else s.where(where, src, dst)

    def take(s, x, i, axis=None, **k):
        x = s.asarray(x)
        if axis is None:
            return s.ravel(x)[i]
        return x[(slice(None),) * (axis % x.ndim) + (i,)]

    def compress(s, c, x, axis=None):
        return s.take(x, s.where(c)[0], axis=axis)

    def extract(s, c, x):
        return s.ravel(x)[s.ravel(c)]

    def append(s, x, y, axis=None):
        return s.concatenate([s.ravel(x), s.ravel(y)] if axis is None else [x, y], axis=axis or 0)

    def dstack(s, xs):
        return s.concatenate([s.atleast_2d(x)[..., None] if s.asarray(x).ndim < 3 else x for x in xs], axis=2)

    def ptp(s, x, axis=None, **k):
        return s.max(x, axis=axis) - s.min(x, axis=axis)

    def trace(s, x, **k):
        x = s.asarray(x)
        r = x[0, 0]
        for i in _bi.range(1, _bi.min(x.shape)):
            r = r + x[i, i]
        return r

    def fliplr(s, x):
        return s.asarray(x)[:, ::-1]

    def flipud(s, x):
        return s.asarray(x)[::-1]

    def diff(s, x, n=1, axis=-1):
        x = s.asarray(x)
        if n != 1 or axis not in (-1, x.ndim - 1):
            raise Unsupported('np.diff')
        return x[..., 1:] - x[..., :-1]

    def polyval(s, p, x):
        r = s.zeros_like(x) if isarr(x) else 0
        for c in p:
            r = r * x + c
        return r

    def nan_to_num(s, x, copy=True, nan=0.0, **k):
        if k:
            raise Unsupported('np.nan_to_num')
        return s.where(s.isnan(x), nan, x)

    def nansum(s, x, axis=None, **k):
        return s.sum(s.where(s.isnan(x), 0, x), axis=axis)

    def var(s, x, axis=None, ddof=0, **k):
        if axis is not None or ddof:
            raise Unsupported('np.var')
        x = s.asarray(x)
        d = x - s.mean(x)
        return s.mean(d * d)

    def std(s, x, axis=None, ddof=0, **k):
        return s.sqrt(s.var(x, axis=axis, ddof=ddof))

    def isclose(s, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if equal_nan:
            raise Unsupported('np.isclose')
        return s.less_equal(s.absolute(s.subtract(a, b)), s.add(atol, s.multiply(rtol, s.absolute(b))))

    def allclose(s, a, b, **k):
        return s.all(s.isclose(a, b, **k))

    def real(s, x):
        return x.real

    def imag(s, x):
        return x.imag

    def kron(s, a, b):
        a, b = s.atleast_1d(a), s.atleast_1d(b)
        if a.ndim != 1 or b.ndim != 1:
            raise Unsupported('np.kron')
        return s.ravel(a[:, None] * b[None, :])

    def indices(s, dims, dtype=int, sparse=False):
        g = s.meshgrid(*[s.arange(d) for d in dims], indexing='ij', sparse=sparse)
        return tuple(g) if sparse else s.stack(g)

    def array_equal(s, a, b, equal_nan=False):
        if hasA(a) or hasA(b):
            a, b = toA(a), toA(b)
            if len(a.dims) != len(b.dims):
                return False
            for p, q in zip(a.dims, b.dims):
                if not dimeq(p, q):
                    return False
            return s.all(a == b)
        a, b = s.array(a), s.array(b)
        if a.shape != b.shape:
            return False
        t = [boolterm(_cmp_np('==', lift(x), lift(y))) for x, y in zip(a.ravel(), b.ravel())]
        if any(x is None for x in t):
            return _bi.bool(RN.asarray(a == b).all())
        return mkb(tm.land(*t)) if t else True

    def array2string(s, x, **k):
        return repr(mkcast(x, None))[6:-1]

    def isscalar(s, x):
        return val(x) is not None or isinstance(x, (str, Cx))

    def iterable(s, x):
        return isarr(x)

    def isin(s, *a):
        raise Unsupported('np.isin')

    def may_share_memory(s, a, b):
        raise Unsupported('np.may_share_memory')

    def __getattr__(s, n):
        if n in ('__path__', '__spec__', '__file__'):
            raise AttributeError(n)
        try:
            scalar_op(UFN.get(n, n))
        except Unsupported:
            w = WORLD[0]
            if w is not None and n in getattr(w, 'np', {}):
                return w.np[n]
            raise Unsupported('np.' + n)
        name = UFN.get(n, n)

        def uf(*a, out=None, where=True, dtype=None, **k):
            if where is not True and where is not None:
                if out is None:
                    raise Unsupported('ufunc where= without out=')
                o = out[0] if isinstance(out, tuple) else out
                g = scalar_op(name)
                f = lambda p, prev, *xs: g(*xs) if _bi.bool(cast1(p, 'b')) else prev
                ins = [NP.asarray(q) for q in (where, o) + a]
                if any(hasA(q) for q in ins):
                    o[...] = A.lazy_op(f, [toA(q) for q in ins], toA(o).kind)
                else:
                    arrs = RN.broadcast_arrays(*[RN.asarray(oarr(q) if isarr(q) else oarr([q]).reshape(())) for q in ins])
                    o[...] = mkarr([f(*[z[ix] for z in arrs]) for ix in RN.ndindex(*arrs[0].shape)], arrs[0].shape)
                return o
            r = elementwise(name, [list(x) if not isarr(x) and hasattr(x, '__iter__') else x for x in a])
            if out is not None:
                o = out[0] if isinstance(out, tuple) else out
                o[...] = r
                return o
            return r
        uf.__name__ = name
        if name in ('add', 'multiply', 'maximum', 'minimum', 'logical_and', 'logical_or'):
            uf.reduce = lambda x, axis=0, **k: NP.sum(x, axis=axis) if name == 'add' else _reduce(name, x, axis=axis)
            uf.outer = lambda a, b: elementwise(name, [NP.ravel(a)[:, None], NP.ravel(b)[None, :]])
        return uf


UFN = {'abs': 'absolute', 'conj': 'conjugate', 'bitwise_and': 'logical_and', 'bitwise_or': 'logical_or',
       'invert': 'logical_not', 'pow': 'power', 'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan', 'atan2': 'arctan2'}


def _npb(r):
    return _bi.bool(r) if isinstance(r, (RN.bool_, _bi.bool)) else r.view(SArr)


class _NdMeta(type):
    def __instancecheck__(c, x):
        return isinstance(x, (RN.ndarray, A))


class NdArray(metaclass=_NdMeta):
    pass


NPShim.ndarray = NdArray
NP = NPShim()


def looprule(ds):
    """iteration over a symbolic range: the iteration of the index the specification looks at, before it
    and after it an arbitrary other one (E().ghosts: the index tuples looked at)"""
    g = [x for x in (getattr(E(), 'ghosts', None) or []) if len(x) == len(ds)]
    if not g:
        raise Unsupported('iteration over a symbolic range')
    e = E()
    for k in _bi.range(2):
        for q in g:
            o = tuple(tm.var('other%d_%d' % (k, j), I) for j in _bi.range(len(ds)))
            e.assume(tm.land(*[tm.land(tm.le(tm.IZERO, i), tm.lt(i, tm.wrap(d, I))) for i, d in zip(o, ds)]))
            e.assume(tm.lnot(tm.land(*[tm.eq(x, tm.wrap(y, I)) for x, y in zip(o, q)])))
        e.trusted.add('loop over an index range: every iteration is covered by an arbitrary one, preceded and followed by another')
        if e.branch(tm.var('has_other%d' % k, B)):
            yield tuple(mk(i) for i in o)
        if k == 0:
            for q in g:
                yield tuple(mk(tm.wrap(i, I)) for i in q)


class MaskedArray:
    """np.ma.masked_array: data and mask"""
    __array_ufunc__ = None

    def __init__(s, data, mask=False, **k):
        if k:
            raise Unsupported('np.ma.masked_array options')
        s.data = toA(data) if hasA(data) else NP.asarray(data)
        if not isarr(mask):
            mask = NP.full(s.data.shape, mask)
        s.mask = mask
        if not isinstance(s.data, A) and s.data.shape != s.mask.shape:
            raise ValueError('mask and data of different shape')
        if isinstance(s.data, A):
            s.mask = toA(mask)
            if len(s.data.dims) != len(s.mask.dims) or not all(dimeq(p, q) for p, q in zip(s.data.dims, s.mask.dims)):
                raise ValueError('mask and data of different shape')

    ndim = property(lambda s: s.data.ndim)
    shape = property(lambda s: s.data.shape)
    size = property(lambda s: s.data.size)
    dtype = property(lambda s: s.data.dtype)

    def _map(s, f):
        return MaskedArray(f(s.data), f(s.mask))

    def reshape(s, *a):
        return s._map(lambda x: x.reshape(*a))

    def ravel(s):
        return s._map(lambda x: x.ravel())

    @property
    def T(s):
        return s._map(lambda x: x.T)

    def __getitem__(s, k):
        d, m = s.data[k], s.mask[k]
        if not isarr(d):
            raise Unsupported('an element of a masked array')
        return MaskedArray(d, m)

    def filled(s, v=None):
        if v is None:
            raise Unsupported('filled() with the default value')
        return NP.where(s.mask, v, s.data)

    def compressed(s):
        return s.data[~s.mask]

    def __getattr__(s, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('masked_array.' + n)


def _maop(fn):
    def f(s, o):
        om = o.mask if isinstance(o, MaskedArray) else None
        od = o.data if isinstance(o, MaskedArray) else o
        return MaskedArray(fn(s.data, od), s.mask if om is None else s.mask | om)
    return f


for _n in ('add', 'sub', 'mul', 'truediv', 'radd', 'rsub', 'rmul'):
    setattr(MaskedArray, '__%s__' % _n, _maop((lambda o: lambda a, b: o(b, a))(getattr(operator, _n[1:])) if _n[0] == 'r'
                                              else getattr(operator, _n)))
MaskedArray.__neg__ = lambda s: MaskedArray(-s.data, s.mask)


class Ma:
    MaskedArray = masked_array = array = MaskedArray

    def getmaskarray(s, a):
        return a.mask if isinstance(a, MaskedArray) else NP.zeros(a.shape, dtype=bool)
    getmask = getmaskarray

    def getdata(s, a):
        return a.data if isinstance(a, MaskedArray) else a

    def __getattr__(s, n):
        raise Unsupported('np.ma.' + n)


NPShim.ma = Ma()


def sumA(a, axis=None, keepdims=False):
    """sum over concrete extents is expanded; over symbolic ones it is an uninterpreted value"""
    n = len(a.dims)
    axs = list(_bi.range(n)) if axis is None else [x % n for x in (axis if isinstance(axis, tuple) else (axis,))]
    sn = a.snap()
    rest = [k for k in _bi.range(n) if k not in axs]
    if all(isinstance(a.dims[k], _bi.int) for k in axs):
        def f(ix):
            r = None
            for jx in itertools.product(*[_bi.range(a.dims[k]) for k in axs]):
                full = [None] * n
                if keepdims:
                    for k in rest:
                        full[k] = ix[k]
                else:
                    for q, k in zip(ix, rest):
                        full[k] = q
                for q, k in zip(jx, axs):
                    full[k] = q
                t = sn(tuple(full))
                r = t if r is None else add(r, t)
            return r if r is not None else fl(0)
        dims = [1 if k in axs else a.dims[k] for k in _bi.range(n)] if keepdims else [a.dims[k] for k in rest]
        kd = 'i' if a.kind == 'b' else a.kind
        return A(dims, f, kd) if dims else f(())
    w = WORLD[0]
    if w is not None and hasattr(w, 'sumA'):
        return w.sumA(a, axs, keepdims)
    raise Unsupported('sum over a symbolic extent')


def boundA(what, a, axis):
    w = WORLD[0]
    if w is not None and hasattr(w, 'boundA'):
        return w.boundA(what, a, axis)
    raise Unsupported('np.%s over a symbolic extent' % what)


def anyA(a, axis=None):
    """any() over a symbolic extent: a free truth value; when false, no element is true (facts are
    added for the indexes given by the specification)"""
    if axis is not None and not isinstance(a.dims[axis], _bi.int):
        raise Unsupported('np.any along a symbolic axis')
    if axis is not None:
        sn, n, ax = a.snap(), len(a.dims), axis % len(a.dims)
        dims = [d for k, d in enumerate(a.dims) if k != ax]

        def f(ix):
            return mkb(tm.lor(*[boolterm(cast1(sn(tuple(ix[:ax]) + (k,) + tuple(ix[ax:])), 'b'))
                                for k in _bi.range(a.dims[ax])]))
        return A(dims, f, 'b') if dims else f(())
    if all(isinstance(d, _bi.int) for d in a.dims):
        return mkb(tm.lor(*[boolterm(cast1(a.at(ix), 'b'))
                            for ix in itertools.product(*[_bi.range(d) for d in a.dims])]))
    t = tm.var('any%d' % a.uid, B)
    e = E()
    if e.branch(t):
        w = WORLD[0]
        if getattr(w, 'anyw', None) is not None and all(isinstance(d, (T, _bi.int)) for d in a.dims):
            # an index where it holds
            g = tuple(tm.var('any%d_at%d' % (a.uid, k), I) for k in _bi.range(len(a.dims)))
            for x, d in zip(g, a.dims):
                e.assume(tm.le(tm.IZERO, x))
                e.assume(tm.lt(x, tm.wrap(d, I)))
            x = boolterm(cast1(a.at(g), 'b'))
            if x is not None:
                e.assume(x)
            w.anyw.append(g)
        return True
    for g in e.ghosts:
        if len(g) == len(a.dims):
            try:
                x = boolterm(cast1(a.at(g), 'b'))
            except Unsupported:
                continue
            e.assume(tm.lnot(x))
    return False


# ------------------------------------------------------------------ loading the analysed source
class Rewrite(ast.NodeTransformer):
    def visit_Constant(s, n):
        if isinstance(n.value, _bi.float):
            return ast.copy_location(ast.Call(ast.Name('__flt__', ast.Load()), [ast.Constant(repr(n.value))], []), n)
        if isinstance(n.value, _bi.complex):
            return ast.copy_location(ast.Call(ast.Name('__cpx__', ast.Load()), [ast.Constant(repr(n.value))], []), n)
        return n

    def visit_BinOp(s, n):
        s.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name('__div__', ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_JoinedStr(s, n):
        # literals inside format specifications stay
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v.value = s.visit(v.value)
        return n

    def visit_AugAssign(s, n):
        s.generic_visit(n)
        if isinstance(n.op, ast.Div) and isinstance(n.target, ast.Name):
            # in-place for arrays, exact for ints
            ld = ast.Name(n.target.id, ast.Load())
            return ast.copy_location(ast.Assign([n.target], ast.Call(ast.Name('__idiv__', ast.Load()),
                                                                    [ld, n.value], [])), n)
        return n


def idiv(a, b):
    if isinstance(a, (_bi.int, _bi.float, Num)):
        return pydiv(a, b)
    return operator.itruediv(a, b)


_code = {}


def compile_mod(path):
    src = open(path).read()
    k = (path, src)
    if k not in _code:
        t = ast.fix_missing_locations(Rewrite().visit(ast.parse(src, path)))
        _code[k] = compile(t, path, 'exec')
    return _code[k]


class StubMod(types.ModuleType):
    def __getattr__(s, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('%s.%s' % (s.__name__, n))


class Pkg:
    """one instance of the package (fresh global state)"""

    def __init__(s, repo, stubs=None, allow=()):
        s.root = os.path.join(repo, 'batoid')
        s.mods = {}
        s.stubs = dict(stubs or {})
        s.stubs.setdefault('numpy', NP)
        b = {k: getattr(_bi, k) for k in dir(_bi)}
        b.update(float=Float, int=Int, len=slen, range=srange, max=smax, min=smin, hash=shash, abs=sabs, sum=ssum,
                 __import__=s.imp, __flt__=lambda x: NumR(val(_bi.float(x))), __div__=pydiv, __idiv__=idiv,
                 __cpx__=lambda x: cx(_bi.complex(x)), tuple=STuple, list=SList_, isinstance=sisinstance, print=lambda *a, **k: None,
                 round=lambda x, n=None: x if isinstance(x, _bi.int) else (_ for _ in ()).throw(Unsupported('round')),
                 sorted=_bi.sorted, enumerate=senumerate, zip=szip, bool=SBool, type=SType, pow=power_, divmod=lambda a, b_: (a // b_, a % b_))
        s.builtins = b

    def imp(s, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = globals['__package__']
            full = pk + ('.' + name if name else '')
        else:
            full = name
        if full == 'batoid' or full.startswith('batoid.'):
            m = s.load(full)
            for f in fromlist or ():
                if not hasattr_(m, f) and full == 'batoid':
                    try:
                        s.load('batoid.' + f)
                    except FileNotFoundError:
                        pass
            if fromlist:
                return m
            return s.load('batoid')
        top = full.split('.')[0]
        if full in s.stubs:
            return s.stubs[full]
        if top in s.stubs:
            r = s.stubs[top]
            if fromlist:
                for p in full.split('.')[1:]:
                    r = getattr(r, p)
            return r
        if top in ('galsim', 'yaml', 'matplotlib', 'mpl_toolkits', 'ipyvolume', 'scipy', 'pandas', 'tqdm'):
            return StubMod(top) if not fromlist else StubAttr(full)
        return _bi.__import__(name, None, None, fromlist, 0)

    def load(s, full):
        if full in s.mods:
            return s.mods[full]
        if full == 'batoid._batoid':
            m = s.stubs.get('_batoid')
            if m is None:
                m = StubMod('_batoid')
            s.mods[full] = m
            s.pkgmod()._batoid = m
            return m
        if full == 'batoid':
            path = os.path.join(s.root, '__init__.py')
        else:
            s.pkgmod()
            if full in s.mods:
                return s.mods[full]
            path = os.path.join(s.root, *full.split('.')[1:]) + '.py'
        if not os.path.exists(path):
            raise FileNotFoundError(path)
        m = types.ModuleType(full)
        m.__dict__['__builtins__'] = s.builtins
        m.__file__ = path
        m.__package__ = 'batoid'
        if full == 'batoid':
            m.__path__ = [s.root]
        s.mods[full] = m
        exec(compile_mod(path), m.__dict__)
        if full != 'batoid':
            setattr(s.pkgmod(), full.split('.')[1], m)
        return m

    def pkgmod(s):
        if 'batoid' not in s.mods:
            s.load('batoid')
        return s.mods['batoid']


class StubAttr:
    def __init__(s, n):
        s._n = n

    def __getattr__(s, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return _Missing(s._n + '.' + n)


class _Missing:
    def __init__(s, n):
        s.n = n

    def __call__(s, *a, **k):
        raise Unsupported('call of ' + s.n)

    def __getattr__(s, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return _Missing(s.n + '.' + n)


def hasattr_(m, f):
    return f in m.__dict__


def sabs(x):
    if isinstance(x, (Num, Cx)):
        return absv(x)
    return _bi.abs(x)


def power_(a, b, *m):
    return _bi.pow(a, b, *m)


def ssum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


class _TupleMeta(type):
    def __instancecheck__(c, x):
        return isinstance(x, tuple)

    def __call__(c, x=()):
        return _bi.tuple(x)

    def __subclasscheck__(c, x):
        return issubclass(x, _bi.tuple)

    def __eq__(c, o):
        return o is c or o is _bi.tuple

    def __hash__(c):
        return _bi.hash(_bi.tuple)


STuple = _bi.tuple
SList_ = _bi.list


class _BoolMeta(type):
    def __instancecheck__(c, x):
        return isinstance(x, (_bi.bool, NumB))

    def __call__(c, x=False):
        return x if isinstance(x, (_bi.bool, NumB)) else _bi.bool(x)

    def __eq__(c, o):
        return o is c or o is _bi.bool or o is RN.bool_

    def __hash__(c):
        return _bi.hash(_bi.bool)


class SBool(metaclass=_BoolMeta):
    pass


_bdt = dtkind


def dtkind(dt):
    return 'b' if dt is SBool else _bdt(dt)


class _TypeMeta(type(type)):
    def __instancecheck__(c, x):
        return isinstance(x, type)

    def __call__(c, *a):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, NumR):
                return Float
            if isinstance(x, NumI):
                return Int
            if isinstance(x, NumB):
                return SBool
            return _bi.type(x)
        return _bi.type(*a)


SType = _TypeMeta('type', (), {})


def sisinstance(x, c):
    if isinstance(c, _bi.tuple):
        return any(sisinstance(x, y) for y in c)
    if c is Float:
        return isinstance(x, (_bi.float, NumR, RN.floating))
    if c is Int:
        return isinstance(x, (_bi.int, NumI))
    if c is numbers.Integral or c is numbers.Real or c is numbers.Number or c is numbers.Complex:
        if isinstance(x, (NumB,)):
            return True
        if isinstance(x, NumI):
            return True
        if isinstance(x, NumR):
            return c is not numbers.Integral
        return isinstance(x, c)
    if c is SBool:
        return isinstance(x, (_bi.bool, NumB))
    return isinstance(x, c)


# ------------------------------------------------------------------ what specifications use
def start(u):
    e = u.e
    CUR[0] = e
    if not hasattr(e, 'ghosts'):
        e.ghosts = []
    e.defs_int = {}
    _uid[0] = 0
    return e


def real(name):
    return NumR(tm.var(name))


def intv(name):
    return NumI(tm.var(name, I))


def arr(name, *dims, kind='f', lay='C'):
    """array of arbitrary contents; extents: ints or integer terms"""
    ds = tuple(todim(d) for d in dims)
    if all(isinstance(d, _bi.int) for d in ds):
        return mkarr([NumR(tm.var(name + '_' + '_'.join(map(str, ix)))) for ix in itertools.product(*map(_bi.range, ds))], ds)
    so = {'f': R, 'i': I, 'b': B}[kind]
    return A(ds, lambda ix: mk(tm.app(name, tuple(tm.wrap(i, I) for i in ix), so)), kind, lay=lay)


def term(x):
    """finite number -> real term"""
    v = rv(x)
    if not isinstance(v, T):
        raise NotFinite(v)
    return v


class NotFinite(Exception):
    pass


# ------------------------------------------------------------------ sequences of arbitrary length
class Seq:
    """a sequence of n (a term) items, item(k) for a term k; iterating over it is an induction over the
    iterations with the invariant `inv` (check(k): obligation; havoc(k): an arbitrary state where it holds)"""

    def __init__(s, n, item, inv=None):
        s.n, s.item, s.inv = n, item, inv

    def __len__(s):
        return mk(s.n)

    def __bool__(s):
        return E().branch(tm.lt(tm.IZERO, s.n))

    def __reversed__(s):
        return s[::-1]

    def __getitem__(s, k):
        if isinstance(k, slice):
            if (k.start, k.stop) == (None, None) and k.step in (None, 1, -1):
                if k.step == -1:
                    return Seq(s.n, lambda i: s.item(tm.sub(tm.sub(s.n, tm.IONE), i)), s.inv)
                return Seq(s.n, s.item, s.inv)
            raise Unsupported('slice of a sequence of arbitrary length')
        i = tm.wrap(val(k), I)
        if E().branch(tm.lt(i, tm.IZERO)):
            i = tm.add(i, s.n)
        if not E().branch(tm.land(tm.le(tm.IZERO, i), tm.lt(i, s.n))):
            raise IndexError('index out of range')
        return s.item(i)

    def __iter__(s):
        if s.inv is None:
            raise Unsupported('iteration over a sequence of arbitrary length')
        fr = sys._getframe(1)
        e = E()
        s.inv.check(tm.IZERO, 'before the first iteration')
        before = dict(fr.f_locals)
        deep = {k: (type(v)(v)) for k, v in before.items() if type(v) in (_bi.list, _bi.dict, _bi.set)}
        if not e.branch(tm.var('loop_goes_on', B)):
            s.inv.havoc(s.n)
            return
        k = tm.var('loop_k', I)
        e.assume(tm.le(tm.IZERO, k))
        e.assume(tm.lt(k, s.n))
        s.inv.havoc(k)
        it = s.item(k)
        yield it
        s.inv.check(tm.add(k, tm.IONE), 'after iteration k')
        after = dict(fr.f_locals)
        for nm, v in before.items():
            w = after.get(nm)
            if w is it or (isinstance(it, tuple) and _bi.any(w is x for x in it)):
                continue
            if w is not v or (nm in deep and w != deep[nm]):
                raise Unsupported('a loop that carries the local variable %r' % nm)
        raise PathEnd()
