"""Doubles as idealised reals plus NaN and infinities.  Finite values are real terms; the special
values are explicit objects; a zero divisor or negative radicand forks the path."""
import terms as tm
from terms import T


class Spec:
    def __init__(s, n):
        s.n = n

    def __repr__(s):
        return s.n


NAN, PINF, NINF = Spec('nan'), Spec('+inf'), Spec('-inf')
POISON = Spec('unset')
# sets of special values: either infinity; any non-finite value; +inf or nan
UINF, XNF, PNF, ANY = Spec('+-inf'), Spec('nonfinite'), Spec('+inf|nan'), Spec('any')


class Poisoned(Exception):
    pass


def fin(a):
    return isinstance(a, T)


def _ck(*a):
    for x in a:
        if x is POISON:
            raise Poisoned()


def _sgn(e, a):
    """sign of a nonzero finite/inf value as +1/-1 (0 when zero); None when unknown"""
    if a is PINF:
        return 1
    if a is NINF:
        return -1
    if not fin(a):
        return None
    if e.branch(tm.lt(tm.ZERO, a)):
        return 1
    if e.branch(tm.eq(a, tm.ZERO)):
        return 0
    return -1


def _ub():
    return tm.fresh('cmp', tm.B)


def neg(e, a):
    _ck(a)
    if fin(a):
        return tm.neg(a)
    return {NAN: NAN, PINF: NINF, NINF: PINF, UINF: UINF, XNF: XNF, PNF: XNF, ANY: ANY}[a]


def within(a, b):
    """every value described by a is described by b"""
    if a is b or b is ANY:
        return True
    if a is POISON or fin(a) or fin(b):
        return False
    return {XNF: (NAN, PINF, NINF, UINF, PNF), UINF: (PINF, NINF), PNF: (PINF, NAN)}.get(b, ()).__contains__(a)


def add(e, a, b):
    _ck(a, b)
    if fin(a) and fin(b):
        return tm.add(a, b)
    if a is NAN or b is NAN:
        return NAN
    if a is ANY or b is ANY:
        o = b if a is ANY else a
        return ANY if fin(o) or o is ANY else XNF
    if fin(a):
        return b
    if fin(b):
        return a
    if a in (PINF, NINF) and b in (PINF, NINF):
        return a if a is b else NAN
    return XNF


def sub(e, a, b):
    return add(e, a, neg(e, b))


def mul(e, a, b):
    _ck(a, b)
    if fin(a) and fin(b):
        return tm.mul(a, b)
    if a is NAN or b is NAN:
        return NAN
    if fin(b):
        a, b = b, a
    if b is ANY or a is ANY:
        o = b if a is ANY else a
        return ANY if fin(o) or o is ANY else XNF
    if b in (XNF, PNF) or a in (XNF, PNF):
        return XNF
    if b is UINF or a is UINF:
        return XNF if fin(a) else UINF
    s = _sgn(e, a) * _sgn(e, b)
    return NAN if s == 0 else (PINF if s > 0 else NINF)


def div(e, a, b):
    _ck(a, b)
    if fin(a) and fin(b):
        if tm.isc(b):
            z = tm.cval(b) == 0
        else:
            z = e.branch(tm.eq(b, tm.ZERO))
        if not z:
            return tm.div(a, b)
        return XNF         # which non-finite value is not tracked
    if a is NAN or b is NAN:
        return NAN
    if a is ANY or b is ANY:
        return XNF if b is ANY and not fin(a) and a is not ANY else ANY
    if fin(a):
        if b in (XNF, PNF):
            return tm.ZERO if e.choose(2) == 0 else NAN
        return tm.ZERO
    if not fin(b):
        return XNF if (a in (XNF, PNF) or b in (XNF, PNF)) else NAN
    if a in (UINF, XNF):
        return XNF
    if a is PNF:
        return XNF
    s = _sgn(e, b)
    if s == 0:
        return XNF
    return a if s > 0 else neg(e, a)


def sqrt(e, a):
    _ck(a)
    if fin(a):
        if tm.isc(a):
            if tm.cval(a) < 0:
                return NAN
        elif e.branch(tm.lt(a, tm.ZERO)):
            return NAN
        for h in getattr(e, 'sqrt_hints', ()):
            r = h(a)
            if r is not None:
                return r
        return tm.sqrt(a)
    if a is PINF:
        return PINF
    if a is ANY:
        return ANY
    return PNF if a in (UINF, XNF, PNF) else NAN


def fn1(e, f, a):
    _ck(a)
    if a in (XNF, PNF, ANY, UINF, PINF, NINF):
        return ANY
    return tm.fn1(f, a) if fin(a) else NAN


def fabs(e, a):
    if fin(a):
        return a if e.branch(tm.le(tm.ZERO, a)) else tm.neg(a)
    return {NAN: NAN, PINF: PINF, NINF: PINF, UINF: PINF, XNF: PNF, PNF: PNF, ANY: ANY}[a]


def isnan(e, a):
    _ck(a)
    if a in (XNF, PNF, ANY):
        return _ub()
    return tm.const(a is NAN)


def isinf(e, a):
    _ck(a)
    if a in (XNF, PNF, ANY):
        return _ub()
    return tm.const(a in (PINF, NINF, UINF))


MULTI = (UINF, XNF, PNF, ANY)


def lt(e, a, b):
    _ck(a, b)
    if fin(a) and fin(b):
        return tm.lt(a, b)
    if a is NAN or b is NAN or (a is b and a not in MULTI) or a is PINF or b is NINF:
        return tm.FALSE
    if a is PNF and (fin(b) or b is PNF):
        return tm.FALSE
    if a in MULTI or b in MULTI:
        return _ub()
    return tm.const(a is NINF or b is PINF)


def le(e, a, b):
    _ck(a, b)
    if fin(a) and fin(b):
        return tm.le(a, b)
    if a is NAN or b is NAN:
        return tm.FALSE
    if a is PNF and (fin(b) or b is NINF):
        return tm.FALSE
    if a in MULTI or b in MULTI:
        return _ub()
    return tm.const(a is b or a is NINF or b is PINF)


def eq(e, a, b):
    _ck(a, b)
    if fin(a) and fin(b):
        return tm.eq(a, b)
    if a is NAN or b is NAN:
        return tm.FALSE
    if a is ANY or b is ANY:
        return _ub()
    if fin(a) or fin(b):
        return tm.FALSE
    if a in MULTI or b in MULTI:
        return _ub()
    return tm.const(a is b)
