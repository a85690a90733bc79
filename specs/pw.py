"""Contracts of the C++ module `_batoid` as seen from Python, and helpers for the Python units."""
import types, os
import terms as tm
from terms import T, R, I, B, ZERO, ONE
import fp, pysym
from pysym import NumR, NumI, NumB, A, SArr, NP, Num, val, rv, mk, term, real, intv, arr, PtrTo, E, mul, add, sub, div, neg
from engine import Unsupported, PathEnd
from unit import Unit

REPO = os.environ.get('VERIF_REPO', '/repo')
RVF = ['x', 'y', 'z', 'vx', 'vy', 'vz', 't', 'wavelength', 'flux', 'vignetted', 'failed']


class CObj:
    """an object of the C++ part, known by its constructor arguments"""

    def __init__(s, w, cls, args):
        s.w, s.cls, s.args = w, cls, args

    def __getattr__(s, n):
        if n.startswith('__'):
            raise AttributeError(n)
        w, me = s.w, s

        def call(*a):
            return w.method(me, n, a)
        return call


class Module:
    """_batoid"""

    def __init__(s, w):
        s.w = w

    def __getattr__(s, n):
        if n.startswith('__'):
            raise AttributeError(n)
        w = s.w
        if n.startswith('CPP'):
            def mk_(*a):
                return w.construct(n, a)
            return mk_

        def call(*a):
            return w.function(n, a)
        return call


class World:
    def __init__(s, u):
        s.u = u
        s.calls = []
        s.np = {}
        s.fft = {}
        s.n = 0

    def construct(s, cls, a):
        s.calls.append(('new', cls, a))
        m = getattr(s, 'new_' + cls, None)
        if m:
            return m(*a)
        return CObj(s, cls, a)

    def function(s, n, a):
        s.calls.append(('fn', n, a))
        m = getattr(s, 'fn_' + n, None)
        if m is None:
            raise Unsupported('_batoid.' + n)
        return m(*a)

    def method(s, o, n, a):
        s.calls.append(('m', o.cls, n, a))
        m = getattr(s, 'm_%s_%s' % (o.cls, n), None) or getattr(s, 'm_' + n, None)
        if m is None:
            raise Unsupported('%s.%s' % (o.cls, n))
        return m(o, *a)


def begin(u, world=World, stubs=None):
    """-> (world, batoid package)"""
    pysym.start(u)
    w = world(u)
    pysym.WORLD[0] = w
    st = {'_batoid': Module(w)}
    st.update(stubs or {})
    p = pysym.Pkg(REPO, st)
    w.pkg = p
    return w, p.load('batoid')


def vec(name):
    return NP.array([real(name + c) for c in 'xyz'])


def mat(name):
    return NP.array([[real('%s%d%d' % (name, i, j)) for j in range(3)] for i in range(3)])


def orth(u, m):
    """assume m m^T = m^T m = 1"""
    for i in range(3):
        for j in range(i, 3):
            for t in (0, 1):
                s = ZERO
                for k in range(3):
                    a = m[i, k] if t else m[k, i]
                    b = m[j, k] if t else m[k, j]
                    s = tm.add(s, tm.mul(term(a), term(b)))
                u.assume(tm.eq(s, ONE if i == j else ZERO))


def rot(u, m):
    """assume a proper rotation: det = 1 as well"""
    orth(u, m)
    u.assume(tm.eq(term(NP.linalg.det(m)), ONE))


def peq(u, name, a, b):
    """two numbers / arrays of concrete shape are equal (element by element)"""
    if isinstance(a, (SArr, list, tuple)) or isinstance(b, (SArr, list, tuple)):
        a, b = pysym.oarr(a), pysym.oarr(b)
        if a.shape != b.shape:
            u.post(name + ': shape', tm.FALSE)
            return
        import numpy as np
        for ix in np.ndindex(*a.shape):
            peq(u, name + (str(list(ix)) if ix else ''), a[ix], b[ix])
        return
    if isinstance(a, (bool, NumB)) or isinstance(b, (bool, NumB)):
        p, q = pysym.boolterm(a), pysym.boolterm(b)
        u.post(name, tm.FALSE if p is None or q is None else tm.iff(p, q))
        return
    x, y = val(a), val(b)
    if x is None or y is None:
        u.post(name + ': a number', tm.FALSE)
        return
    if isinstance(x, T) and isinstance(y, T):
        u.post(name, tm.eq(x, y))
    else:
        u.post(name, tm.const(x is y and x is not fp.POISON))


def same_object_values(u, name, a, b):
    peq(u, name, a, b)


def isfail(f, exc):
    """f() raises exc?"""
    try:
        f()
    except (Unsupported, PathEnd):
        raise
    except exc:
        return True
    return False


def posts_true(u, name, c):
    t = pysym.boolterm(c) if not isinstance(c, T) else c
    u.post(name, tm.FALSE if t is None else t)


def punit(name, funcs, fn, **k):
    return Unit(name, funcs, fn, **k)
