"""P02 (CoordSys) and the Python part of P01 (CoordTransform)."""
from pw import *

CS = 'batoid/coordSys.py::'
CT = 'batoid/coordTransform.py::'


def _sys(b, u, tag, ortho=True):
    o, r = vec(tag + 'o'), mat(tag + 'r')
    if ortho:
        orth(u, r)
    return b.CoordSys(o, r), o, r


def mulv(m, v):
    return [mul3(m[i], v) for i in range(3)]


def mulT(m, v):
    return [mul3([m[k][i] for k in range(3)], v) for i in range(3)]


def mul3(a, b):
    r = mul(a[0], b[0])
    for k in (1, 2):
        r = add(r, mul(a[k], b[k]))
    return r


def addv(a, b):
    return [add(x, y) for x, y in zip(a, b)]


def subv(a, b):
    return [sub(x, y) for x, y in zip(a, b)]


def mm(a, b):
    return [[mul3([a[i][k] for k in range(3)], [b[k][j] for k in range(3)]) for j in range(3)] for i in range(3)]


def untouched(u, what, c, o, r, o0, r0):
    peq(u, what + ' leaves the original origin alone', c.origin, o0)
    peq(u, what + ' leaves the original rotation alone', c.rot, r0)


def snapshot(o, r):
    return list(o), [list(x) for x in r]


def lane(u, b, f, tag):
    """apply f to one vector, to an (n,3) array (arbitrary n, arbitrary row) and to an (m,n,3)-free list"""
    v = vec(tag)
    one = f(v)
    n = intv('n_' + tag)
    u.assume(tm.le(tm.IONE, n.v))
    k = intv('k_' + tag)
    u.assume(tm.le(tm.IZERO, k.v), tm.lt(k.v, n.v))
    a = arr('arr_' + tag, n, 3)
    many = f(a)
    row_in = [a.get(k.v, i) for i in range(3)]
    if not isinstance(many, A) or len(many.dims) != 2:
        u.post('the result has the shape of the input', tm.FALSE)
        return v, one, row_in, [one[0]] * 3
    row = [many.get(k.v, i) for i in range(3)]
    posts_true(u, 'the result has as many rows as the input', pysym.cmp('==', pysym.dimnum(many.dims[0]), n))
    return v, one, row_in, row


def u_init(u):
    w, b = begin(u)
    o, r = vec('o'), mat('r')
    c = b.CoordSys(o, r)
    o0, r0 = snapshot(o, r)
    peq(u, 'origin is the one given', c.origin, o0)
    peq(u, 'rot is the one given', c.rot, r0)
    o[0] = real('q')
    r[0, 1] = real('q')
    peq(u, 'origin is a copy', c.origin, o0)
    peq(u, 'rot is a copy', c.rot, r0)
    d = b.CoordSys()
    peq(u, 'default origin', d.origin, [0.0, 0.0, 0.0])
    peq(u, 'default rotation', d.rot, [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]])
    peq(u, 'xhat is the first column', c.xhat, [r0[i][0] for i in range(3)])
    peq(u, 'yhat is the second column', c.yhat, [r0[i][1] for i in range(3)])
    peq(u, 'zhat is the third column', c.zhat, [r0[i][2] for i in range(3)])
    e = c.copy()
    peq(u, 'copy: origin', e.origin, o0)
    peq(u, 'copy: rotation', e.rot, r0)
    u.post('copy is another object', tm.const(e is not c))


def u_shift(u):
    w, b = begin(u)
    c, o, r = _sys(b, u, 's', ortho=False)
    o0, r0 = snapshot(o, r)
    d = vec('d')
    d0 = list(d)
    g = c.shiftGlobal(d)
    peq(u, 'shiftGlobal adds the vector to the origin', g.origin, addv(o0, d0))
    peq(u, 'shiftGlobal keeps the rotation', g.rot, r0)
    l = c.shiftLocal(d)
    peq(u, 'shiftLocal moves along the own axes', l.origin, addv(o0, mulv(r0, d0)))
    peq(u, 'shiftLocal keeps the rotation', l.rot, r0)
    l2 = c.shiftLocal(list(d0))
    peq(u, 'shiftLocal accepts a list', l2.origin, addv(o0, mulv(r0, d0)))
    g2 = c.shiftGlobal(tuple(d0))
    peq(u, 'shiftGlobal accepts a tuple', g2.origin, addv(o0, d0))
    untouched(u, 'shifting', c, o, r, o0, r0)
    peq(u, 'shifting leaves the vector alone', d, d0)


def u_tolocal(u):
    w, b = begin(u)
    c, o, r = _sys(b, u, 's', ortho=False)
    o0, r0 = snapshot(o, r)
    for nm, f, spec in (('toGlobal', c.toGlobal, lambda p: addv(mulv(r0, p), o0)),
                        ('toLocal', c.toLocal, lambda p: mulT(r0, subv(p, o0)))):
        v, one, row_in, row = lane(u, b, f, 'v' + nm)
        v0 = [real('v' + nm + q) for q in 'xyz']
        peq(u, nm + ' of one vector', one, spec(v0))
        peq(u, nm + ' of row k of n rows', row, spec(row_in))
        peq(u, nm + ' leaves its argument alone', v, v0)
        peq(u, nm + ' accepts a tuple', f(tuple(v0)), spec(v0))
    untouched(u, 'conversion', c, o, r, o0, r0)


def u_inverse(u):
    w, b = begin(u)
    c, o, r = _sys(b, u, 's')
    v = [real('v' + q) for q in 'xyz']
    peq(u, 'toGlobal undoes toLocal', c.toGlobal(c.toLocal(v)), v)
    peq(u, 'toLocal undoes toGlobal', c.toLocal(c.toGlobal(v)), v)


def u_rotate(which):
    def go(u):
        w, b = begin(u)
        c, o, r = _sys(b, u, 's', ortho=(which == 'local'))
        o0, r0 = snapshot(o, r)
        q = mat('q')
        q0 = [list(x) for x in q]
        f = getattr(c, 'rotate' + which.capitalize())
        cen = [real('c' + k) for k in 'xyz']
        C2, o2, r2 = _sys(b, u, 't', ortho=False)
        o20, r20 = snapshot(o2, r2)
        ident = [[1 if i == j else 0 for j in range(3)] for i in range(3)]
        for nm, kw, gc in (
                ('default centre', {}, [0, 0, 0] if which == 'global' else o0),
                ('centre given', dict(rotCenter=cen), cen if which == 'global' else addv(mulv(r0, cen), o0)),
                ('centre in another system', dict(rotCenter=tuple(cen), coordSys=C2), addv(mulv(r20, cen), o20))):
            d = f(q, **kw)
            if which == 'global':
                m = q0
                newrot = mm(q0, r0)
            else:
                # the rotation about the own axes, as a rotation of space: rot q rot^T
                m = mm(mm(r0, q0), [[r0[j][i] for j in range(3)] for i in range(3)])
                newrot = mm(r0, q0)
            peq(u, '%s (%s): new axes' % (f.__name__, nm), d.rot, newrot)
            peq(u, '%s (%s): new origin' % (f.__name__, nm), d.origin, addv(mulv(m, subv(o0, gc)), gc))
        untouched(u, 'rotation', c, o, r, o0, r0)
        peq(u, 'rotation leaves the matrix alone', q, q0)
        peq(u, 'rotation leaves the other system alone', C2.origin, o20)
        peq(u, 'rotation leaves the other system alone', C2.rot, r20)
    return go


def u_rotaxis(u):
    w, b = begin(u)
    a, c = real('a'), real('c')
    ca, sa = NumR(tm.fn1('cos', tm.var('a'))), NumR(tm.fn1('sin', tm.var('a')))
    z, o = 0, 1
    peq(u, 'RotX', b.RotX(a), [[o, z, z], [z, ca, neg(sa)], [z, sa, ca]])
    peq(u, 'RotY', b.RotY(a), [[ca, z, sa], [z, o, z], [neg(sa), z, ca]])
    peq(u, 'RotZ', b.RotZ(a), [[ca, neg(sa), z], [sa, ca, z], [z, z, o]])
    for nm in ('RotX', 'RotY', 'RotZ'):
        m = getattr(b, nm)(a)
        peq(u, nm + ' is orthogonal', m @ m.T, NP.eye(3))
        peq(u, nm + ' has determinant 1', NP.linalg.det(m), 1)
        peq(u, nm + ' composes', m @ getattr(b, nm)(c), getattr(b, nm)(a + c))


def u_eq(u):
    w, b = begin(u)
    c, o, r = _sys(b, u, 's', ortho=False)
    d, o2, r2 = _sys(b, u, 't', ortho=False)
    t = [tm.eq(term(x), term(y)) for x, y in zip(list(o) + list(r.ravel()), list(o2) + list(r2.ravel()))]
    e = c == d
    posts_true(u, 'equal exactly when origin and rotation are', tm.iff(pysym.boolterm(e), tm.land(*t)))
    n = c != d
    posts_true(u, '!= is the opposite of ==', tm.iff(pysym.boolterm(n), tm.lnot(tm.land(*t))))


def coordsys():
    n = CS + 'CoordSys.'
    return [punit('CoordSys construction and axes', [n + '__init__', n + 'xhat', n + 'yhat', n + 'zhat', n + 'copy'], u_init),
            punit('CoordSys.shiftGlobal / shiftLocal', [n + 'shiftGlobal', n + 'shiftLocal'], u_shift),
            punit('CoordSys.toGlobal / toLocal', [n + 'toGlobal', n + 'toLocal'], u_tolocal),
            punit('CoordSys.toGlobal and toLocal are inverse', [n + 'toGlobal', n + 'toLocal'], u_inverse),
            punit('CoordSys.rotateGlobal', [n + 'rotateGlobal'], u_rotate('global')),
            punit('CoordSys.rotateLocal', [n + 'rotateLocal'], u_rotate('local')),
            punit('RotX, RotY, RotZ', [CS + 'RotX', CS + 'RotY', CS + 'RotZ'], u_rotaxis),
            punit('rotated systems are orthonormal', [n + 'rotateGlobal', n + 'rotateLocal'], u_ortho),
            punit('CoordSys equality', [n + '__eq__', n + '__ne__'], u_eq)]


# ------------------------------------------------------------------ CoordTransform
def rowmajor(l):
    l = list(l)
    return [l[3 * i:3 * i + 3] for i in range(3)]


class TWorld(World):
    """contracts of applyForward/ReverseTransform[Arrays] (units of P01 about src/batoid.cpp):
    forward  p -> M^T (p - dr), v -> M^T v ; reverse p -> M p + dr, v -> M v"""

    def xf(s, fwd, dr, m, p, isv=False):
        if fwd:
            q = list(p) if isv else subv(p, list(dr))
            return mulT(m, q)
        q = mulv(m, p)
        return q if isv else addv(q, list(dr))

    def _lanes(s, fwd, dr, m, arrs, isv=False):
        snaps = [a.snap() if isinstance(a, A) else pysym.toA(a).snap() for a in arrs]
        m = rowmajor(m)
        dr = list(dr)
        for j, a in enumerate(arrs):
            def f(ix, j=j):
                p = [sn(ix) for sn in snaps]
                return s.xf(fwd, dr, m, p, isv)[j]
            if isinstance(a, A):
                a._store(f, None)
            else:
                new = [f((k,)) for k in range(len(a))]
                for k, v in enumerate(new):
                    a[k] = v

    def _arrays(s, fwd, dr, m, x, y, z, n, nt):
        arrs = [p.a for p in (x, y, z)]
        for a in arrs:
            posts_true(s.u, 'as many elements are transformed as the arrays have', pysym.cmp(
                '==', n, a.slen() if isinstance(a, A) else len(a)))
        s._lanes(fwd, dr, m, arrs)

    def fn_applyForwardTransformArrays(s, *a):
        s._arrays(True, *a)

    def fn_applyReverseTransformArrays(s, *a):
        s._arrays(False, *a)

    def _rays(s, fwd, dr, m, rv_, nt):
        s._lanes(fwd, dr, m, [rv_.f[k] for k in ('x', 'y', 'z')])
        s._lanes(fwd, dr, m, [rv_.f[k] for k in ('vx', 'vy', 'vz')], True)

    def fn_applyForwardTransform(s, *a):
        s._rays(True, *a)

    def fn_applyReverseTransform(s, *a):
        s._rays(False, *a)

    def new_CPPRayVector(s, *a):
        return CRays(s, a)


class CRays:
    """the C++ ray vector: the memory of the eleven arrays"""

    def __init__(s, w, a):
        s.w = w
        s.f = {k: p.a for k, p in zip(RVF, a)}
        s.n = a[11]

    def __getattr__(s, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n in RVF:
            me = s

            class DV:
                size = me.n

                def syncToHost(q):
                    pass

                def syncToDevice(q):
                    pass
            return DV()

        def call(*a):
            m = getattr(s.w, 'rays_' + n, None)
            if m is None:
                raise Unsupported('CPPRayVector.' + n)
            return m(s, *a)
        return call


def rays(b, tag, n, cs):
    """an arbitrary RayVector of n rays"""
    r = b.RayVector.__new__(b.RayVector)
    for k in RVF:
        setattr(r, '_' + k, arr(tag + k, n, kind='b' if k in ('vignetted', 'failed') else 'f'))
    r.coordSys = cs
    return r


def old(tag, k, i):
    so = B if k in ('vignetted', 'failed') else R
    return mk(tm.app(tag + k, (i,), so))


def fwd_spec(o1, r1, o2, r2, p, isv=False):
    """the same point (vector), seen from the second system"""
    g = mulv(r1, p)
    if not isv:
        g = subv(addv(g, o1), o2)
    return mulT(r2, g)


def u_ct_init(u):
    w, b = begin(u, TWorld)
    s1, o1, r1 = _sys(b, u, 'a')
    s2, o2, r2 = _sys(b, u, 'b')
    (o1, r1), (o2, r2) = snapshot(o1, r1), snapshot(o2, r2)
    ct = b.CoordTransform(s1, s2)
    peq(u, 'dr: the second origin seen from the first system', ct.dr, mulT(r1, subv(o2, o1)))
    peq(u, 'drot: the second axes seen from the first system', ct.drot,
        mm([[r1[j][i] for j in range(3)] for i in range(3)], r2))
    u.post('fromSys, toSys are kept', tm.const(ct.fromSys is s1 and ct.toSys is s2))
    peq(u, 'the systems are not changed', s1.origin, o1)
    peq(u, 'the systems are not changed', s2.origin, o2)
    peq(u, 'the systems are not changed', s1.rot, r1)
    peq(u, 'the systems are not changed', s2.rot, r2)


def u_ct_arrays(which):
    def go(u):
        w, b = begin(u, TWorld)
        s1, o1, r1 = _sys(b, u, 'a', ortho=(which == 'fwd'))
        s2, o2, r2 = _sys(b, u, 'b', ortho=(which != 'fwd'))
        (o1, r1), (o2, r2) = snapshot(o1, r1), snapshot(o2, r2)
        ct = b.CoordTransform(s1, s2)
        n = intv('n')
        k = intv('k')
        u.assume(tm.le(tm.IZERO, k.v), tm.lt(k.v, n.v))
        fw = which == 'fwd'
        spec = (lambda p: fwd_spec(o1, r1, o2, r2, p)) if fw else (lambda p: fwd_spec(o2, r2, o1, r1, p))
        f = ct.applyForwardArray if fw else ct.applyReverseArray
        p = [real('p' + c) for c in 'xyz']
        got = f(*p)
        peq(u, 'one point', got, spec(p))
        xs = [arr(c, n) for c in 'xyz']
        got = f(*xs)
        ok = isinstance(got, A) and len(got.dims) == 2 and got.dims[0] == 3
        u.post('result shape (3, n)', tm.const(bool(ok)))
        if ok:
            posts_true(u, 'result length', pysym.cmp('==', pysym.dimnum(got.dims[1]), n))
            peq(u, 'element k', [got.get(i, k.v) for i in range(3)], spec([mk(tm.app(c, (k.v,))) for c in 'xyz']))
        for c, a in zip('xyz', xs):
            peq(u, 'the input array %s is not changed' % c, a.get(k.v), mk(tm.app(c, (k.v,))))
        # in place variants of trace.py
        ys = [arr(c, n) for c in 'xyz']
        g = w.pkg.load('batoid.trace')
        (g.applyForwardTransformArrays if fw else g.applyReverseTransformArrays)(ct, *ys)
        peq(u, 'in place: element k', [y.get(k.v) for y in ys], spec([mk(tm.app(c, (k.v,))) for c in 'xyz']))
    return go


def u_ct_rays(which):
    def go(u):
        w, b = begin(u, TWorld)
        fw = which == 'fwd'
        s1, o1, r1 = _sys(b, u, 'a', ortho=fw)
        s2, o2, r2 = _sys(b, u, 'b', ortho=not fw)
        (o1, r1), (o2, r2) = snapshot(o1, r1), snapshot(o2, r2)
        n, k = intv('n'), intv('k')
        u.assume(tm.le(tm.IZERO, k.v), tm.lt(k.v, n.v))
        ct = b.CoordTransform(s1, s2)
        how = u.e.choose(3)
        src, dst = (s1, s2) if fw else (s2, s1)
        r = rays(b, 'r_', n, src)
        if how == 0:
            out = (ct.applyForward if fw else ct.applyReverse)(r)
        elif how == 1:
            out = (b.applyForwardTransform if fw else b.applyReverseTransform)(ct, r)
        else:
            if not fw:
                # toCoordSys goes forward from the rays' own system
                ct2 = b.CoordTransform(s2, s1)
                u.assume(*[tm.TRUE])
                orth(u, s1.rot)
            out = r.toCoordSys(dst)
        nm = ('apply' if how == 0 else 'trace' if how == 1 else 'toCoordSys') + ': '
        u.post(nm + 'returns the same object', tm.const(out is r))
        cs = out.coordSys
        peq(u, nm + 'the rays are in the target system', cs.origin, dst.origin)
        peq(u, nm + 'the rays are in the target system (axes)', cs.rot, dst.rot)
        A_, B_ = ((o1, r1), (o2, r2)) if fw else ((o2, r2), (o1, r1))
        peq(u, nm + 'positions', [out._x.get(k.v), out._y.get(k.v), out._z.get(k.v)],
            fwd_spec(*A_, *B_, [old('r_', c, k.v) for c in 'xyz']))
        peq(u, nm + 'velocities', [out._vx.get(k.v), out._vy.get(k.v), out._vz.get(k.v)],
            fwd_spec(*A_, *B_, [old('r_', c, k.v) for c in ('vx', 'vy', 'vz')], True))
        for c in RVF[6:]:
            peq(u, nm + c + ' is unchanged', getattr(out, '_' + c).get(k.v), old('r_', c, k.v))
    return go


def coordtransform():
    n = CT + 'CoordTransform.'
    t = 'batoid/trace.py::'
    return [punit('CoordTransform construction', [n + '__init__'], u_ct_init),
            punit('CoordTransform forward on arrays', [n + 'applyForwardArray', t + 'applyForwardTransformArrays'], u_ct_arrays('fwd')),
            punit('CoordTransform reverse on arrays', [n + 'applyReverseArray', t + 'applyReverseTransformArrays'], u_ct_arrays('rev')),
            punit('CoordTransform forward on rays', [n + 'applyForward', t + 'applyForwardTransform',
                                                     'batoid/rayVector.py::RayVector.toCoordSys'], u_ct_rays('fwd')),
            punit('CoordTransform reverse on rays', [n + 'applyReverse', t + 'applyReverseTransform'], u_ct_rays('rev'))]


def u_ortho(u):
    """rotating a right-handed orthonormal system by a rotation gives one again"""
    w, b = begin(u)
    c, o, r = _sys(b, u, 's')
    q = mat('q')
    orth(u, q)
    one = [[1 if i == j else 0 for j in range(3)] for i in range(3)]
    det = lambda m: mul3(m[0], [sub(mul(m[1][(i + 1) % 3], m[2][(i + 2) % 3]), mul(m[1][(i + 2) % 3], m[2][(i + 1) % 3])) for i in range(3)])
    R0, Q0 = [list(x) for x in r], [list(x) for x in q]
    for nm, p in (('rotateGlobal', mm(Q0, R0)), ('rotateLocal', mm(R0, Q0))):
        d = getattr(c, nm)(q)
        peq(u, nm + ': new axes', d.rot, p)
        peq(u, nm + ': orthonormal', mm([[p[j][i] for j in range(3)] for i in range(3)], p), one)
        peq(u, nm + ': handedness', det(p), mul(det(R0), det(Q0)))
