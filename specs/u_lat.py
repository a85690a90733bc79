"""P23: lattice coordinates and reciprocal vectors (batoid/lattice.py, batoid/analysis.py)."""
from pw import *
import prove

LT = 'batoid/lattice.py::'
AN = 'batoid/analysis.py::'
PI = pysym.PI


def pmat(tag, d):
    return NP.array([[real('%s%d%d' % (tag, i, j)) for j in range(d)] for i in range(d)])


def shape(u, d):
    ns = [intv('n%d' % i) for i in range(d)]
    ix = [intv('i%d' % i) for i in range(d)]
    for n, i in zip(ns, ix):
        u.assume(tm.le(tm.IONE, n.v), tm.le(tm.IZERO, i.v), tm.lt(i.v, n.v))
    return ns, ix


def half(u, n):
    """n // 2"""
    return pysym.floordiv(n, 2)


def cell(u, P, ns, ix, c):
    """coordinate c of the cell: offset from the centre cell times the primitive vectors"""
    r = None
    for k in range(len(ns)):
        t = mul(sub(ix[k], half(u, ns[k])), P[k][c])
        r = t if r is None else add(r, t)
    return r


def check(u, what, got, P, ns, ix):
    d = len(ns)
    if not (isinstance(got, A) and len(got.dims) == d + 1):
        u.post(what + ': an array with one more axis than the lattice', tm.FALSE)
        return
    for k in range(d):
        posts_true(u, '%s: extent %d' % (what, k), pysym.cmp('==', pysym.dimnum(got.dims[k]), ns[k]))
    posts_true(u, what + ': last extent', pysym.cmp('==', pysym.dimnum(got.dims[d]), d))
    for c in range(d):
        peq(u, '%s: component %d' % (what, c), got.get(*([i.v for i in ix] + [c])), cell(u, P, ns, ix, c))


def u_prim(d):
    def go(u):
        w, b = begin(u)
        f = w.pkg.load('batoid.lattice').primitiveToLattice
        P = pmat('p', d)
        P0 = [list(r) for r in P]
        ns, ix = shape(u, d)
        check(u, 'primitiveToLattice', f(P, tuple(ns)), P0, ns, ix)
        peq(u, 'the vectors are not changed', P, P0)
    return go


def u_coords(d):
    def go(u):
        w, b = begin(u)
        P0 = [[real('p%d%d' % (i, j)) for j in range(d)] for i in range(d)]
        ns, ix = shape(u, d)
        a = arr('cell', *ns)
        how = u.e.choose(3 if d == 1 else 2)
        P = pmat('p', d) if how == 0 else [list(r) for r in P0] if how == 1 else pmat('p', 1)[0]
        L = b.Lattice(a, P)
        check(u, 'coords', L.coords, P0, ns, ix)
        check(u, 'coords again', L.coords, P0, ns, ix)
        peq(u, 'the vectors are kept', L.primitiveVectors, P0)
        peq(u, 'the array is kept', L.array.get(*[i.v for i in ix]), mk(tm.app('cell', tuple(i.v for i in ix))))
    return go


def u_init(u):
    w, b = begin(u)
    ns, ix = shape(u, 2)
    a = arr('cell', *ns)
    u.post('too few vectors are refused', tm.const(isfail(lambda: b.Lattice(a, [[real('p'), real('q')]]), ValueError)))
    u.post('too many vectors are refused', tm.const(isfail(lambda: b.Lattice(a, pmat('p', 3)), ValueError)))
    u.post('too short vectors are refused', tm.const(isfail(lambda: b.Lattice(a, [[real('p')], [real('q')]]), ValueError)))
    u.post('a 3-d lattice needs three vectors', tm.const(isfail(
        lambda: b.Lattice(arr('c3', *(ns + [intv('n2')])), pmat('p', 2)), ValueError)))


def recip(a1, a2, N):
    """the vectors with b_i . a_j = 2 pi / N delta_ij"""
    d = sub(mul(a1[0], a2[1]), mul(a1[1], a2[0]))
    n = div(div(mul(2, NumR(PI)), d), N)
    return [[mul(n, a2[1]), neg(mul(n, a2[0]))], [neg(mul(n, a1[1])), mul(n, a1[0])]]


def nondeg(u, a1, a2):
    d = term(sub(mul(a1[0], a2[1]), mul(a1[1], a2[0])))
    u.assume(tm.ne(d, ZERO))
    return d


def u_recip(u):
    w, b = begin(u)
    f = w.pkg.load('batoid.analysis')._reciprocalLatticeVectors
    P = pmat('a', 2)
    P0 = [list(r) for r in P]
    nondeg(u, P[0], P[1])
    N = intv('N') if u.e.choose(2) else real('N')
    u.assume(tm.ne(term(N), ZERO))
    bs = f(P[0], P[1], N)
    u.post('two vectors', tm.const(len(bs) == 2))
    for i in (0, 1):
        for j in (0, 1):
            dot = add(mul(bs[i][0], P0[j][0]), mul(bs[i][1], P0[j][1]))
            peq(u, 'b%d . a%d' % (i + 1, j + 1), mul(dot, N), mul(2, NumR(PI)) if i == j else 0.0)
    u.assume(tm.ne(PI, ZERO))
    back = f(bs[0], bs[1], N)
    for i in (0, 1):
        peq(u, 'the reciprocal of the reciprocal is the lattice (%d)' % (i + 1), list(back[i]), P0[i])
    peq(u, 'the vectors are not changed', P, P0)


def units():
    out = []
    for d in (1, 2, 3, 4):
        out.append(punit('primitiveToLattice, %d-d' % d, [LT + 'primitiveToLattice'], u_prim(d)))
        out.append(punit('Lattice.coords, %d-d' % d, [LT + 'Lattice.__init__', LT + 'Lattice.coords', LT + 'primitiveToLattice'],
                         u_coords(d)))
    out.append(punit('Lattice construction is validated', [LT + 'Lattice.__init__'], u_init))
    out.append(punit('reciprocal vectors are dual', [AN + '_reciprocalLatticeVectors'], u_recip))
    return out
