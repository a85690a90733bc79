"""Units about the surface classes, shared by P03, P04, P05 and P24."""
import terms as tm
from terms import T, I, B, ZERO, ONE, IZERO, IONE
import zoo
from zoo import *
from unit import Unit
from engine import Unsupported, PathEnd
import fp, prove
from fp import NAN


def kindsel(u, kinds):
    """keep only obligations of the given kinds"""


# ---------------------------------------------------------------- P05
def u_sag(cls):
    def f(u):
        z = cls()
        x = u.exec(contracts=z.contracts())
        o = z.build(x)
        X, Y = v('x'), v('y')
        u.assume(*z.dom(X, Y))
        if hasattr(z, 'fold_sag'):
            x.fold = z.fold_sag(X, Y)
        r = x.method(o, 'sag', [X, Y])
        if z.name == 'Asphere':
            u.assume(*horner_used(z, r2(X, Y), r))
        if not isinstance(r, tm.T):
            u.post('%s::sag is defined on its domain' % z.name, tm.FALSE)
            return
        u.post('%s::sag equals the documented formula' % z.name, tm.eq(r, z.sag(X, Y)))
    return Unit('%s::sag' % cls.name, ['%s::sag' % cls.name, '%s::%s' % (cls.name, cls.name)], f)


def horner_used(z, q, *ts):
    """the Horner lemma's conclusions, where a result mentions a Horner sum"""
    names = {t.args[0] for r in ts if isinstance(r, tm.T) for t in tm.subterms(r) if t.op == 'app'}
    out = []
    for e in z.horner(q):
        fs = {t.args[0] for t in tm.subterms(e) if t.op == 'app'} & {'asph', 'aspo', 'asprh', 'aspro'}
        if fs & names:
            out.append(e)
    return out


def u_asphere_horner():
    """Horner partial results h(k) of n coefficients, m = n-k-1 still to come, by induction on k:
    the invariant's value does not change from k to k+1, is the sum at k = 0 and the result at k = n"""
    def f(u):
        q, n, m = v('q'), iv('n'), iv('m')
        pw = lambda j: ap('pow', j, q)
        k, m1 = sub(n, add(m, IONE)), add(m, IONE)
        for h, p, outer in (('asph', 'asp', 0), ('aspo', 'asp', 1), ('asprh', 'aspr', 0), ('aspro', 'aspr', 1)):
            def inv(kk, j, hk=None):
                a, b = mul(ap(h, kk, q, n) if hk is None else hk, pw(j)), ap(p, j, q)
                if p == 'asp' and not outer:
                    a = mul(a, q)
                if p == 'aspr' and outer:
                    b = mul(b, q)
                return add(a, b)
            u.post('%s: base' % h, tm.eq(inv(IZERO, n), mul(ap(p, n, q), q) if p == 'aspr' and outer else ap(p, n, q)))
            u.post('%s: step' % h, tm.eq(inv(k, m1), inv(None, m, tm.RECUR[h][1](k, q, n))))
            u.post('%s: use' % h, tm.eq(inv(n, IZERO), mul(ap(h, n, q, n), q) if p == 'asp' and not outer else ap(h, n, q, n)))
    return Unit('asphere Horner lemma', ['(lemma) Horner = even polynomial'], f)


def u_sag_outside(cls):
    """no height is invented where the conic has none"""
    def f(u):
        z = cls()
        x = u.exec(contracts=z.contracts())
        o = z.build(x)
        X, Y = v('x'), v('y')
        u.assume(*[tm.lnot(d) for d in z.dom(X, Y)])
        if hasattr(z, 'fold_sag'):
            x.fold = z.fold_sag(X, Y)
        r = x.method(o, 'sag', [X, Y])
        u.post('%s::sag is not a number beyond the rim' % z.name, tm.const(not isinstance(r, tm.T)))
    return Unit('%s::sag outside' % cls.name, ['%s::sag' % cls.name], f)


def u_bicubic_sag():
    def f(u):
        z = Bicubic()
        x = u.exec()
        o = z.build(x)
        X, Y = v('x'), v('y')
        r = x.method(o, 'sag', [X, Y])
        ix, iy = z.cell(X, Y)
        ins = z.inside(ix, iy)
        if u.e.branch(ins):
            if not isinstance(r, tm.T):
                u.post('Table::eval is defined inside the grid', tm.FALSE)
                return
            u.post('Table::eval is the bicubic Hermite patch of the cell', tm.eq(r, z.patch(X, Y, ix, iy)))
        elif u.e.branch(z.nan):
            u.post('outside the grid: not a number when so requested', tm.const(r is NAN))
        else:
            u.post('outside the grid: zero when so requested', tm.eq(r, ZERO) if isinstance(r, tm.T) else tm.FALSE)
    return Unit('Table::eval', ['Bicubic::sag', 'Table::eval', 'Table::Table', 'oneDSpline'], f)


def u_bicubic_lemmas():
    def f(u):
        z = Bicubic()
        x = u.exec()
        z.build(x)
        ix, iy, w = iv('ix'), iv('iy'), v('w')
        X, Y = v('X'), v('Y')
        p = lambda u_, w_, i, j: z.patch_uv(u_, w_, i, j)
        one = IONE
        # values and slopes at the nodes
        uu, ww = v('uu'), v('ww')
        P = p(uu, ww, ix, iy)
        for a in (0, 1):
            for b in (0, 1):
                at = {uu: lit(a), ww: lit(b)}
                i, j = add(ix, lit(a, I)), add(iy, lit(b, I))
                u.post('node value (%d,%d)' % (a, b), tm.eq(tm.subst(P, at), z.node('z', i, j)))
                u.post('node x slope (%d,%d)' % (a, b),
                       tm.eq(tm.subst(diff(P, uu), at), mul(z.dx, z.node('x', i, j))))
                u.post('node y slope (%d,%d)' % (a, b),
                       tm.eq(tm.subst(diff(P, ww), at), mul(z.dy, z.node('y', i, j))))
        # neighbouring patches join with equal value and gradient
        Q = p(uu, ww, add(ix, one), iy)
        S = p(uu, ww, ix, add(iy, one))
        for nm, d in (('value', lambda t: t), ('d/dx', lambda t: diff(t, uu)), ('d/dy', lambda t: diff(t, ww))):
            u.post('continuous %s across x' % nm,
                   tm.eq(tm.subst(d(P), {uu: ONE}), tm.subst(d(Q), {uu: ZERO})))
            u.post('continuous %s across y' % nm,
                   tm.eq(tm.subst(d(P), {ww: ONE}), tm.subst(d(S), {ww: ZERO})))
    return Unit('bicubic patch lemmas', ['(lemma) bicubic patch'], f)


def eq_(a, b):
    return tm.eq(a, b) if isinstance(a, T) else tm.FALSE


def u_horner():
    def f(u):
        x = u.exec()
        X, o, n = v('x'), iv('o'), iv('n')
        L = iv('len')
        nonneg(u.e, n, o)
        u.assume(tm.le(add(o, n), L))
        a = darr('coefs', L)
        x.fold = Fold(lambda x_, k, t, en: [ap('h1_coefs', k, X, o, n), ap('p1_coefs', k, X, o), ap('pow', k, X)])
        fn = u.prog.find('horner', 3)
        r = x.callfn(fn, [X, Ptr(a, o), n])
        want = ap('p1_coefs', n, X, o)
        # Horner lemma (proved below), at this length
        u.assume(tm.eq(ap('h1_coefs', n, X, o, n), want))
        u.post('horner is the sum of coefs[o+i] x^i', eq_(r, want))
    return Unit('horner', ['horner'], f)


def u_horner2d():
    def f(u):
        x = u.exec(contracts={'horner': c_horner})
        X, Y, nx, ny = v('x'), v('y'), iv('nx'), iv('ny')
        nonneg(u.e, nx, ny)
        L = mul(nx, ny)
        a = darr('coefs', L)
        x.fold = Fold(lambda x_, k, t, en: [ap('h2_coefs', k, X, Y, nx, ny), ap('p2_coefs', k, X, Y, nx), ap('pow', k, X)])
        fn = u.prog.find('horner2d', 5)
        r = x.callfn(fn, [X, Y, Ptr(a), nx, ny])
        want = ap('p2_coefs', ny, X, Y, nx)
        u.assume(tm.eq(ap('h2_coefs', ny, X, Y, nx, ny), want))
        u.post('horner2d is the sum of x^i times the polynomial of row i', eq_(r, want))
    return Unit('horner2d', ['horner2d'], f)


def u_horner_lemma():
    """Horner partial results against the power sum, by induction on the number k of coefficients used:
    h(k) x^(n-k) + p(n-k) = p(n)"""
    def f(u):
        X, o, n, m = v('x'), iv('o'), iv('n'), iv('m')
        Y, nx = v('y'), iv('nx')
        k = sub(n, add(m, IONE))       # n-k = m+1
        pw = lambda j: ap('pow', j, X)
        inv1 = lambda k_, j: add(mul(ap('h1_coefs', k_, X, o, n), pw(j)), ap('p1_coefs', j, X, o))
        u.post('horner = power sum: base', tm.eq(inv1(IZERO, n), ap('p1_coefs', n, X, o)))
        u.post('horner = power sum: step', tm.eq(
            add(mul(add(mul(ap('h1_coefs', k, X, o, n), X), ap('coefs', add(o, sub(sub(n, IONE), k)))), pw(m)),
                ap('p1_coefs', m, X, o)),
            add(mul(ap('h1_coefs', k, X, o, n), pw(add(m, IONE))), ap('p1_coefs', add(m, IONE), X, o))))
        u.post('horner = power sum: use', tm.eq(inv1(n, IZERO), ap('h1_coefs', n, X, o, n)))
        ny = n
        u.post('horner2d = power sum: step', tm.eq(
            add(mul(add(mul(ap('h2_coefs', k, X, Y, nx, ny), X),
                        ap('p1_coefs', nx, Y, mul(sub(sub(ny, IONE), k), nx))), pw(m)),
                ap('p2_coefs', m, X, Y, nx)),
            add(mul(ap('h2_coefs', k, X, Y, nx, ny), pw(add(m, IONE))), ap('p2_coefs', add(m, IONE), X, Y, nx))))
    return Unit('Horner lemma', ['(lemma) Horner = power sum'], f)


def sag_units():
    us = [u_sag(c) for c in ALL if c is not Bicubic]
    us += [u_sag_outside(c) for c in (Sphere, Quadric)]
    us += [u_asphere_horner(), u_bicubic_sag(), u_bicubic_lemmas(), u_horner(), u_horner2d(), u_horner_lemma()]
    return us


# ---------------------------------------------------------------- P04
def fin(*a):
    return all(isinstance(t, tm.T) for t in a)


def grad_fold(z, X, Y):
    if z.name == 'Asphere':
        r = tm.sqrt(r2(X, Y))
        return z.fold_grad(r, div(r, mul(z.R, tm.sqrt(z.rad(X, Y)))))
    if z.name == 'Sum':
        return z.fold_grad(X, Y)
    return None


def call_normal(x, o, X, Y):
    c = [Cell(fp.POISON, 'double') for _ in range(3)]
    x.method(o, 'normal', [X, Y] + c)
    return [k.v for k in c]


def asphere_lemma(z, X, Y):
    """2 aspd = aspr at the surface's own length (proved in 'asphere derivative lemma')"""
    q = r2(X, Y)
    return tm.eq(mul(lit(2), ap('aspd', z.n, q)), ap('aspr', z.n, q))


def u_normal(cls):
    def f(u):
        z = cls()
        x = u.exec(contracts=z.contracts())
        o = z.build(x)
        X, Y = v('x'), v('y')
        u.assume(*z.domn(X, Y))
        x.fold = grad_fold(z, X, Y)
        nx, ny, nz = call_normal(x, o, X, Y)
        if not fin(nx, ny, nz):
            # known finding for Tilted: no normal for slopes of 45 degrees and more
            u.post('%s::normal is defined where the surface is' % z.name, tm.le(
                ONE, add(sq(z.tx), sq(z.ty))) if z.name == 'Tilted' else tm.FALSE)
            return
        if z.name == 'Tilted' and u.e.branch(tm.eq(add(sq(z.tx), sq(z.ty)), ONE)):
            return
        if z.name == 'Asphere':
            u.assume(asphere_lemma(z, X, Y), *horner_used(z, r2(X, Y), nx, ny, nz))
        zx, zy = z.dsag(X, Y)
        u.post('%s::normal has length one' % z.name, tm.eq(sm(sq(nx), sq(ny), sq(nz)), ONE))
        u.post('%s::normal points to positive z' % z.name, tm.lt(ZERO, nz))
        if z.name == 'Tilted':
            # known finding: recorded deviation (the given tangents themselves are the components)
            dev = tm.land(tm.eq(nx, neg(z.tx)), tm.eq(ny, neg(z.ty)))
            u.post('Tilted::normal is perpendicular or deviates as recorded', tm.lor(tm.land(
                tm.eq(nx, neg(mul(zx, nz))), tm.eq(ny, neg(mul(zy, nz)))), dev))
            return
        u.post('%s::normal is perpendicular along x' % z.name, tm.eq(nx, neg(mul(zx, nz))))
        u.post('%s::normal is perpendicular along y' % z.name, tm.eq(ny, neg(mul(zy, nz))))
    return Unit('%s::normal' % cls.name, ['%s::normal' % cls.name], f)


def u_asphere_lemma():
    def f(u):
        q, k = v('q'), iv('k')
        e = lambda i: tm.eq(mul(ap('powd', i, q), q), mul(tm.toreal(i), ap('pow', i, q)))
        k1 = add(k, IONE)
        u.post('pow derivative: base', e(IZERO))
        u.assume(e(k))
        u.post('pow derivative: step', e(k1))
        g = lambda i: tm.eq(mul(lit(2), ap('aspd', i, q)), ap('aspr', i, q))
        u.post('polynomial derivative: base', g(IZERO))
        u.assume(g(k))
        u.post('polynomial derivative: step', g(k1))
    return Unit('asphere derivative lemma', ['(lemma) d/dr of the even polynomial'], f)


def u_normal_outside(cls):
    def f(u):
        z = cls()
        x = u.exec(contracts=z.contracts())
        o = z.build(x)
        X, Y = v('x'), v('y')
        u.assume(*[tm.lnot(d) for d in z.dom(X, Y)])
        x.fold = Fold(lambda x_, k, t, en: [NAN])
        n = call_normal(x, o, X, Y)
        u.post('%s::normal is not a number beyond the rim' % z.name, tm.const(all(a is NAN for a in n)))
    return Unit('%s::normal outside' % cls.name, ['%s::normal' % cls.name], f)


def u_table_grad():
    def f(u):
        z = Bicubic()
        x = u.exec()
        z.build(x)
        X, Y = v('x'), v('y')
        c = [Cell(fp.POISON, 'double') for _ in range(2)]
        x.method(z.table, 'grad', [X, Y] + c)
        gx, gy = c[0].v, c[1].v
        ix, iy = z.cell(X, Y)
        if u.e.branch(z.inside(ix, iy)):
            if not fin(gx, gy):
                u.post('Table::grad is defined inside the grid', tm.FALSE)
                return
            i, j = iv('ix'), iv('iy')
            P = z.patch(X, Y, i, j)
            at = {i: ix, j: iy}
            u.post('Table::grad is the x derivative of the patch', tm.eq(gx, tm.subst(diff(P, X), at)))
            u.post('Table::grad is the y derivative of the patch', tm.eq(gy, tm.subst(diff(P, Y), at)))
        elif u.e.branch(z.nan):
            u.post('outside the grid: not a number when so requested', tm.const(gx is NAN and gy is NAN))
        else:
            u.post('outside the grid: zero when so requested',
                   tm.land(tm.eq(gx, ZERO), tm.eq(gy, ZERO)) if fin(gx, gy) else tm.FALSE)
    return Unit('Table::grad', ['Table::grad', 'oneDSpline', 'oneDGrad'], f)


def c_table_grad(x, this, X, Y, a, b):
    if x.e.choose(2) == 0:
        a.v = b.v = NAN
    else:
        a.v, b.v = v('gradx'), v('grady')


def u_bicubic_normal():
    def f(u):
        z = Bicubic()
        x = u.exec(contracts={'Table::grad': c_table_grad})
        o = z.build(x)
        n = call_normal(x, o, v('x'), v('y'))
        if 'Table::grad' not in u.e.callees:
            raise Unsupported('Bicubic::normal does not use Table::grad')
        if all(a is NAN for a in n):
            u.post('Bicubic::normal is not a number only where the table has no gradient',
                   tm.const(u.e.dec[-1] == 0))
            return
        if not fin(*n):
            u.post('Bicubic::normal is defined where the table has a gradient', tm.FALSE)
            return
        nx, ny, nz = n
        u.post('Bicubic::normal has length one', tm.eq(sm(sq(nx), sq(ny), sq(nz)), ONE))
        u.post('Bicubic::normal points to positive z', tm.lt(ZERO, nz))
        u.post('Bicubic::normal is perpendicular along x', tm.eq(nx, neg(mul(v('gradx'), nz))))
        u.post('Bicubic::normal is perpendicular along y', tm.eq(ny, neg(mul(v('grady'), nz))))
    return Unit('Bicubic::normal', ['Bicubic::normal'], f)


# ---- the contract of an arbitrary surface, used by its callers
def s_sag(x, o, X, Y):
    """height at (X, Y): a number or not a number"""
    X, Y = val(X), val(Y)
    if X is NAN or Y is NAN:
        return NAN
    if not fin(X, Y):
        return fp.ANY
    return ap('S_sag', X, Y) if sdef(x, X, Y) else NAN


def sdef(x, X, Y):
    return x.e.branch(tm.app('S_def', (X, Y), B))


def s_normal(x, o, X, Y, nx, ny, nz):
    """Surface::normal (P04): upward, unit, perpendicular; not a number where there is no height"""
    X, Y = val(X), val(Y)
    if not fin(X, Y):
        nx.v = ny.v = nz.v = fp.ANY
        return
    if not sdef(x, X, Y):
        nx.v = ny.v = nz.v = NAN
        return
    a, b, c = [ap('S_n' + k, X, Y) for k in 'xyz']
    x.e.assume(tm.eq(sm(sq(a), sq(b), sq(c)), ONE))
    x.e.assume(tm.lt(ZERO, c))
    nx.v, ny.v, nz.v = a, b, c


def u_grad():
    """Surface::grad returns the partial derivatives, given the contract of normal"""
    def f(u):
        x = u.exec(contracts={('Surface', 'normal'): s_normal, ('Surface', 'sag'): s_sag})
        o = Obj('Surface')
        X, Y = v('x'), v('y')
        c = [Cell(fp.POISON, 'double') for _ in range(2)]
        x.method(o, 'grad', [X, Y] + c)
        gx, gy = c[0].v, c[1].v
        if u.e.branch(tm.app('S_def', (X, Y), B)):
            ok = fin(gx, gy)
            nz = ap('S_nz', X, Y)
            u.post('Surface::grad is minus nx/nz', tm.eq(mul(gx, nz), neg(ap('S_nx', X, Y))) if ok else tm.FALSE)
            u.post('Surface::grad is minus ny/nz', tm.eq(mul(gy, nz), neg(ap('S_ny', X, Y))) if ok else tm.FALSE)
        else:
            u.post('Surface::grad is not a number where there is no height', tm.const(gx is NAN and gy is NAN))
    return Unit('Surface::grad', ['Surface::grad'], f)


def normal_units():
    us = [u_normal(c) for c in ALL if c is not Bicubic]
    us += [u_normal_outside(c) for c in (Sphere, Quadric, Asphere)]
    us += [u_table_grad(), u_bicubic_normal(), u_asphere_lemma(), u_asphere_horner(), u_grad()]
    return us


# ---------------------------------------------------------------- P03
RAYV = ['x', 'y', 'z', 'vx', 'vy', 'vz']


def raysym(u):
    r = {k: v(k) for k in RAYV}
    return r


def call_tti(x, o, r, dt0=ZERO):
    dt = Cell(dt0, 'double')
    ok = x.method(o, 'timeToIntersect', [r[k] for k in RAYV] + [dt, iv('niter')])
    return ok, dt.v


def at(r, s):
    return [add(r[a], mul(r['v' + a], s)) for a in 'xyz']


def implicit(z, X, Y, Z):
    """defining polynomial of the quadratic surfaces"""
    if z.name == 'Plane':
        return Z
    if z.name == 'Tilted':
        return sub(Z, z.sag(X, Y))
    if z.name == 'Paraboloid':
        return sub(r2(X, Y), mul(mul(lit(2), z.R), Z))
    k1 = ONE if z.name == 'Sphere' else add(ONE, z.k)
    return add(sub(r2(X, Y), mul(mul(lit(2), z.R), Z)), mul(k1, sq(Z)))


def sheet(z, X, Y, Z):
    """which part of the conic the height function describes"""
    if z.name in ('Plane', 'Tilted', 'Paraboloid'):
        return tm.TRUE
    k1 = ONE if z.name == 'Sphere' else add(ONE, z.k)
    return tm.le(ZERO, mul(z.R, sub(z.R, mul(k1, Z))))


def u_tti(cls, mode):
    """mode 0: the line meets the conic at parameter s (any line that meets it, see 'existence');
    mode 2: only outside the sheet that the height describes; mode 1: it does not meet it"""
    def f(u):
        z = cls()
        u.e.ms = 40
        x = u.exec()
        o = z.build(x)
        r = {k: v(k) for k in ('vx', 'vy', 'vz')}
        u.assume(tm.lt(ZERO, sm(sq(r['vx']), sq(r['vy']), sq(r['vz']))))
        if mode == 1:
            r.update({k: v(k) for k in 'xyz'})
            A, Bq, C = quad(z, r)
            if u.e.branch(tm.eq(A, ZERO)):
                u.assume(tm.eq(Bq, ZERO), tm.ne(C, ZERO))
            else:
                u.assume(tm.lt(sub(sq(Bq), mul(lit(4), mul(A, C))), ZERO))
            u.feasible()
            ok, dt = call_tti(x, o, r)
            if u.e.branch(ok):
                u.post('%s: a line that misses the surface is not reported as hitting it' % z.name, tm.FALSE)
            else:
                u.post('%s: a missing line is reported' % z.name, tm.TRUE)
            return
        P = [v('p' + k) for k in 'xyz']
        s = v('s')
        for k, p in zip('xyz', P):
            r[k] = sub(p, mul(r['v' + k], s))
        F = tm.eq(implicit(z, *P), ZERO)
        u.assume(F)
        # along the line the defining polynomial is A (t-s)^2 + G (t-s)
        t = v('t_')
        line = implicit(z, *at(r, t))
        G = tm.subst(diff(line, t), {t: s})
        A = div(diff(diff(line, t), t), lit(2))
        u.lemma('the defining polynomial along the line', tm.eq(line, add(
            mul(A, sq(sub(t, s))), mul(G, sub(t, s)))))
        if u.e.branch(tm.eq(A, ZERO)):
            u.assume(tm.ne(G, ZERO))          # the line does not lie in the surface
        on = sheet(z, *P)
        if on is not tm.TRUE:
            if mode == 2:
                u.assume(tm.lnot(on))
                on = False
            else:
                u.assume(on)

        def hint(a):
            es = eqs(u.e.pc)
            for base in (ONE, None):
                if base is None:
                    if z.name != 'Paraboloid':
                        break
                    base = div(ONE, z.R)
                for kap in (1, Fraction(1, 2), 2, Fraction(1, 4), 4):
                    w = mul(mul(lit(kap), base), G)
                    g = tm.eq(a, sq(w))
                    if prove.quick_eq(g, es):
                        u.lemma('the discriminant is the square of the slope at the crossing', g, es)
                        return w if u.e.branch(tm.le(ZERO, w)) else neg(w)
            return None
        u.e.sqrt_hints = [hint]
        # an early test of the sign of the discriminant
        try:
            ok, dt = call_tti(x, o, r)
            good = u.e.branch(ok)
        finally:
            u.e.sqrt_hints = []
        if not good:
            u.post('%s: a line that meets the sheet is found' % z.name,
                   tm.FALSE if on else tm.TRUE)
            return
        if not fin(dt):
            u.post('%s: time of intersection is a number' % z.name, tm.FALSE)
            return
        u.post('%s: successful intersection satisfies the surface equation' % z.name,
               tm.eq(implicit(z, *at(r, dt)), ZERO))
        if not on or z.name in ('Plane', 'Tilted'):
            return
        # on the sheet: every root the code computed is s or the other one
        qs = []
        for h in u.e.pc + [tm.eq(dt, s)]:
            for q in tm.subterms(h):
                if (q.op == '/' and not tm.isc(q.args[1]) or q is dt) and q not in qs:
                    qs.append(q)
        roots = []
        sub_ = {}
        es = eqs(u.e.pc)
        for q in qs:
            d = sub(q, s)
            if prove.quick_eq(tm.eq(q, s), []):
                u.lemma('a computed time is the crossing', tm.eq(q, s), [])
                sub_[q] = s
                continue
            g = tm.eq(mul(d, add(mul(A, d), G)), ZERO)
            if prove.quick_eq(g, es):
                n = v('root%d' % len(roots))
                u.lemma('a computed time is one of the two crossings', g, es)
                roots.append(q)
                sub_[q] = n
        prod = ONE
        for q in roots:
            prod = mul(prod, sub(q, s))
        g = tm.TRUE if s in sub_.values() else tm.eq(prod, ZERO)
        u.lemma('the crossing is among the computed times', g, es if g is tm.TRUE or prove.quick_eq(g, es) else [
            h for h in u.e.pc if h not in es or len(tm.subterms(h)) < 40])
        # of two crossings on the sheet, the one at the height nearer to the vertex
        zd, zs = at(r, dt)[2], P[2]
        near = tm.le(sq(zd), sq(zs)) if z.name == 'Quadric' else tm.le(mul(z.R, zd), mul(z.R, zs))
        goals = [('the result is the crossing nearer the height of the vertex', near)]
        if on is not tm.TRUE:
            goals.append(('the result is on the sheet', sheet(z, *at(r, dt))))
        m = lambda c: tm.subst(c, sub_)
        keep = [h for h in u.e.pc if len(tm.subterms(m(h))) < 60]
        for nm, goal in goals:
            if s in sub_.values() or not roots:
                u.post('%s: %s' % (z.name, nm), m(goal), hyps=[m(h) for h in keep])
            for q in roots:        # (root0 - s)(root1 - s) = 0: one of them is s
                if s not in sub_.values():
                    k = lambda c: tm.subst(m(c), {sub_[q]: s})
                    u.post('%s: %s' % (z.name, nm), k(goal), hyps=[k(h) for h in keep])
    return Unit('%s::timeToIntersect %s' % (cls.name, ('crossing', 'missing', 'crossing elsewhere')[mode]),
                ['%s::timeToIntersect' % cls.name], f, tmo=30)


def eqs(pc):
    return [h for h in pc if h.op == '=']


def u_roots():
    """a line meets the conic exactly in the cases that the two units above distinguish"""
    def f(u):
        A, Bq, C = v('A'), v('B'), v('C')
        t = v('t')
        p = lambda t: sm(mul(A, sq(t)), mul(Bq, t), C)
        D = sub(sq(Bq), mul(lit(4), mul(A, C)))
        w = v('w')
        hy = [tm.ne(A, ZERO), tm.eq(sq(w), D)]
        u.post('a real crossing exists when the discriminant is not negative',
               tm.eq(p(div(sub(w, Bq), mul(lit(2), A))), ZERO), hyps=hy)
        u.post('a crossing exists when the line is not parallel',
               tm.eq(p(div(neg(C), Bq)), ZERO), hyps=[tm.eq(A, ZERO), tm.ne(Bq, ZERO)])
        for cls in (Plane, Tilted, Paraboloid, Sphere, Quadric):
            z = cls()
            z.R, z.k, z.tx, z.ty = v('R'), v('conic'), v('tanx'), v('tany')
            r = raysym(u)
            a, b, c = quad(z, r)
            u.post('%s along a line is a quadratic polynomial' % z.name,
                   tm.eq(implicit(z, *at(r, t)), sm(mul(a, sq(t)), mul(b, t), c)), hyps=[])
    return Unit('existence of crossings', ['(lemma) existence of crossings'], f)


def quad(z, r):
    """coefficients of the implicit polynomial along the ray, derived mechanically"""
    t = v('t_')
    p = implicit(z, *at(r, t))
    d = diff(p, t)
    C = tm.subst(p, {t: ZERO})
    Bq = tm.subst(d, {t: ZERO})
    A = div(tm.subst(diff(d, t), {t: ZERO}), lit(2))
    return A, Bq, C


def u_sheet_lemma():
    def f(u):
        for cls in (Sphere, Quadric):
            z = cls()
            z.R, z.k = v('R'), v('conic')
            X, Y, Z = v('x'), v('y'), v('z')
            k1 = ONE if cls is Sphere else add(ONE, z.k)
            W = div(sub(z.R, mul(k1, Z)), z.R)
            hy = [tm.ne(z.R, ZERO), tm.eq(implicit(z, X, Y, Z), ZERO), tm.le(ZERO, W)]
            rad = sub(ONE, mul(k1, div(r2(X, Y), sq(z.R))))
            q = v('q')       # the square root in the height formula
            hq = [tm.le(ZERO, q), tm.eq(sq(q), rad)]
            u.lemma('%s: radicand is a square' % z.name, tm.eq(rad, sq(W)), hy)
            u.lemma('%s: root' % z.name, tm.eq(q, W), [tm.eq(sq(q), sq(W)), tm.le(ZERO, q), tm.le(ZERO, W)])
            # z = r^2 / (R (1 + q)) with q = W
            u.post('%s: on the conic and the sheet means at the height' % z.name,
                   tm.eq(mul(Z, mul(z.R, add(ONE, W))), r2(X, Y)), hyps=hy)
            u.post('%s: the denominator is not zero' % z.name, tm.ne(mul(z.R, add(ONE, W)), ZERO), hyps=hy)
            u.post('%s: sheet condition in both forms' % z.name, tm.le(ZERO, W),
                   hyps=[tm.ne(z.R, ZERO), sheet(z, X, Y, Z)])
            if cls is Sphere:
                u.post('Sphere: both height formulas agree', tm.eq(mul(z.R, sub(ONE, W)), Z), hyps=hy)
    return Unit('sheet lemma', ['(lemma) conic equation and sheet give the height'], f)


def u_newton():
    """Surface::timeToIntersect: success means that the last point is within the tolerance"""
    def f(u):
        u.e.ms = 40
        x = u.exec(contracts={('Surface', 'normal'): s_normal, ('Surface', 'sag'): s_sag})
        o = Obj('Surface')
        r = raysym(u)

        def ex(x_, k, t, en):
            if not fin(t):
                # 0*inf and 0*nan are nan: every coordinate is then non-finite
                return [fp.XNF] * 3 + [fp.ANY]
            p = at(r, t)
            if x_.matching and tm.app('S_def', (p[0], p[1]), B) not in u.e.pc and \
                    tm.lnot(tm.app('S_def', (p[0], p[1]), B)) not in u.e.pc:
                return p
            return p + [s_sag(x_, o, p[0], p[1])]
        x.fold = Fold(ex, needs_t=True)
        ok, dt = call_tti(x, o, r, v('dt0'))
        if u.e.branch(ok):
            if not fin(dt):
                u.post('iterated time is a number', tm.FALSE)
                return
            p = at(r, dt)
            h = s_sag(x, o, p[0], p[1])
            if not fin(h):
                u.post('the surface has a height where the ray is put', tm.FALSE)
                return
            d = sub(h, p[2])
            u.post('iterated intersection is within 1e-12 of the surface',
                   tm.land(tm.lt(d, EPS), tm.lt(neg(EPS), d)))
        else:
            u.post('not converged: reported', tm.TRUE)
    return Unit('Surface::timeToIntersect', ['Surface::timeToIntersect'], f, tmo=30)


from fractions import Fraction
EPS = tm.lit(Fraction(1, 10**12))


def u_tti_iter(cls):
    """Asphere and Sum: whatever the first guess, the answer is the iteration's"""
    def f(u):
        z = cls()
        con = dict(z.contracts())

        def newton(x, this, *a):
            dt = a[6]
            if x.e.choose(2) == 0:
                return tm.FALSE
            t = tm.fresh('newton')
            dt.v = t
            x.e.assume(tm.app('converged', (t,), B))
            return tm.TRUE
        con['Surface::timeToIntersect'] = newton

        def first(x, this, *a):
            if x.e.choose(2) == 0:
                return tm.FALSE
            a[6].v = tm.fresh('guess')
            return tm.TRUE
        con['Quadric::timeToIntersect'] = first
        x = u.exec(contracts=con)
        o = z.build(x)
        r = raysym(u)
        u.assume(tm.lt(ZERO, sm(sq(r['vx']), sq(r['vy']), sq(r['vz']))))
        ok, dt = call_tti(x, o, r)
        if u.e.branch(ok):
            u.post('%s: success only when the iteration converged' % z.name,
                   tm.app('converged', (dt,), B) if fin(dt) else tm.FALSE)
        else:
            u.post('%s: failure is reported' % z.name, tm.TRUE)
    return Unit('%s::timeToIntersect' % cls.name, ['%s::timeToIntersect' % cls.name], f)


def tti_units():
    return [u_tti(c, m) for c in (Plane, Tilted, Paraboloid, Sphere, Quadric) for m in (0, 1)] + \
        [u_tti(c, 2) for c in (Sphere, Quadric)] + \
        [u_roots(), u_sheet_lemma(), u_newton(), u_tti_iter(Asphere), u_tti_iter(Sum)]
