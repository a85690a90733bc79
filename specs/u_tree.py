"""P20: perturbed copies of element trees (batoid/optic.py with*Shift*, with*Rotat*)."""
import types, itertools
from pw import *
from u_coord import mulv, mulT, addv, subv, mm
from u_trace import Surf, Obs, Tag

OP = 'batoid/optic.py::'
CACHE = {'items', 'coordSys', 'stopSurface', 'itemDict', '_names', 'R_outer', 'R_inner'}


def tr(m):
    return [[m[j][i] for j in range(3)] for i in range(3)]


def rows(m):
    m = pysym.oarr(m)
    return [[m[i, j] for j in range(3)] for i in range(3)]


def centre(c, cs):
    c = [0, 0, 0] if c is None else list(c)
    if cs is None:
        return c
    return addv(mulv(rows(cs.rot), c), list(cs.origin))


class RCS:
    """contract of CoordSys (P02): the rigid motions applied are recorded, in global coordinates, as
    (matrix, fixed point, shift)"""

    def __init__(s, origin, rot, log=()):
        s.origin, s.rot, s.log = origin, rot, log

    def _moved(s, m):
        R_, c, d = m
        o = addv(addv(mulv(R_, subv(list(s.origin), c)), c), d) if R_ is not None else addv(list(s.origin), d)
        r = mm(R_, rows(s.rot)) if R_ is not None else rows(s.rot)
        return RCS(NP.array(o), NP.array(r), s.log + (m,))

    def shiftGlobal(s, d):
        return s._moved((None, None, list(d)))

    def shiftLocal(s, d):
        return s._moved((None, None, mulv(rows(s.rot), list(d))))

    def rotateGlobal(s, rot, rotCenter=(0, 0, 0), coordSys=None):
        return s._moved((rows(rot), centre(rotCenter, coordSys), [0, 0, 0]))

    def rotateLocal(s, rot, rotCenter=(0, 0, 0), coordSys=None):
        a = rows(s.rot)
        return s._moved((mm(mm(a, rows(rot)), tr(a)), centre(rotCenter, s if coordSys is None else coordSys), [0, 0, 0]))

    def copy(s):
        return RCS(NP.array(list(s.origin)), NP.array(rows(s.rot)), s.log)


def cs(tag):
    return RCS(vec(tag + 'o'), mat(tag + 'r'))


def moved_by(u, what, before, after, m):
    """after = before moved by m (None: not moved)"""
    if m is None:
        if after is not before:
            u.post(what + ': does not move', tm.const(len(after.log) == len(before.log)))
            if len(after.log) == len(before.log):
                peq(u, what + ': does not move', list(after.origin), list(before.origin))
                peq(u, what + ': does not turn', rows(after.rot), rows(before.rot))
        return
    ok = len(after.log) == len(before.log) + 1 and after.log[:-1] == before.log
    u.post(what + ': moves once', tm.const(ok))
    if not ok:
        raise PathEnd()
    R_, c, d = after.log[-1]
    Rw, cw, dw = m
    if Rw is None:
        u.post(what + ': is only shifted', tm.const(R_ is None))
        if R_ is None:
            peq(u, what + ': shift', d, dw)
        return
    u.post(what + ': is turned', tm.const(R_ is not None))
    if R_ is None:
        raise PathEnd()
    peq(u, what + ': rotation', R_, Rw)
    peq(u, what + ': fixed point', c, cw)
    peq(u, what + ': no shift', d, dw)


def attrs(u, what, a, b, but=()):
    """nothing but the position (and the attributes named) differs"""
    da, db = a.__dict__, b.__dict__
    u.post(what + ': of the same kind', tm.const(type(a) is type(b)))
    for k in (set(da) | set(db)) - CACHE - set(but):
        u.post(what + ': attribute kept', tm.const(k in da and k in db and (da[k] is db[k] or (
            isinstance(da[k], (list, str, tuple)) and da[k] == db[k]))))
    u.post(what + ': stop surface kept', tm.const(('stopSurface' in da) == ('stopSurface' in db)))


class Part:
    """contract of an element: withGlobalShift, withGlobalRotation, withLocalRotation return a copy moved, with
    everything in it, by the motion they name"""

    def __init__(s, name, c, log=()):
        s.name, s.coordSys, s.path, s.log = name, c, [name], log
        s.skip, s.inMedium, s.outMedium, s.surface, s.obscuration = False, Tag('m'), Tag('m'), Surf(), None

    def _go(s, c):
        r = Part(s.name, c)
        r.__dict__.update({k: v for k, v in s.__dict__.items() if k not in ('coordSys', 'log')})
        return r

    def withGlobalShift(s, d):
        return s._go(s.coordSys.shiftGlobal(d))

    def withLocalShift(s, d):
        return s._go(s.coordSys.shiftLocal(d))

    def withGlobalRotation(s, rot, rotCenter=None, coordSys=None):
        return s._go(s.coordSys.rotateGlobal(rot, (0, 0, 0) if rotCenter is None else rotCenter, coordSys))

    def withLocalRotation(s, rot, rotCenter=None, coordSys=None):
        return s._go(s.coordSys.rotateLocal(rot, (0, 0, 0) if rotCenter is None else rotCenter, coordSys))


    def withSurface(s, f):
        r = s._go(s.coordSys)
        r.surface = f
        return r

    def clearObscuration(s, unless=()):
        if s.name not in unless:
            s.obscuration = None


class Sf:
    """a surface: adding a perturbation gives the pair"""

    def __init__(s, *parts):
        s.parts = parts

    def __add__(s, o):
        return Sf(s, o)


LEAVES = ['Interface', 'RefractiveInterface', 'Mirror', 'Detector', 'Baffle', 'OPDScreen']


def build(b, kind, name, c, stop, **kw):
    kw = dict(name=name, coordSys=c, inMedium=Tag('m1'), outMedium=Tag('m2'), obscuration=Obs(), skip=True, custom=Tag('custom'), **kw)
    if stop:
        kw['stopSurface'] = Part('stop', cs('stop'))
    if kind == 'OPDScreen':
        kw['outMedium'] = kw['inMedium']
        return b.OPDScreen(Surf(), Tag('screen'), **kw)
    if kind not in ('Interface', 'OPDScreen'):
        kw.update(forwardCoating=Tag('f'), reverseCoating=Tag('r'))
    return getattr(b, kind)(Surf(), **kw)


def motions(u, A_, origin):
    """the documented operations of an element with axes A_ at origin: name -> (call, motion)"""
    d = vec('d')
    q = mat('q')
    cen = vec('cen')
    C = cs('t')
    AqA = mm(mm(A_, rows(q)), tr(A_))
    z = [0, 0, 0]
    D, Q = list(d), rows(q)
    gC = addv(mulv(rows(C.rot), list(cen)), list(C.origin))
    return {
        'withGlobalShift': (lambda e: e.withGlobalShift(d), (None, None, D)),
        'withGlobalShift (list)': (lambda e: e.withGlobalShift(list(d)), (None, None, D)),
        'withLocalShift': (lambda e: e.withLocalShift(d), (None, None, mulv(A_, D))),
        'withGlobalRotation': (lambda e: e.withGlobalRotation(q), (Q, z, z)),
        'withGlobalRotation, centre': (lambda e: e.withGlobalRotation(q, rotCenter=cen), (Q, list(cen), z)),
        'withGlobalRotation, centre and system': (lambda e: e.withGlobalRotation(q, rotCenter=cen, coordSys=C), (Q, gC, z)),
        'withLocalRotation': (lambda e: e.withLocalRotation(q), (AqA, origin, z)),
        'withLocalRotation, centre': (lambda e: e.withLocalRotation(q, rotCenter=cen), (AqA, addv(mulv(A_, list(cen)), origin), z)),
        'withLocalRotation, centre and system': (lambda e: e.withLocalRotation(q, rotCenter=cen, coordSys=C), (AqA, gC, z)),
    }


def u_leaf(kind):
    def go(u):
        w, b = begin(u)
        for stop in (0, 1):
            c0 = cs('own')
            e = build(b, kind, 'e', c0, stop)
            before = dict(e.__dict__)
            s0 = e.stopSurface.coordSys if stop else None
            o0, r0 = list(c0.origin), rows(c0.rot)
            for nm, (f, m) in motions(u, r0, o0).items():
                n = f(e)
                u.post(nm + ': a new object', tm.const(n is not e))
                attrs(u, nm, e, n)
                moved_by(u, nm, c0, n.coordSys, m)
                if stop:
                    moved_by(u, nm + ', stop surface', s0, n.stopSurface.coordSys, m)
                u.post(nm + ': the original is left alone', tm.const(all(e.__dict__.get(k) is v for k, v in before.items())
                                                                     and (not stop or e.stopSurface.coordSys is s0)))
                peq(u, nm + ': the original stays', [list(c0.origin), list(pysym.oarr(c0.rot).ravel())][0], o0)
                peq(u, nm + ': the original does not turn', rows(c0.rot), r0)
    return go


def u_compound(n):
    """n parts, each known by the contract of an element"""
    def go(u):
        w, b = begin(u)
        for kind in ('CompoundOptic', 'Lens') if n == 2 else ('CompoundOptic',):
            for stop in (0, 1):
                c0 = cs('own')
                ps = [Part('P%d' % k, cs('p%d' % k)) for k in range(n)]
                for p in ps:
                    p.outMedium = p.inMedium = ps[0].inMedium
                pc = [p.coordSys for p in ps]
                kw = dict(stopSurface=Part('stop', cs('stop'))) if stop else {}
                e = getattr(b, kind)(ps, name='o', coordSys=c0, inMedium=Tag('m1'), outMedium=Tag('m2'), custom=Tag('c'), **kw)
                if n and stop:
                    e['P0']          # names have been looked up before
                before = dict(e.__dict__)
                s0 = e.stopSurface.coordSys if stop else None
                o0, r0 = list(c0.origin), rows(c0.rot)
                for nm, (f, m) in motions(u, r0, o0).items():
                    x = f(e)
                    u.post(nm + ': a new object', tm.const(x is not e))
                    attrs(u, nm, e, x)
                    moved_by(u, nm, c0, x.coordSys, m)
                    if stop:
                        moved_by(u, nm + ', stop surface', s0, x.stopSurface.coordSys, m)
                    ok = len(x.items) == n
                    u.post(nm + ': as many parts', tm.const(ok))
                    if not ok:
                        raise PathEnd()
                    for k in range(n):
                        moved_by(u, nm + ': every part', pc[k], x.items[k].coordSys, m)
                        attrs(u, nm + ': every part', ps[k], x.items[k])
                        u.post(nm + ': names find the moved parts', tm.const(x['P%d' % k] is x.items[k]))
                    u.post(nm + ': the original is left alone', tm.const(all(e.__dict__.get(k) is v for k, v in before.items())
                                                                         and all(p.coordSys is c for p, c in zip(ps, pc))))
    return go


# trees: (name, [children]) ; names share prefixes
TREES = [
    ('T', [('M1', []), ('M12', []), ('M1_cell', [])]),
    ('M1', [('M1_cell', []), ('L', [('L1', []), ('L12', [])]), ('L2', [('L22', [])]), ('D', [])]),
    ('A', [('AB', [('B', []), ('AB2', [('A2', [])])]), ('ABC', []), ('B2', [])]),
    ('S', [('X', [('E', []), ('F', [])]), ('Y', [('E', []), ('G', [('F', [])])])]),
    ('O', [('L', [('L1', []), ('L1x', []), ('L1y', [('L', [])])])]),
]


def u_names(tree):
    def go(u):
        w, b = begin(u)
        count = [0]
        mv = dict()

        def make(t):
            nm, ch = t
            count[0] += 1
            c = cs('c%d_' % count[0])
            if not ch:
                return Part(nm, c)
            return b.CompoundOptic([make(x) for x in ch], name=nm, coordSys=c)
        o = make(tree)
        pos = {}

        def walk(x, p, q):
            q = q + x.name
            pos[q] = p
            for k, y in enumerate(getattr(x, 'items', ())):
                walk(y, p + (k,), q + '.')
        walk(o, (), '')

        def at(x, p):
            for k in p:
                x = x.items[k]
            return x
        cnt = {}
        for q in pos:
            t = q.split('.')
            for k in range(len(t)):
                cnt.setdefault('.'.join(t[k:]), []).append(q)
        names = {s: v[0] for s, v in cnt.items() if len(v) == 1}
        names.update({q: q for q in pos})
        for s, v in cnt.items():
            if len(v) > 1 and s not in pos:
                u.post('an ambiguous name finds nothing', tm.const(isfail(lambda: o[s], ValueError)))
        for f in (lambda: o['no such'], lambda: o.withGloballyShiftedOptic('no such', [0, 0, 1]), lambda: o.withLocallyShiftedOptic('no such', [0, 0, 1]),
                  lambda: o.withLocallyRotatedOptic('no such', NP.eye(3))):
            u.post('an unknown name is refused', tm.const(isfail(f, ValueError)))
        d, q_, cen, C = vec('d'), mat('q'), vec('cen'), cs('t')
        D, Q, z = list(d), rows(q_), [0, 0, 0]
        cs0 = {p: at(o, p).coordSys for p in pos.values()}
        for nm, qn in names.items():
            p = pos[qn]
            t = at(o, p)
            u.post('a name finds the part it names', tm.const(o[nm] is t))
            A_, o_ = rows(t.coordSys.rot), list(t.coordSys.origin)
            AqA = mm(mm(A_, Q), tr(A_))
            gC = addv(mulv(rows(C.rot), list(cen)), list(C.origin))
            for k, (f, m) in {
                    'withGloballyShiftedOptic': (lambda: o.withGloballyShiftedOptic(nm, d), (None, None, D)),
                    'withLocallyShiftedOptic': (lambda: o.withLocallyShiftedOptic(nm, d), (None, None, mulv(A_, D))),
                    'withLocallyRotatedOptic': (lambda: o.withLocallyRotatedOptic(nm, q_), (AqA, o_, z)),
                    'withLocallyRotatedOptic, centre': (lambda: o.withLocallyRotatedOptic(nm, q_, rotCenter=cen), (AqA, addv(mulv(A_, list(cen)), o_), z)),
                    'withLocallyRotatedOptic, centre and system': (lambda: o.withLocallyRotatedOptic(nm, q_, rotCenter=cen, coordSys=C), (AqA, gC, z)),
            }.items():
                n = f()
                for p2 in pos.values():
                    inside = p2[:len(p)] == p
                    x, y = at(o, p2), at(n, p2)
                    u.post(k + ': same parts in the same places', tm.const(x.name == y.name and len(getattr(x, 'items', ())) == len(getattr(y, 'items', ()))))
                    if type(x) is not Part or inside:
                        attrs(u, k, x, y)
                    moved_by(u, k + (': the parts of the one named' if inside else ': the other parts'), cs0[p2], y.coordSys, m if inside else None)
                    u.post(k + ': the original is left alone', tm.const(x.coordSys is cs0[p2]))
                u.post(k + ': the name finds the moved part', tm.const(n[nm] is at(n, p)))
    return go


def u_leaf_surface(kind):
    def go(u):
        w, b = begin(u)
        for stop in (0, 1):
            e = build(b, kind, 'e', cs('own'), stop)
            e.surface = Sf()
            before = dict(e.__dict__)
            t, p = Sf(), Sf()
            for nm, n, want in (('withSurface', e.withSurface(t), lambda f: f is t),
                                ('withPerturbedSurface', e.withPerturbedSurface(p),
                                 lambda f: len(f.parts) == 2 and f.parts[0] is before['surface'] and f.parts[1] is p)):
                u.post(nm + ': a new object', tm.const(n is not e))
                u.post(nm + ': the new surface', tm.const(bool(want(n.surface))))
                attrs(u, nm, e, n, but=('surface',))
                u.post(nm + ': does not move', tm.const(n.coordSys is e.coordSys))
                u.post(nm + ': the stop stays', tm.const(not stop or n.stopSurface is e.stopSurface))
                u.post(nm + ': the original is left alone', tm.const(all(e.__dict__.get(k) is v for k, v in before.items())))
            for unless, kept in (((), False), (('e',), True), (['other', 'e'], True), (['other'], False), (('ee',), False)):
                e = build(b, kind, 'e', cs('own'), stop)
                before = dict(e.__dict__)
                e.clearObscuration(unless=unless)
                u.post('clearObscuration removes the obscuration unless told to keep it',
                       tm.const((e.obscuration is before['obscuration']) if kept else e.obscuration is None))
                u.post('clearObscuration changes nothing else', tm.const(all(e.__dict__.get(k) is v for k, v in before.items() if k != 'obscuration')))
    return go


def u_names_edit(tree):
    """surfaces replaced, elements inserted and removed, by name"""
    def go(u):
        w, b = begin(u)
        n_ = [0]

        def make(t):
            nm, ch = t
            n_[0] += 1
            c = cs('c%d_' % n_[0])
            if not ch:
                p = Part(nm, c)
                p.surface, p.obscuration = Sf(), Obs()
                return p
            return b.CompoundOptic([make(x) for x in ch], name=nm, coordSys=c, custom=Tag('c'), stopSurface=Part('stop', cs('stop')))
        pos = {}

        def walk(x, p, q):
            q = q + x.name
            pos[q] = p
            for k, y in enumerate(getattr(x, 'items', ())):
                walk(y, p + (k,), q + '.')
        o = make(tree)
        walk(o, (), '')

        def at(x, p):
            for k in p:
                x = x.items[k]
            return x

        def look(x):
            """every object in the tree, with what it holds"""
            return [x, dict(x.__dict__), [look(y) for y in getattr(x, 'items', ())]]

        def same(x, l):
            return x is l[0] and all(x.__dict__.get(k) is v for k, v in l[1].items()) and len(getattr(x, 'items', ())) == len(l[2]) and \
                all(same(y, m) for y, m in zip(getattr(x, 'items', ()), l[2]))
        cnt = {}
        for q in pos:
            t = q.split('.')
            for k in range(len(t)):
                cnt.setdefault('.'.join(t[k:]), []).append(q)
        names = {s: v[0] for s, v in cnt.items() if len(v) == 1}
        names.update({q: q for q in pos})
        f, pt, item = Sf(), Sf(), Part('NEW', cs('n'))
        for looked in (0, 1):
            o = make(tree)
            if looked:
                o[tree[0]]           # the table of names has been built before
            l = look(o)
            for nm, g in (('withSurface', lambda m: o.withSurface(m, f)), ('withPerturbedSurface', lambda m: o.withPerturbedSurface(m, pt)),
                          ('withInsertedOptic', lambda m: o.withInsertedOptic(m, item)), ('withRemovedOptic', lambda m: o.withRemovedOptic(m))):
                for m in ['no such', ''] + [s for s, v in cnt.items() if len(v) > 1 and s not in pos]:
                    u.post(nm + ': an unknown or ambiguous name is refused', tm.const(isfail(lambda: g(m), (ValueError, KeyError))))
            for m, q in names.items():
                p = pos[q]
                t = at(o, p)
                if isinstance(t, Part):
                    for nm, n, want in (('withSurface', o.withSurface(m, f), lambda x: x is f),
                                        ('withPerturbedSurface', o.withPerturbedSurface(m, pt),
                                         lambda x: len(x.parts) == 2 and x.parts[0] is t.surface and x.parts[1] is pt)):
                        for q2, p2 in pos.items():
                            x, y = at(o, p2), at(n, p2)
                            u.post(nm + ': same parts in the same places', tm.const(x.name == y.name and len(getattr(x, 'items', ())) == len(getattr(y, 'items', ()))))
                            attrs(u, nm, x, y, but=('surface',) if p2 == p else ())
                            u.post(nm + ': nothing moves', tm.const(x.coordSys is y.coordSys and
                                                                    x.__dict__.get('stopSurface') is y.__dict__.get('stopSurface')))
                            if p2 == p:
                                u.post(nm + ': the new surface', tm.const(bool(want(y.surface))))
                        u.post(nm + ': the name finds the new part', tm.const(n[m] is at(n, p)))
                if len(p) == 1:
                    k = p[0]
                    for nm, n, want in (('withInsertedOptic', o.withInsertedOptic(m, item), list(o.items[:k]) + [item] + list(o.items[k:])),
                                        ('withRemovedOptic', o.withRemovedOptic(m), list(o.items[:k]) + list(o.items[k+1:]))):
                        u.post(nm + ': exactly the parts asked for, in order', tm.const(
                            len(n.items) == len(want) and all(x is y for x, y in zip(n.items, want))))
                        attrs(u, nm, o, n, but=('path',))
                        u.post(nm + ': the rays follow the new parts', tm.const(list(n.path) == [z for x in want for z in x.path]))
                        u.post(nm + ': stays in place', tm.const(n.coordSys is o.coordSys and n.stopSurface is o.stopSurface))
                        full = {tree[0]: n}
                        full.update({q2: at(o, p2) for q2, p2 in pos.items() if p2 and (nm == 'withInsertedOptic' or p2[0] != k)})
                        if nm == 'withInsertedOptic':
                            full[tree[0] + '.NEW'] = item
                        u.post(nm + ': names find the new parts', tm.const(all(n[z] is y for z, y in full.items())))
                        if nm == 'withRemovedOptic':
                            u.post(nm + ': the old name finds nothing', tm.const(isfail(lambda: n[q], ValueError)))
                elif len(p) > 1:
                    # known finding nested-insert: below the first level nothing happens
                    for nm, n in (('withInsertedOptic', o.withInsertedOptic(m, item)), ('withRemovedOptic', o.withRemovedOptic(m))):
                        par = at(n, p[:-1])
                        opar = at(o, p[:-1])
                        k = p[-1]
                        want = list(opar.items[:k]) + ([item] + list(opar.items[k:]) if nm == 'withInsertedOptic' else list(opar.items[k+1:]))
                        did = len(par.items) == len(want) and all(x is y for x, y in zip(par.items, want))
                        dev = len(n.items) == len(o.items) and all(x is y for x, y in zip(n.items, o.items))
                        u.post(nm + ': below the first level it works, or does nothing as recorded', tm.const(did or dev))
                u.post('the original is left alone', tm.const(same(o, l)))
            for unless in ((), tuple(s[0] for s in tree[1][:1]), ('no such',)):
                o = make(tree)
                parts = [(at(o, p), at(o, p).obscuration) for q, p in pos.items() if isinstance(at(o, p), Part)]
                o.clearObscuration(unless=unless)
                u.post('clearObscuration clears every part but the ones named', tm.const(all(
                    x.obscuration is (ob if x.name in unless else None) for x, ob in parts)))
    return go


def turned(u, what, got, A_, Q):
    """(A Q A^T) A = A Q, for orthonormal A: got = A Q (1 + E) identically, with E = A^T A - 1, which is zero"""
    one = [[1 if i == j else 0 for j in range(3)] for i in range(3)]
    AQ, AA = mm(A_, Q), mm(tr(A_), A_)
    peq(u, what + ': identity', got, mm(AQ, AA))
    peq(u, what + ': orthonormal', AA, one)
    G = rows(mat('G'))
    u2 = [[tm.eq(term(G[i][j]), ONE if i == j else ZERO) for j in range(3)] for i in range(3)]
    for i in range(3):
        for j in range(3):
            u.post(what + ': conclusion', tm.implies(tm.land(*[x for r in u2 for x in r]), tm.eq(term(mm(AQ, G)[i][j]), term(AQ[i][j]))))


def u_back(u):
    """lemma: the motion there and the motion back, with the same arguments reversed, compose to nothing"""
    w, b = begin(u)
    c = cs('own')
    orth(u, c.rot)
    o0, r0 = list(c.origin), rows(c.rot)
    d, q = vec('d'), mat('q')
    orth(u, q)
    nd = NP.array([neg(x) for x in d])
    qt = NP.array(tr(rows(q)))
    for nm, x in (('shift', c.shiftGlobal(d).shiftGlobal(nd)), ('local shift', c.shiftLocal(d).shiftLocal(nd)),
                  ('global rotation', c.rotateGlobal(q).rotateGlobal(qt))):
        peq(u, nm + ' there and back: origin', list(x.origin), o0)
        peq(u, nm + ' there and back: axes', rows(x.rot), r0)
    x = c.rotateLocal(q)
    turned(u, 'rotation: axes', rows(x.rot), r0, rows(q))
    peq(u, 'rotation about the own origin: origin', list(x.origin), o0)
    # the axes after the rotation are orthonormal again, and m stands for them
    one = [[1 if i == j else 0 for j in range(3)] for i in range(3)]
    m = mm(r0, rows(q))
    peq(u, 'the axes stay orthonormal', mm(tr(m), m), one)
    peq(u, 'and back they are the old ones', mm(m, tr(rows(q))), r0)
    M = cs('m')
    orth(u, M.rot)
    y = M.rotateLocal(qt)
    turned(u, 'rotation back: axes', rows(y.rot), rows(M.rot), tr(rows(q)))
    peq(u, 'rotation back about the own origin: origin', list(y.origin), list(M.origin))


def u_rigid(u):
    """lemma: one rigid motion keeps distances and relative orientations"""
    w, b = begin(u)
    q = mat('q')
    orth(u, q)
    cen = vec('cen')
    x, y = cs('x'), cs('y')
    X, Y = x.rotateGlobal(q, cen), y.rotateGlobal(q, cen)
    dot = lambda p, r: add(add(mul(p[0], r[0]), mul(p[1], r[1])), mul(p[2], r[2]))
    s, S_ = subv(list(x.origin), list(y.origin)), subv(list(X.origin), list(Y.origin))
    peq(u, 'distance', dot(S_, S_), dot(s, s))
    peq(u, 'relative position, seen from one of them', mulT(rows(X.rot), S_), mulT(rows(x.rot), s))
    peq(u, 'relative orientation', mm(tr(rows(X.rot)), rows(Y.rot)), mm(tr(rows(x.rot)), rows(y.rot)))


def units(tier='quick'):
    us = []
    W = ['withGlobalShift', 'withLocalShift', 'withGlobalRotation', 'withLocalRotation']
    for k in LEAVES:
        us.append(punit('%s, moved' % k, [OP + 'Interface.' + x for x in W], u_leaf(k)))
    for n in range(4):
        d = punit('compound of %d parts, moved' % n, [OP + 'CompoundOptic.' + x for x in W] + [OP + 'CompoundOptic.__init__'], u_compound(n))
        d.bounded = '%d parts (each of any kind and depth, by contract)' % n
        us.append(d)
    for k, t in enumerate(TREES):
        d = punit('named parts, moved (tree %d)' % k, [OP + 'CompoundOptic.' + x for x in ('withGloballyShiftedOptic', 'withLocallyShiftedOptic',
                  'withLocallyRotatedOptic', 'itemDict', '_names', '__getitem__')], u_names(t))
        d.bounded = 'one tree of names; every name in it; any motion'
        us.append(d)
    for k in LEAVES:
        us.append(punit('%s, new surface' % k, [OP + 'Interface.' + x for x in ('withSurface', 'withPerturbedSurface', 'clearObscuration')] +
                        [OP + 'Interface.__init__'], u_leaf_surface(k)))
    for k, t in enumerate(TREES):
        d = punit('named parts, edited (tree %d)' % k, [OP + 'CompoundOptic.' + x for x in (
            'withSurface', 'withPerturbedSurface', 'withInsertedOptic', 'withRemovedOptic', 'clearObscuration')], u_names_edit(t))
        d.bounded = 'one tree of names; every name in it; any surface, any element'
        us.append(d)
    us.append(punit('there and back', ['(lemma) inverse motions'], u_back))
    us.append(punit('rigid', ['(lemma) rigid motions'], u_rigid))
    return us
