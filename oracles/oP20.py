import numpy as np, batoid, ref, opt


def frame(o):
    return o.coordSys.origin.copy(), o.coordSys.rot.copy()


def snapshot(o):
    """everything observable about a tree, by qualified position"""
    out = []

    def go(x, pos):
        d = {k: v for k, v in x.__dict__.items() if k not in ('items', 'coordSys', 'itemDict', '_names', 'R_outer', 'R_inner', 'stopSurface')}
        out.append((pos, type(x), x.name, frame(x), d, frame(x.stopSurface) if 'stopSurface' in x.__dict__ else None))
        for i, c in enumerate(getattr(x, 'items', ())):
            go(c, pos+(i,))
    go(o, ())
    return out


def deepeq(a, b):
    return a is b or (type(a) == type(b) and (np.array_equal(a, b) if isinstance(a, np.ndarray) else a == b))


def compare(rec, before, after, inside, R, c, t, what, tol=1e-11):
    """after = before with the parts in `inside` moved by x -> R(x-c)+c+t"""
    if not rec.check(len(before) == len(after) and all(p[0] == q[0] and p[1] == q[1] and p[2] == q[2] for p, q in zip(before, after)), 'the tree keeps its shape, kinds and names', **what):
        return
    for p, q in zip(before, after):
        o, r = p[3]
        if inside(p[0]):
            o, r = R@(o-c)+c+t, R@r
            cl = 'every part of the subtree moves by the same rigid motion'
        else:
            cl = 'every other part stays'
        rec.close(q[3][0], o, cl+' (origin)', atol=tol if inside(p[0]) else 0, rtol=0, part=p[2], **what)
        rec.close(q[3][1], r, cl+' (axes)', atol=tol if inside(p[0]) else 0, rtol=0, part=p[2], **what)
        keys = set(p[4]) | set(q[4])
        diff = [k for k in keys if not (k in p[4] and k in q[4] and deepeq(p[4][k], q[4][k]))]
        rec.check(not diff, 'nothing but the position changes', part=p[2], attributes=diff, **what)
        if p[5] is not None:
            o, r = p[5]
            if inside(p[0]):
                o, r = R@(o-c)+c+t, R@r
            rec.check(q[5] is not None, 'the stop surface is kept', part=p[2], **what)
            if q[5] is not None:
                rec.close(q[5][0], o, 'the stop surface moves with its element', atol=tol, rtol=0, part=p[2], **what)
                rec.close(q[5][1], r, 'the stop surface moves with its element', atol=tol, rtol=0, part=p[2], **what)


def positions(o):
    """qualified name -> position in the tree"""
    out = {}

    def go(x, pos, pre):
        q = pre+x.name
        out.setdefault(q, pos)
        for i, c in enumerate(getattr(x, 'items', ())):
            go(c, pos+(i,), q+'.')
    go(o, (), '')
    return out


def at(o, pos):
    for i in pos:
        o = o.items[i]
    return o


def short(qs):
    """every unambiguous trailing name"""
    cnt = {}
    for q in qs:
        t = q.split('.')
        for k in range(len(t)):
            cnt.setdefault('.'.join(t[k:]), []).append(q)
    return {s: v[0] for s, v in cnt.items() if len(v) == 1}


def one(rec, rng, o, tier):
    pos = positions(o)
    qs = list(pos)
    if any('.' in x.name for _, x in opt.parts(o)):
        names = {q: q for q in qs}
    else:
        names = dict(short(qs), **{q: q for q in qs})
    for nm, q in names.items():
        g = rec.attempt('looking up a name', lambda: o[nm], name=nm, names=qs)
        if g is not None:
            rec.check(g is at(o, pos[q]), 'a name finds the part it names', name=nm, names=qs, found=getattr(g, 'name', None))
    rec.raises('unknown name', ValueError, lambda: o['no such part'])
    rec.raises('unknown name', ValueError, lambda: o.withGloballyShiftedOptic('no such part', [0, 0, 1.]))
    rec.raises('unknown name', ValueError, lambda: o.withLocallyShiftedOptic('no such part', [0, 0, 1.]))
    rec.raises('unknown name', ValueError, lambda: o.withLocallyRotatedOptic('no such part', np.eye(3)))
    before = snapshot(o)
    pick = [list(names)[k] for k in rng.permutation(len(names))[:6]]
    for nm in pick:
        q = names[nm]
        p0 = pos[q]
        tgt = at(o, p0)
        inside = lambda p: p[:len(p0)] == p0
        what = dict(name=nm, names=qs)
        dr = rng.normal(size=3)
        A, oo = tgt.coordSys.rot.copy(), tgt.coordSys.origin.copy()
        I, z = np.eye(3), np.zeros(3)
        S = lambda: [dr.copy(), dr.tolist(), tuple(dr)][rng.integers(3)]
        rot = ref.randrot(rng)
        cen = rng.normal(size=3)
        csc = ref.randcs(rng)
        gcen = csc.rot@cen+csc.origin
        ops = dict(
            gshift=(lambda: o.withGloballyShiftedOptic(nm, S()), I, z, dr),
            lshift=(lambda: o.withLocallyShiftedOptic(nm, S()), I, z, A@dr),
            lrot=(lambda: o.withLocallyRotatedOptic(nm, rot), A@rot@A.T, oo, z),
            lrotc=(lambda: o.withLocallyRotatedOptic(nm, rot, rotCenter=cen), A@rot@A.T, A@cen+oo, z),
            lrotcs=(lambda: o.withLocallyRotatedOptic(nm, rot, rotCenter=cen.tolist(), coordSys=csc), A@rot@A.T, gcen, z))
        for k, (fn, R, c, t) in ops.items():
            n = rec.attempt(k, fn, **what)
            if n is None:
                continue
            compare(rec, before, snapshot(n), inside, R, c, t, dict(what, op=k))
            compare(rec, before, snapshot(o), lambda p: False, I, z, z, dict(what, op=k+': the original'))
            # names still resolve
            g = rec.attempt('looking up a name in the result', lambda: n[nm], **what)
            rec.check(g is at(n, p0), 'names resolve to the same parts afterwards', op=k, **what)
            if rng.uniform() < .3:
                # a second perturbation on the result
                q2 = qs[rng.integers(len(qs))]
                m = rec.attempt('a second perturbation', lambda: n.withGloballyShiftedOptic(q2, S()), first=nm, second=q2)
                if m is not None:
                    compare(rec, snapshot(n), snapshot(m), lambda p: p[:len(pos[q2])] == pos[q2], I, z, dr, dict(what, op=k+' then shift', second=q2))
        # there and back
        d2 = np.round(dr*64)/64
        n = o.withGloballyShiftedOptic(nm, d2).withGloballyShiftedOptic(nm, -d2)
        compare(rec, before, snapshot(n), lambda p: True, I, z, z, dict(what, op='there and back'))
        n = o.withLocallyRotatedOptic(nm, rot).withLocallyRotatedOptic(nm, rot.T)
        compare(rec, before, snapshot(n), lambda p: True, I, z, z, dict(what, op='turned and back'))
    # the methods of an element itself, compound or not
    for p0 in [()]+[v for v in pos.values() if len(v)][:3]:
        x = at(o, p0)
        bx = snapshot(x)
        dr, rot, cen, csc = rng.normal(size=3), ref.randrot(rng), rng.normal(size=3), ref.randcs(rng)
        A, oo, I, z = x.coordSys.rot.copy(), x.coordSys.origin.copy(), np.eye(3), np.zeros(3)
        ops = dict(
            withGlobalShift=(lambda: x.withGlobalShift(dr), I, z, dr),
            withLocalShift=(lambda: x.withLocalShift(dr), I, z, A@dr),
            withGlobalRotation=(lambda: x.withGlobalRotation(rot), rot, z, z),
            withGlobalRotationC=(lambda: x.withGlobalRotation(rot, cen), rot, cen, z),
            withGlobalRotationCS=(lambda: x.withGlobalRotation(rot, cen, csc), rot, csc.rot@cen+csc.origin, z),
            withLocalRotation=(lambda: x.withLocalRotation(rot), A@rot@A.T, oo, z),
            withLocalRotationC=(lambda: x.withLocalRotation(rot, cen), A@rot@A.T, A@cen+oo, z),
            withLocalRotationCS=(lambda: x.withLocalRotation(rot, cen, csc), A@rot@A.T, csc.rot@cen+csc.origin, z))
        for k, (fn, R, c, t) in ops.items():
            n = rec.attempt(k, fn, kind=type(x).__name__)
            if n is not None:
                compare(rec, bx, snapshot(n), lambda p: True, R, c, t, dict(op=k, kind=type(x).__name__))
                compare(rec, bx, snapshot(x), lambda p: False, I, z, z, dict(op=k+': the original'))
    # equality of a moved system
    n = o.withGlobalShift([0, 0, 0.])
    rec.check(n == o and hash(n) == hash(o), 'a null shift gives an equal system')
    rec.check(o.withGlobalShift([0, 0, 1e-6]) != o, 'a shifted system is not equal')
    n = o.withGlobalShift([.5, 0, 0]).withGlobalShift([-.5, 0, 0])
    # surfaces
    lv = [(q, at(o, p)) for q, p in pos.items() if not hasattr(at(o, p), 'items')]
    q, x = lv[rng.integers(len(lv))]
    s = batoid.Paraboloid(7.5)
    n = rec.attempt('withSurface', lambda: o.withSurface(q, s), name=q)
    if n is not None:
        a, b = dict(positions(n)), before
        y = at(n, pos[q])
        rec.check(y.surface == s and y.coordSys == x.coordSys and y.name == x.name and y.inMedium == x.inMedium and type(y) == type(x), 'withSurface replaces the surface of the part named', name=q)
        rec.check(all(at(n, p) == at(o, p) for k, p in pos.items() if p != pos[q] and pos[q][:len(p)] != p), 'withSurface leaves the other parts alone', name=q)
    n = rec.attempt('withPerturbedSurface', lambda: o.withPerturbedSurface(q, s), name=q)
    if n is not None:
        rec.check(at(n, pos[q]).surface == batoid.Sum([x.surface, s]), 'withPerturbedSurface adds to the surface of the part named', name=q)
    compare(rec, before, snapshot(o), lambda p: False, np.eye(3), np.zeros(3), np.zeros(3), dict(op='surface replacement: the original'))


def run(rec, rng, tier):
    rec.rule = 'random element trees with adversarial names x perturbation entry points x targets x centres'
    rec.bound = 'depth <= 3, width <= 4; per-tree sampled targets'
    for k in range(150 if tier == 'thorough' else 22):
        o = opt.tree(rng, int(rng.integers(0, 3)))
        if any('.' in x.name for _, x in opt.parts(o)):
            continue
        one(rec, rng, o, tier)
    # repeated names in different branches: qualified names stay unambiguous
    for k in range(6):
        def mk(c, nm):
            return batoid.CompoundOptic([opt.leaf(rng, 'M', c.next()), opt.leaf(rng, 'M1', c.next()), opt.leaf(rng, 'D', c.next())], name=nm,
                                        coordSys=ref.randcs(rng))
        c = opt.Ctr()
        o = batoid.CompoundOptic([mk(c, 'A'), mk(c, 'AB'), opt.leaf(rng, 'M', c.next()),
                                  batoid.CompoundOptic([mk(c, 'A'), opt.leaf(rng, 'A_x', c.next())], name='B')], name='T')
        one(rec, rng, o, tier)
