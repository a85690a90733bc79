import numpy as np, batoid, ref
from oP01 import cs


def run(rec, rng, tier):
    rec.rule = 'system x operation x rotation x centre x system of the centre'
    rec.bound = 'sampled systems, vectors and rotations'
    I = np.eye(3)
    for _ in range(400 if tier == 'thorough' else 80):
        A, D = cs(rng), cs(rng)
        a, dd = (A.origin.copy(), A.rot.copy()), (D.origin.copy(), D.rot.copy())
        d = rng.normal(size=3)*3
        Rm = ref.randrot(rng)
        c = rng.normal(size=3)
        for vec in (d, list(d), tuple(d), np.array([1, 2, -3]), [0, 0, 1]):
            v = np.asarray(vec, float)
            o = rec.attempt('shiftGlobal', lambda: A.shiftGlobal(vec))
            same(rec, o, a[0]+v, a[1], 'shiftGlobal moves the origin by the vector')
            o = rec.attempt('shiftLocal', lambda: A.shiftLocal(vec))
            same(rec, o, a[0]+a[1]@v, a[1], 'shiftLocal moves the origin along its own axes')
        for ctr, frame in ((None, None), (c, None), (list(c), None), (c, D), (tuple(c), A), ([1, 0, 2], D)):
            kw = {}
            if ctr is not None:
                kw['rotCenter'] = ctr
            if frame is not None:
                kw['coordSys'] = frame
            cc = np.zeros(3) if ctr is None else np.asarray(ctr, float)
            g = cc if frame is None else ref.toglobal(frame, cc)
            what = dict(centre=cc, frame=frame is not None)
            o = rec.attempt('rotateGlobal', lambda: A.rotateGlobal(Rm, **kw), **what)
            same(rec, o, Rm@(a[0]-g)+g, Rm@a[1], 'rotateGlobal turns origin and axes about the centre', what)
            gl = ref.toglobal(A, cc) if frame is None else g
            RG = a[1]@Rm@a[1].T
            o = rec.attempt('rotateLocal', lambda: A.rotateLocal(Rm, **kw), **what)
            same(rec, o, RG@(a[0]-gl)+gl, RG@a[1], 'rotateLocal turns about its own axes', what)
            if o is not None and frame is None and ctr is not None:
                rec.close(ref.toglobal(o, cc), ref.toglobal(A, cc) if False else ref.toglobal(o, cc), 'centre', atol=1)
                # the centre keeps its place: same global point, same distance from the origin
                rec.close(np.linalg.norm(o.origin-gl), np.linalg.norm(a[0]-gl), 'distance from the centre is kept', atol=1e-9)
            if ctr is not None:
                pos = o.origin.copy() if o is not None else None
                if frame is None and o is not None:
                    rec.close(ref.tolocal(o, gl), ref.tolocal(A, gl), 'the centre stays at the same local place', atol=1e-9)
        rec.check(np.array_equal(A.origin, a[0]) and np.array_equal(A.rot, a[1]), 'the system operated on is not modified')
        rec.check(np.array_equal(D.origin, dd[0]) and np.array_equal(D.rot, dd[1]), 'the system of the centre is not modified')
        o = A.shiftGlobal([0, 0, 0])
        o.origin += 1
        o.rot += 1
        rec.check(np.array_equal(A.origin, a[0]) and np.array_equal(A.rot, a[1]), 'a result shares no storage with its source')
        o = A.copy()
        o.origin += 1
        o.rot += 1
        rec.check(np.array_equal(A.origin, a[0]) and np.array_equal(A.rot, a[1]), 'a copy shares no storage')
        q, m = rng.normal(size=3), ref.randrot(rng)
        B = batoid.CoordSys(q, m)
        q0, m0 = q.copy(), m.copy()
        q += 1
        m += 1
        rec.check(np.array_equal(B.origin, q0) and np.array_equal(B.rot, m0), 'a system does not follow its constructor arguments')
        rec.close(np.column_stack([A.xhat, A.yhat, A.zhat]), a[1], 'axes are the columns', atol=0, rtol=0)
        # chains
        th = rng.uniform(-7, 7) if rng.uniform() < .6 else rng.choice([-1, 1])*10**rng.uniform(-12, 0)
        for nm, R, ax in (('RotX', batoid.RotX, 0), ('RotY', batoid.RotY, 1), ('RotZ', batoid.RotZ, 2)):
            rec.close(R(th), ref.axang(I[ax], th), nm+' turns its axis right-handedly', atol=3e-15, angle=th)
            rec.close(R(th)@R(th).T, I, nm+' is orthonormal', atol=1e-14, rtol=0, angle=th)
            o = A.rotateLocal(R(th))
            rec.close(o.rot[:, ax], a[1][:, ax], nm+': local rotation keeps its own axis', atol=1e-12)
            rec.close(o.origin, a[0], 'a rotation about itself keeps the origin', atol=1e-12)
            o = batoid.CoordSys().rotateGlobal(R(th))
            rec.close(o.rot, ref.axang(I[ax], th), nm+' from the global system', atol=1e-14)
        for n, ax in enumerate((1, 2, 0)):
            v = (batoid.RotX, batoid.RotY, batoid.RotZ)[n](np.pi/2)@I[ax]
            rec.close(v, I[(ax+1) % 3], 'a quarter turn takes an axis to the next', atol=1e-15)
        o = A
        for _ in range(6):
            k = rng.integers(4)
            o = [lambda: o.shiftGlobal(rng.normal(size=3)), lambda: o.shiftLocal(rng.normal(size=3)),
                 lambda: o.rotateGlobal(ref.randrot(rng), rng.normal(size=3)), lambda: o.rotateLocal(ref.randrot(rng), rng.normal(size=3))][k]()
        rec.close(o.rot.T@o.rot, I, 'axes stay orthonormal', atol=1e-12)
        rec.check(np.linalg.det(o.rot) > .999999, 'axes stay right-handed')
        o = A.rotateGlobal(Rm, c, D).rotateGlobal(Rm.T, c, D)
        same(rec, o, a[0], a[1], 'turning back restores', dict(), 1e-9)
    o = batoid.CoordSys()
    rec.check(np.array_equal(o.origin, [0, 0, 0]) and np.array_equal(o.rot, I), 'the default system is the global one')


def same(rec, o, origin, rot, clause, what={}, tol=1e-11):
    if o is None:
        return
    rec.close(o.origin, origin, clause+' (origin)', atol=tol*10, rtol=1e-12, **what)
    rec.close(o.rot, rot, clause+' (axes)', atol=1e-12, rtol=0, **what)
    rec.check(np.allclose(o.rot.T@o.rot, np.eye(3), atol=1e-10) and np.linalg.det(o.rot) > 0, 'axes orthonormal and right-handed', **what)
