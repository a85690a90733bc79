import numpy as np, batoid, warnings
from batoid import utils as U

NM = ['postel', 'zemax', 'gnomonic', 'stereographic', 'lambert', 'orthographic']


def ref(nm, u, v):
    """direction cosines by polar formulas"""
    u, v = np.asarray(u, float), np.asarray(v, float)
    r = np.hypot(u, v)
    ph = np.arctan2(v, u)
    if nm == 'zemax':
        a, b = np.tan(u), np.tan(v)
        g = 1/np.sqrt(1+a*a+b*b)
        return np.array([a*g, b*g, -g])
    th = {'postel': lambda: r, 'gnomonic': lambda: np.arctan(r), 'stereographic': lambda: 2*np.arctan(r/2),
          'lambert': lambda: 2*np.arcsin(r/2), 'orthographic': lambda: np.arcsin(r)}[nm]()
    return np.array([np.sin(th)*np.cos(ph), np.sin(th)*np.sin(ph), -np.cos(th)])


RAD = dict(postel=3.1, zemax=1.5, gnomonic=30., stereographic=30., lambert=1.99, orthographic=.999)


def fields(rng, nm, n):
    if nm == 'zemax':
        return rng.uniform(-1.5, 1.5, (2, n))
    r = RAD[nm]*rng.uniform(0, 1, n)**rng.choice([1, 3])
    ph = rng.uniform(0, 2*np.pi, n)
    return r*np.cos(ph), r*np.sin(ph)


def run(rec, rng, tier):
    rec.rule = 'projection x field angles over its domain incl. axis, axes and small angles x scalar/array/shape x named/generic entry'
    rec.bound = 'sampled field angles'
    for _ in range(200 if tier == 'thorough' else 40):
        for nm in NM:
            N = nm.capitalize()
            to, fr = getattr(U, nm+'ToDirCos'), getattr(U, 'dirCosTo'+N)
            u, v = fields(rng, nm, 24)
            u[0] = v[0] = 0.
            u[1] = 0.
            v[2] = 0.
            u[3], v[3] = 1e-5*rng.normal(size=2)
            what = dict(projection=nm)
            d = rec.attempt('to direction cosines', lambda: to(u.copy(), v.copy()), **what)
            if d is None:
                continue
            d = np.array(d)
            w = ref(nm, u, v)
            # lambert takes the cosine first: near the axis the sine keeps only half the digits
            rec.close(d, w, nm+': documented direction', atol=1e-13 if nm != 'lambert' else 1e-11/np.maximum(np.hypot(u, v), 1e-3), rtol=1e-11, u=u, v=v, **what)
            rec.close((d**2).sum(0), np.ones(24), nm+': unit length', atol=1e-13, rtol=0, **what)
            rec.close(d[:, 0], [0, 0, -1], 'on-axis field maps to the straight direction', atol=0, rtol=0, **what)
            k = d.copy()
            b = rec.attempt('back to field', lambda: fr(*d), **what)
            if b is not None:
                # precision of arccos/arcsin near the axis and the pole: error in the cosine of 1e-16
                tol = 3e-7 if nm != 'orthographic' else 1e-12
                cond = 1+np.hypot(u, v)**2 if nm in ('gnomonic', 'stereographic') else np.ones(24)
                r = np.hypot(u, v)
                if nm == 'postel':
                    cond = 1/np.maximum(np.sin(r), 1e-3)**2
                if nm == 'zemax':
                    cond = 1/np.minimum(np.cos(u), np.cos(v))**2
                ok = np.abs(np.array(b)-np.array([u, v])) <= np.minimum(tol, 3e-8+1e-13/np.maximum(r, 1e-9))*cond
                rec.count('inverse')
                if not np.all(ok):
                    j = np.where(~ok.all(0))[0][0]
                    rec.bad(nm+': converting back recovers the field', u=u[j], v=v[j], got=np.array(b)[:, j], **what)
                rec.close(np.array(b)[:, 0], [0, 0], 'the straight direction maps to the on-axis field', atol=0, rtol=0, **what)
            rec.check(np.array_equal(d, k), 'converting does not change its input', **what)
            # directions first
            th, ph = rng.uniform(0, 1.4, 16), rng.uniform(0, 2*np.pi, 16)
            e = np.array([np.sin(th)*np.cos(ph), np.sin(th)*np.sin(ph), -np.cos(th)])
            f = rec.attempt('to field', lambda: fr(*e), **what)
            if f is not None:
                g = np.array(to(*f))
                rec.close(g, e, nm+': direction to field and back', atol=1e-7, rtol=0, **what)
            # scalars, shapes, generic entry points
            for j in (0, 1, 2, 3, 7):
                s = rec.attempt('scalar', lambda: to(float(u[j]), float(v[j])), **what)
                if s is not None:
                    rec.close(np.array(s, float), d[:, j], nm+': scalar agrees with array', atol=1e-15, rtol=1e-14, **what)
                    q = rec.attempt('scalar back', lambda: fr(*[float(a) for a in s]), **what)
                    if q is not None and b is not None:
                        rec.close(np.array(q, float), np.array(b)[:, j], nm+': scalar agrees with array (back)', atol=1e-9, rtol=1e-9, **what)
                s = rec.attempt('0-d arrays', lambda: to(np.array(u[j]), np.array(v[j])), **what)
                if s is not None:
                    rec.close(np.array(s, float), d[:, j], nm+': 0-d arrays agree', atol=1e-15, rtol=1e-14, **what)
            s = rec.attempt('2-d arrays', lambda: to(u.reshape(4, 6), v.reshape(4, 6)), **what)
            rec.close(np.array(s), d.reshape(3, 4, 6), nm+': 2-d arrays', atol=1e-15, rtol=1e-14, **what)
            s = rec.attempt('one-element arrays', lambda: to(u[:1], v[:1]), **what)
            rec.close(np.ravel(s), d[:, 0], nm+': one-element arrays', atol=0, rtol=0, **what)
            s = rec.attempt('generic', lambda: batoid.utils.fieldToDirCos(u, v, projection=nm), **what)
            rec.close(np.array(s), d, 'generic entry dispatches to the projection named', atol=0, rtol=0, **what)
            if b is not None:
                s = rec.attempt('generic back', lambda: batoid.utils.dirCosToField(*d, projection=nm), **what)
                rec.close(np.array(s), np.array(b), 'generic entry dispatches to the projection named (back)', atol=0, rtol=0, **what)
            s = rec.attempt('integers', lambda: to(np.array([0, 1]), np.array([0, 0])) if nm != 'orthographic' else to(np.array([0, 0]), np.array([0, 0])), **what)
            if s is not None:
                rec.close(np.array(s, float), ref(nm, [0., 1. if nm != 'orthographic' else 0.], [0., 0.]), nm+': integer field angles', atol=1e-13, **what)
        d = batoid.utils.fieldToDirCos(u*.1, v*.1)
        rec.close(np.array(d), ref('postel', u*.1, v*.1), 'the default projection is Postel', atol=1e-13)
        rec.close(np.array(batoid.utils.dirCosToField(*d)), np.array([u, v])*.1, 'the default projection is Postel (back)', atol=1e-7)
    rec.raises('unknown projection', ValueError, lambda: U.fieldToDirCos(.1, .1, projection='mercator'))
    rec.raises('unknown projection', ValueError, lambda: U.dirCosToField(0., 0., -1., projection='mercator'))
