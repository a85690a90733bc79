import numpy as np, batoid, ref


def run(rec, rng, tier):
    rec.rule = 'medium kind x random parameters x wavelengths incl. every table entry, between, outside'
    rec.bound = 'sampled parameters and wavelengths'
    for _ in range(200 if tier == 'thorough' else 40):
        for nm, m, f in ref.media(rng):
            w = rng.uniform(300e-9, 1100e-9, 24)
            if nm == 'Table':
                w = np.concatenate([w, m.wavelengths, [100e-9, 2e-6, m.wavelengths[0]*(1-1e-9), m.wavelengths[-1]*(1+1e-9),
                                                       m.wavelengths[0]*(1+1e-9), m.wavelengths[-1]*(1-1e-9)]])
            check(rec, nm, m, f, w)
        table(rec, rng)
    params(rec, rng)


def check(rec, nm, m, f, w):
    what = dict(medium=repr(m))
    g = rec.attempt('index of an array', lambda: m.getN(w), **what)
    if g is None:
        return
    rec.close(g, f(w), nm+': the documented index', atol=1e-13, rtol=1e-12, w=w, **what)
    for i in range(0, len(w), 5):
        s = rec.attempt('index of a scalar', lambda: m.getN(float(w[i])), **what)
        rec.close(s, f(w[i]), nm+': scalar', atol=1e-13, rtol=1e-12, **what)
        rec.check(np.ndim(s) == 0, nm+': a scalar wavelength has a scalar index', **what)
        rec.close(m.getN(w[i:i+1]), f(w[i:i+1]), nm+': one-element array', atol=1e-13, rtol=1e-12, **what)
    W = w[:24]
    for lay, a in dict(c=W.reshape(4, 6), f=np.asfortranarray(W.reshape(4, 6)), t=W.reshape(4, 6).T, step=np.repeat(W, 2)[::2],
                       rev=W[::-1], list=W.tolist(), d3=W.reshape(2, 3, 4)).items():
        g = rec.attempt('index of any layout', lambda: m.getN(a), layout=lay, **what)
        if g is not None:
            rec.close(g, f(np.asarray(a)), nm+': layout '+lay, atol=1e-13, rtol=1e-12, **what)
    w32 = W.astype(np.float32)
    g = rec.attempt('index of float32', lambda: m.getN(w32), **what)
    if g is not None:
        rec.close(g, f(w32.astype(float)), nm+': float32', atol=1e-12, rtol=1e-12, **what)
    rec.check(np.shape(m.getN(np.zeros(0)+1)) == (0,), nm+': empty array', **what)


def table(rec, rng):
    n = int(rng.choice([2, 3, 4, 17]))
    ws = np.sort(rng.uniform(300e-9, 1100e-9, n))
    if np.min(np.diff(ws)) < 1e-12:
        return
    ns = rng.uniform(1, 2, n)
    ref_ = lambda w: np.interp(w, ws, ns, left=np.nan, right=np.nan)
    for lay, (a, b) in dict(lists=(ws.tolist(), ns.tolist()), step=(np.repeat(ws, 2)[::2], np.repeat(ns, 3)[::3]),
                            tup=(tuple(ws), tuple(ns)), rows=np.column_stack([ws, ns]).T).items():
        m = rec.attempt('table from '+lay, lambda: batoid.TableMedium(a, b))
        if m is not None:
            rec.close(m.getN(ws), ns, 'table: the given value at every entry, first and last included', atol=0, rtol=1e-15, layout=lay)
            mid = .5*(ws[1:]+ws[:-1])
            rec.close(m.getN(mid), .5*(ns[1:]+ns[:-1]), 'table: linear in between', atol=1e-13, rtol=0)
            out = np.array([ws[0]*(1-1e-12), ws[-1]*(1+1e-12), 0., -1., 1.])
            rec.check(np.all(np.isnan(m.getN(out))), 'table: not a number outside', got=m.getN(out))
            rec.check(np.isnan(m.getN(np.nan)), 'table: no index at no wavelength')
    a, b = ws.copy(), ns.copy()
    m = batoid.TableMedium(a, b)
    a[:] = 1
    b[:] = 9
    rec.close(m.getN(ws), ns, 'the table does not follow later changes of the inputs', atol=0, rtol=1e-15)
    # integer table values; coarse integer wavelengths
    m = rec.attempt('integer table', lambda: batoid.TableMedium([1, 2, 4], [1, 2, 3]))
    if m is not None:
        rec.close(m.getN([1, 1.5, 2, 3, 4]), [1, 1.5, 2, 2.5, 3], 'integer table', atol=1e-14)
        rec.close(m.getN(np.array([1, 2, 4])), [1, 2, 3], 'integer wavelengths', atol=1e-14)
        rec.close(m.getN(4), 3, 'integer scalar wavelength', atol=1e-14)


def params(rec, rng):
    w = rng.uniform(400e-9, 900e-9, 9)
    B = ref.SILICA
    A = [2.2, -1e-2, 1e-2, 1e-4, 1e-5, -1e-6]
    for c in (batoid.SellmeierMedium(list(B)), batoid.SellmeierMedium(np.array(B)),
              batoid.SellmeierMedium(**dict(zip(['B1', 'B2', 'B3', 'C1', 'C2', 'C3'], B)))):
        rec.close(c.getN(w), ref.sellmeier(*B)(w), 'Sellmeier given any way', atol=1e-13)
    for c in (batoid.SumitaMedium(A), batoid.SumitaMedium(np.array(A)), batoid.SumitaMedium(**{'A%d' % i: a for i, a in enumerate(A)})):
        rec.close(c.getN(w), ref.sumita(A)(w), 'Sumita given any way', atol=1e-13)
    rec.close(batoid.Air().getN(w), ref.air(69.328, 293.15, 1.067)(w), 'Air defaults', atol=1e-13)
    rec.close(batoid.Air(h2o_pressure=2., temperature=280., pressure=90.).getN(w), ref.air(90., 280., 2.)(w), 'Air by keyword', atol=1e-13)
    rec.close(batoid.Air(70, 290, 1).getN(w), ref.air(70., 290., 1.)(w), 'Air from integers', atol=1e-13)
    rec.close(batoid.ConstMedium(2).getN(w), 2+0*w, 'constant from an integer', atol=0)
    for n in (6, 5, 7):
        if n != 6:
            rec.raises('a wrong number of coefficients is refused', Exception, lambda: batoid.SellmeierMedium(*range(n)))
            rec.raises('a wrong number of coefficients is refused', Exception, lambda: batoid.SumitaMedium(*range(n)))
