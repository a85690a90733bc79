"""Runs the contract monitors of one property against the built tree (first on PYTHONPATH)."""
import sys, os, json, importlib, time, hashlib, traceback
import numpy as np


class Rec:
    def __init__(s, out, seed, tier):
        s.out = out
        s.last = open(out + '.last', 'w')
        s.n = 0
        s.by = {}
        s.viol = []
        s.known = []
        s.samples = []
        s.seen = set()
        s.tier = tier
        s.rule = s.bound = ''

    def at(s, what):
        """about to evaluate `what` (so that a crash can be attributed)"""
        s.last.seek(0)
        s.last.truncate()
        s.last.write(what)
        s.last.flush()

    def count(s, clause, case=None, n=1):
        s.n += n
        s.by[clause] = s.by.get(clause, 0) + n
        h = hashlib.md5(repr((clause, case, s.n if case is None else 0)).encode()).hexdigest()[:12]
        s.seen.add(h)
        if len(s.samples) < 6 and s.by[clause] == n:
            s.samples.append(dict(clause=clause, case=jsonable(case)))

    def bad(s, what, **case):
        if len(s.viol) < 40:
            s.viol.append(dict(what=what, case=jsonable(case)))

    def check(s, ok, clause, /, **case):
        s.count(clause, None)
        if not bool(ok):
            s.bad(clause, **case)
        return bool(ok)

    def close(s, got, want, clause, /, atol=1e-9, rtol=1e-9, **case):
        """elementwise closeness, NaN equal to NaN"""
        s.count(clause, None)
        try:
            g, w = np.asarray(got, dtype=complex), np.asarray(want, dtype=complex)
            if g.shape != w.shape:
                g, w = np.broadcast_arrays(g, w)
            ok = (np.abs(g - w) <= atol + rtol * np.abs(w)) | (np.isnan(g) & np.isnan(w)) | (g == w)
            ok = bool(np.all(ok))
        except Exception as x:
            ok = False
            case['exception'] = repr(x)
        if not ok:
            s.bad(clause, got=got, want=want, **case)
        return ok

    def attempt(s, clause, fn, **case):
        """fn must not raise"""
        s.at(clause + ' ' + repr(jsonable(case))[:2000])
        try:
            return fn()
        except Exception as x:
            s.bad('%s: raises %r' % (clause, x), trace=traceback.format_exc()[-1500:], **case)
            return None

    def raises(s, clause, exc, fn, **case):
        s.count(clause, None)
        s.at(clause)
        try:
            r = fn()
        except exc:
            return True
        except Exception as x:
            s.bad('%s: raises %r instead' % (clause, x), **case)
            return False
        s.bad('%s: does not raise' % clause, result=repr(r)[:200], **case)
        return False


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist()) if x.size <= 64 else '%s array %s...' % (x.shape, x.ravel()[:4].tolist())
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return jsonable(x.item())
    if isinstance(x, float):
        return x if x == x and abs(x) != float('inf') else repr(x)
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return repr(x)[:400]


def main():
    pid, seed, tier, out = sys.argv[1:5]
    seed = int(seed)
    rec = Rec(out, seed, tier)
    models = json.load(open(sys.argv[5])) if len(sys.argv) > 5 else None
    rng = np.random.default_rng(seed)
    np.seterr(all='ignore')
    import warnings
    warnings.simplefilter('ignore')
    mod = importlib.import_module('o' + pid)
    try:
        if models is not None:
            if hasattr(mod, 'models'):
                mod.models(rec, models)
        else:
            mod.run(rec, rng, tier)
    except Exception as x:
        rec.bad('unexpected exception %r' % x, trace=traceback.format_exc()[-3000:])
    json.dump(dict(evaluations=rec.n, distinct=len(rec.seen), by_clause=rec.by, violations=rec.viol,
                   known=rec.known, samples=rec.samples, rule=rec.rule, bound=rec.bound),
              open(out, 'w'))
    rec.last.close()
    os.unlink(out + '.last')
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
