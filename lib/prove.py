"""Discharging obligations: normal form, ideal membership (sympy Groebner bases), z3, cvc5.
Each obligation runs in a forked process with a hard time limit."""
import os, sys, time, signal, pickle, select, subprocess, tempfile
from fractions import Fraction
import terms as tm
from terms import T, R, I, B

NPROC = max(2, (os.cpu_count() or 4))


class Obl:
    """One proof obligation: hyps |- goal, with context for counterexample replay."""

    def __init__(s, name, hyps, goal, func='', cand=None, meta=None, hint=None, kind='post'):
        s.name, s.hyps, s.goal, s.func = name, list(hyps), goal, func
        s.cand, s.meta, s.hint, s.kind = cand, meta or {}, hint, kind
        s.status = s.backend = s.model = None
        s.t = 0.0

    def show(s):
        return 'obligation %s [%s]\n  assuming:\n%s\n  prove: %s' % (
            s.name, s.func, '\n'.join('    ' + tm.show(h) for h in s.hyps), tm.show(s.goal))


# ---------------------------------------------------------------- z3
def _z3():
    import z3
    return z3


class ToZ3:
    def __init__(s):
        s.z3 = _z3()
        s.side = []
        s.memo = {}
        s.byatom = {}
        s.vars = {}
        s.apps = {}

    def sort(s, so):
        z = s.z3
        return {R: z.RealSort(), I: z.IntSort(), B: z.BoolSort()}[so]

    def key(s, t):
        try:
            return ('nf',) + tm.nf(t).key()
        except tm.Unsup:
            return ('id', t.id)

    def __call__(s, t):
        r = s.memo.get(t)
        if r is None:
            r = s.memo[t] = s.conv(t)
        return r

    def conv(s, t):
        z = s.z3
        o = t.op
        if o == 'const':
            v = t.args[0]
            if isinstance(v, bool):
                return z.BoolVal(v)
            if t.sort == I:
                return z.IntVal(int(v))
            return z.RealVal(str(v))
        if o == 'var':
            v = z.Const(t.args[0], s.sort(t.sort))
            s.vars[t.args[0]] = (v, t.sort)
            return v
        if o == 'app':
            f = t.args[0]
            if f in tm.RECUR:
                u = tm.unfold(t)
                if u is not t:
                    return s(u)
            k = (f, tuple(s.key(a) if a.sort != B else ('b', a.id) for a in t.args[1:]), t.sort)
            v = s.byatom.get(k)
            if v is None:
                v = z.Const('%s@%d' % (f, len(s.byatom)), s.sort(t.sort))
                s.byatom[k] = v
                if f in ('sin', 'cos') and len(t.args) == 2:
                    other = 'cos' if f == 'sin' else 'sin'
                    k2 = (other, k[1], t.sort)
                    if k2 not in s.byatom:
                        s.byatom[k2] = z.Const('%s@%d' % (other, len(s.byatom)), z.RealSort())
                    w = s.byatom[k2]
                    s.side.append(v * v + w * w == 1)
                # congruence with earlier applications that have integer-only arguments
                if all(a.sort == I for a in t.args[1:]):
                    za = [s(a) for a in t.args[1:]]
                    for (zb, w) in s.apps.get((f, len(za)), []):
                        s.side.append(z.Implies(z.And([x == y for x, y in zip(za, zb)]), v == w))
                    s.apps.setdefault((f, len(za)), []).append((za, v))
                else:
                    rest = t.args[1:]
                    for (tb, w) in s.apps.get((f, len(rest)), []):
                        if len(s.apps[(f, len(rest))]) <= 12:
                            s.side.append(z.Implies(z.And([s(x) == s(y) for x, y in zip(rest, tb)]),
                                                    v == w))
                    s.apps.setdefault((f, len(rest)), []).append((rest, v))
            return v
        if o == 'sqrt':
            k = ('sqrt', s.key(t.args[0]))
            v = s.byatom.get(k)
            if v is None:
                v = z.Const('sqrt@%d' % len(s.byatom), z.RealSort())
                s.byatom[k] = v
                a = s(t.args[0])
                s.side.append(z.And(v >= 0, v * v == a))
            return v
        if o == '/':
            n, d = s(t.args[0]), s(t.args[1])
            if z.is_rational_value(d):
                return n / d
            k = ('quo', s.key(t))
            v = s.byatom.get(k)
            if v is None:
                v = z.Const('quo@%d' % len(s.byatom), z.RealSort())
                s.byatom[k] = v
                s.side.append(v * d == n)
            return v
        if o == 'floor':
            a = s(t.args[0])
            k = ('floor', s.key(t.args[0]))
            v = s.byatom.get(k)
            if v is None:
                v = z.Const('floor@%d' % len(s.byatom), z.IntSort())
                s.byatom[k] = v
                s.side.append(z.And(z.ToReal(v) <= a, a < z.ToReal(v) + 1))
            return v
        if o == 'toreal':
            return z.ToReal(s(t.args[0]))
        a = [s(x) for x in t.args]
        if o == '+':
            return a[0] + a[1]
        if o == '*':
            return a[0] * a[1]
        if o == 'and':
            return z.And(a)
        if o == 'or':
            return z.Or(a)
        if o == 'not':
            return z.Not(a[0])
        if o in ('iff', '='):
            return a[0] == a[1]
        if o == '<':
            return a[0] < a[1]
        if o == '<=':
            return a[0] <= a[1]
        if o == 'ite':
            return z.If(a[0], a[1], a[2])
        raise NotImplementedError(o)


def z3num(v):
    z = _z3()
    if z.is_true(v):
        return True
    if z.is_false(v):
        return False
    if z.is_int_value(v):
        return v.as_long()
    if z.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z.is_algebraic_value(v):
        w = v.approx(20)
        return float(Fraction(w.numerator_as_long(), w.denominator_as_long()))
    return None


def z3check(hyps, goal, ms):
    """-> ('unsat'|'sat'|'unknown', model dict)"""
    z = _z3()
    c = ToZ3()
    fs = [c(h) for h in hyps]
    g = c(goal)
    s = z.Solver()
    s.set('timeout', int(ms))
    s.add(*fs)
    s.add(z.Not(g))
    s.add(*c.side)
    r = s.check()
    if r == z.unsat:
        return 'unsat', None
    if r == z.sat:
        m = s.model()
        d = {}
        for n, (v, so) in c.vars.items():
            d[n] = z3num(m.eval(v, model_completion=True))
        return 'sat', d
    return 'unknown', None


def cvc5check(hyps, goal, ms):
    z = _z3()
    c = ToZ3()
    s = z.Solver()
    s.add(*[c(h) for h in hyps])
    s.add(z.Not(c(goal)))
    s.add(*c.side)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % ms, '--nl-cov', f.name], capture_output=True,
                           text=True, timeout=ms / 1000 + 5)
        o = p.stdout.strip().split('\n')[0] if p.stdout else ''
        return o if o in ('unsat', 'sat') else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(f.name)


# ---------------------------------------------------------------- algebra
def flatten(hyps):
    out = []
    for h in hyps:
        if h.op == 'and':
            out.extend(flatten(h.args))
        else:
            out.append(h)
    return out


def _numer(t):
    return tm.nf(t).n


def ideal_member(goal_num, eqs, limit=20):
    """goal_num in the ideal generated by eqs (polys as dicts)?  Linear pivots are substituted
    first, then a Groebner basis decides."""
    p = goal_num
    eqs = [e for e in eqs if e]
    if not p:
        return True
    # keep only equations connected to the goal's atoms
    use, ats, chg = [], {a for m in p for a, e in m}, True
    pool = list(eqs)
    while chg:
        chg = False
        for e in list(pool):
            ea = {a for m in e for a, x in m}
            if ea & ats:
                use.append(e)
                pool.remove(e)
                ats |= ea
                chg = True
    if not use:
        return False
    ats = sorted(ats)
    from sympy.polys.rings import ring
    from sympy.polys.domains import QQ
    from sympy.polys.orderings import grevlex
    names = ['a%d' % i for i in range(len(ats))]
    rg = ring(names, QQ, grevlex)[0]
    ix = {a: i for i, a in enumerate(ats)}

    def conv(d):
        r = {}
        for m, c in d.items():
            v = [0] * len(ats)
            for a, e in m:
                v[ix[a]] = e
            f = Fraction(c)
            r[tuple(v)] = QQ(f.numerator, f.denominator)
        return rg.from_dict(r)
    g = conv(p)
    es = [conv(e) for e in use]
    if g.rem(es) == 0:
        return True
    from sympy.polys.groebnertools import groebner
    gb = groebner(es, rg)
    return g.rem(gb) == 0


def eq_hyps(hyps):
    out = []
    for h in flatten(hyps):
        if h.op == '=' and h.args[0].sort in (R, I):
            try:
                n = tm.radd(tm.nf(h.args[0]), tm.nf(h.args[1]), -1).n
                if n:
                    out.append(n)
            except tm.Unsup:
                pass
    return out


def split_goal(g):
    if g.op == 'and':
        r = []
        for a in g.args:
            r += split_goal(a)
        return r
    return [g]


def int_subst(hyps):
    """integer variables pinned by the hypotheses: x = y from x = y, or from x <= y and y <= x
    (strict bounds rounded).  -> {var: term}"""
    les = {}
    eqs = []
    for h in hyps:
        try:
            if h.op in ('<', '<=') and h.args[0].sort == I:
                p = tm.radd(tm.nf(h.args[0]), tm.nf(h.args[1]), -1)
                if p.d:
                    continue
                n = p.n
                if h.op == '<':
                    n = tm.padd(n, tm.PONE)
                k = tm.pkey({m: c for m, c in n.items() if m != ()})
                c = n.get((), 0)
                if k not in les or les[k] < c:
                    les[k] = c
            elif h.op == '=' and h.args[0].sort == I:
                p = tm.radd(tm.nf(h.args[0]), tm.nf(h.args[1]), -1)
                if not p.d:
                    eqs.append(p.n)
        except tm.Unsup:
            pass
    for k, c in les.items():
        kn = tm.pkey({m: -x for m, x in k})
        if kn in les and les[kn] == -c:
            n = dict(k)
            if c:
                n[()] = c
            eqs.append(n)
    for n in eqs:
        cand = []
        for m, c in n.items():
            if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
                key = tm.atomkey(m[0][0])
                at = m[0][0]
                if key[0] == 'var' and not any(at == a for mm in n if mm != m for a, e in mm):
                    cand.append(('!' not in key[1], key[1], m, c))
        # prefer eliminating named sizes in favour of the loop counters
        for _, name, m, c in sorted(cand, reverse=True):
            r = {mm: -x * c for mm, x in n.items() if mm != m}
            return tm.var(name, I), tm.poly_term(r)
    return None


def pin(hyps, goal):
    for _ in range(8):
        r = int_subst(hyps)
        if r is None:
            break
        v, t = r
        hyps = [h for h in (tm.subst(h, {v: t}) for h in hyps) if not (tm.isc(h) and tm.cval(h))]
        hyps = flatten(hyps)
        goal = tm.subst(goal, {v: t})
    return hyps, goal


def prove_one(hyps, goal, tmo=20.0, pinned=False, reduced=False):
    """-> (status, backend, model)"""
    hyps = flatten(hyps)
    if not pinned:
        h2, g2 = pin(hyps, goal)
        if h2 is not hyps:
            r = prove_one(h2, g2, tmo, True)
            if r[0] == 'proved':
                return r
            hyps, goal = h2, g2
            return r
    if tm.isc(goal):
        if tm.cval(goal):
            return 'proved', 'simplify', None
        st, m = z3check(hyps, goal, tmo * 500)
        return {'unsat': ('proved', 'z3', None), 'sat': ('refuted', 'z3', m)}.get(st, ('unknown', 'z3', None))
    if goal in hyps:
        return 'proved', 'simplify', None
    if goal.op == 'or':
        neg = [tm.lnot(a) for a in goal.args]
        # prove last disjunct from the negations of the others when it is an equality
        for i, a in enumerate(goal.args):
            if a.op == '=':
                r = prove_one(hyps + [n for j, n in enumerate(neg) if j != i], a, tmo)
                if r[0] == 'proved':
                    return r
                break
    iseq = goal.op == '=' and goal.args[0].sort in (R, I)
    if iseq:
        try:
            d = tm.radd(tm.nf(goal.args[0]), tm.nf(goal.args[1]), -1)
            if not d.n:
                return 'proved', 'normal-form', None
            es = eq_hyps(hyps)
            if es and len(d.n) < 4000 and goal.args[0].sort == R:
                old = signal.signal(signal.SIGVTALRM, _alarm)
                signal.setitimer(signal.ITIMER_VIRTUAL, min(8.0, tmo / 2))
                try:
                    if ideal_member(d.n, es):
                        return 'proved', 'ideal', None
                except _TO:
                    pass
                finally:
                    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                    signal.signal(signal.SIGVTALRM, old)
        except tm.Unsup:
            pass
    best = ('unknown', 'z3', None)
    if lin_unsat(hyps + [tm.lnot(goal)], 1000):
        return 'proved', 'z3-linear', None
    if lin_unsat(hyps + [tm.lnot(goal)], 2000, True):
        return 'proved', 'z3-linear', None
    if poly_unsat(hyps + [tm.lnot(goal)], 1000):
        return 'proved', 'z3-poly', None
    if not reduced:
        q = reduce_roots(hyps, goal)
        if q is not None:
            r = prove_one(q[0], q[1], tmo, True, True)
            if r[0] == 'proved':
                return r
    st, m = z3check(hyps, goal, tmo * 250)
    if st == 'unsat':
        return 'proved', 'z3', None
    if st == 'sat':
        return 'refuted', 'z3', m
    st = cvc5check(hyps, goal, int(tmo * 250))
    if st == 'unsat':
        return 'proved', 'cvc5', None
    st, m = z3check(hyps, goal, tmo * 500)
    if st == 'unsat':
        return 'proved', 'z3', None
    if st == 'sat':
        return 'refuted', 'z3', m
    return best


def quick_eq(goal, hyps, limit=5.0):
    """does the equation follow algebraically from the equations hyps?  (decides how a proof is
    set up; the lemma itself is still an obligation)"""
    try:
        d = tm.radd(tm.nf(goal.args[0]), tm.nf(goal.args[1]), -1)
        if not d.n:
            return True
        es = eq_hyps(hyps)
        if not es or len(d.n) > 4000:
            return False
        old = signal.signal(signal.SIGVTALRM, _alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, limit)
        try:
            return ideal_member(d.n, es)
        except _TO:
            return False
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, old)
    except tm.Unsup:
        return False


class _TO(Exception):
    pass


def _alarm(*a):
    raise _TO()


def run_obl(o, tmo):
    r = run_obl1(o, tmo)
    if r[0] != 'proved' and getattr(o, 'defs', None):
        # once more with the generalised subterms spelled out
        import copy
        p = copy.copy(o)
        sub = lambda h: tm.subst(h, o.defs)
        p.goal, p.hyps = sub(o.goal), [sub(h) for h in o.hyps]
        q = run_obl1(p, tmo / 2)
        if q[0] == 'proved' or q[0] == 'refuted':
            return q[:3] + (r[3] + q[3],)
        if r[0] == 'refuted':       # a model of the generalised obligation is no counterexample
            r = ('unknown',) + r[1:]
    return r


def run_obl1(o, tmo):
    t0 = time.time()
    stat, back, model = 'proved', None, None
    extra = []
    for g in split_goal(o.goal):
        r = prove_one(o.hyps + extra, g, tmo)
        back = r[1] if back in (None, 'simplify', 'normal-form') else back
        if r[0] != 'proved':
            stat, back, model = r
            break
        extra.append(g)
    return stat, back, model, time.time() - t0


def discharge(obls, tmo=20.0, hard=None, nproc=None):
    """Discharge in forked workers (one process per obligation, killed at the hard limit)."""
    hard = hard or tmo * 2.5 + 10
    nproc = nproc or NPROC
    pend = [o for o in obls if o.status is None]
    run = {}
    # trivial ones in-process
    rest = []
    for o in pend:
        if all(tm.isc(g) and tm.cval(g) or g in o.hyps for g in split_goal(o.goal)):
            o.status, o.backend, o.t = 'proved', 'simplify', 0.0
        else:
            rest.append(o)
    pend = rest[::-1]
    # merge identical obligations (same hyps/goal)
    seen = {}
    uniq = []
    dup = []
    for o in pend:
        k = (tuple(sorted(h.id for h in o.hyps)), o.goal.id)
        if k in seen:
            dup.append((o, seen[k]))
        else:
            seen[k] = o
            uniq.append(o)
    pend = uniq
    while pend or run:
        while pend and len(run) < nproc:
            o = pend.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    res = run_obl(o, tmo)
                except Exception as e:
                    res = ('unknown', 'error:%s' % (repr(e)[:200]), None, 0.0)
                try:
                    os.write(w, pickle.dumps(res))
                finally:
                    os._exit(0)
            os.close(w)
            run[r] = (o, pid, time.time())
        rd, _, _ = select.select(list(run), [], [], 0.05)
        for r in rd:
            o, pid, t0 = run.pop(r)
            buf = b''
            while True:
                c = os.read(r, 65536)
                if not c:
                    break
                buf += c
            os.close(r)
            os.waitpid(pid, 0)
            try:
                o.status, o.backend, o.model, o.t = pickle.loads(buf)
            except Exception:
                o.status, o.backend, o.t = 'unknown', 'crash', time.time() - t0
        now = time.time()
        for r, (o, pid, t0) in list(run.items()):
            if now - t0 > hard:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del run[r]
                o.status, o.backend, o.t = 'unknown', 'timeout', now - t0
    for o, p in dup:
        o.status, o.backend, o.model, o.t = p.status, p.backend, p.model, 0.0
    return obls


_lin = {}


def lin(c):
    """comparison as (op, polynomial) with p op 0, or None"""
    r = _lin.get(c, 0)
    if r != 0:
        return r
    r = None
    op, t = c.op, c
    if op == 'not' and c.args[0].op in ('<', '<=', '='):
        t = c.args[0]
        op = {'<': '>=', '<=': '>', '=': '!='}[t.op]
    if t.op in ('<', '<=', '=') and t.args[0].sort != B:
        try:
            a, b = tm.nf(t.args[0]), tm.nf(t.args[1])
            if op in ('>=', '>'):
                a, b = b, a
                op = {'>=': '<=', '>': '<'}[op]
            d = tm.radd(a, b, -1)
            n = d.n if op in ('=', '!=') else tm.signed_numer(d)
            if n is not None and len(n) < 400:
                r = (op, n)
        except tm.Unsup:
            pass
    _lin[c] = r
    return r


def products(cs, n=10):
    """products of pairs of short inequalities"""
    ls = []
    for c in flatten(cs):
        l = lin(c)
        if l and l[0] in ('<', '<=') and 1 <= len(l[1]) <= 8:
            ls.append(l)
    ls.sort(key=lambda l: len(l[1]))
    ls = ls[:n]
    out = []
    for i, (o, p) in enumerate(ls):
        for o2, q in ls[:i]:
            r = tm.pmul(p, q)            # both <= 0: the product is >= 0
            out.append(('<' if o == o2 == '<' else '<=', tm.pscale(r, -1)))
    return out


def lin_unsat(cs, ms=100, prods=False):
    """contradiction by linear arithmetic over the monomials (squares are not negative)"""
    z = _z3()
    s = z.Solver()
    s.set('timeout', ms)
    vs = {}

    def mv(m):
        x = vs.get(m)
        if x is None:
            x = vs[m] = z.Real('m%d' % len(vs))
            if m and all(e % 2 == 0 for a, e in m):
                s.add(x >= 0)
        return x
    n = 0
    ls = [lin(c) for c in flatten(cs)]
    if prods:
        ls += products(cs)
    for l in ls:
        if l is None:
            continue
        n += 1
        op, p = l
        e = z.Sum([(z.RealVal(str(k)) if m == () else z.RealVal(str(k)) * mv(m)) for m, k in p.items()]) \
            if p else z.RealVal(0)
        s.add({'<': e < 0, '<=': e <= 0, '=': e == 0, '!=': e != 0}[op])
    if n < 1:
        return False
    return s.check() == z.unsat


def square_rule(n):
    """(atom, polynomial) with atom^2 = polynomial, from n = 0: the atom occurs only as its square"""
    for m, c in n.items():
        if len(m) == 1 and m[0][1] == 2:
            a = m[0][0]
            if not any(a == b for mm in n if mm != m for b, e in mm):
                return a, {mm: Fraction(-x) / Fraction(c) for mm, x in n.items() if mm != m}
    return None


def rewrite(n, a, r):
    """n with a^2 replaced by r"""
    while True:
        out, chg = {}, False
        for m, c in n.items():
            e = dict(m).get(a, 0)
            if e < 2:
                q = {m: c}
            else:
                chg = True
                d = [(b, f) for b, f in m if b != a] + ([(a, e - 2)] if e > 2 else [])
                q = tm.pmul({mono(d): c}, r)
            out = tm.padd(out, q)
        n = out
        if not chg or len(n) > 2000:
            return n


def mono(d):
    p = tm.PONE
    for b, f in d:
        for _ in range(f):
            p = tm.pmul(p, {((b, 1),): 1})
    return next(iter(p))


def poly_unsat(cs, ms=300):
    """contradiction between polynomial comparisons, the atoms being arbitrary numbers, after rewriting with
    equations that give the square of an atom"""
    ls = [l for l in (lin(c) for c in flatten(cs)) if l is not None and len(l[1]) <= 120]
    rules = []
    for op, n in ls:
        if op == '=':
            for a, r in rules:
                n = rewrite(n, a, r)
            q = square_rule(n)
            if q and len(q[1]) <= 6:
                rules = [(a, rewrite(r, *q)) for a, r in rules] + [q]
        if len(rules) >= 3:
            break
    if not rules:
        return False
    z = _z3()
    s = z.SolverFor('QF_NRA')
    s.set('timeout', int(ms))
    vs = {}
    chg = False
    for op, p in ls:
        q = p
        for a, r in rules:
            q = rewrite(q, a, r)
        chg = chg or (q != p and op != '=')
        if len(q) > 40:
            continue
        e = z.RealVal(0)
        for m, k in q.items():
            t = z.RealVal(str(Fraction(k)))
            for b, f in m:
                if b not in vs:
                    vs[b] = z.Real('a%d' % len(vs))
                for _ in range(f):
                    t = t * vs[b]
            e = e + t
        s.add({'<': e < 0, '<=': e <= 0, '=': e == 0, '!=': e != 0}[op])
    return chg and s.check() == z.unsat


def square_rules(hyps, most=3):
    rules = []
    for n in eq_hyps(hyps):
        for a, r in rules:
            n = rewrite(n, a, r)
        q = square_rule(n)
        if q and len(q[1]) <= 6:
            rules = [(a, rewrite(r, *q)) for a, r in rules] + [q]
        if len(rules) >= most:
            break
    return rules


def cancelled(n, d):
    """n/d with common factors removed"""
    from sympy.polys.rings import ring
    from sympy.polys.domains import QQ
    from sympy.polys.orderings import grevlex
    ats = sorted({a for p in (n, d) for m in p for a, e in m})
    if not ats:
        return n, d
    rg = ring(['a%d' % i for i in range(len(ats))], QQ, grevlex)[0]
    ix = {a: i for i, a in enumerate(ats)}

    def to(p):
        r = {}
        for m, c in p.items():
            v = [0] * len(ats)
            for a, e in m:
                v[ix[a]] = e
            f = Fraction(c)
            r[tuple(v)] = QQ(f.numerator, f.denominator)
        return rg.from_dict(r)

    def back(p):
        r = {}
        for m, c in p.items():
            d_ = [(ats[i], e) for i, e in enumerate(m) if e]
            r[mono(d_)] = Fraction(int(c.numerator), int(c.denominator))
        return r
    a, b = to(n).cancel(to(d))
    return back(a), back(b)


def reduce_roots(hyps, goal):
    """the same obligation with radicands rewritten by equations that give the square of an atom, or None"""
    rules = square_rules(hyps)
    if not rules:
        return None
    chg = False
    for _ in range(6):
        todo = {}
        for t in tm.subterms(goal):
            if t.op != 'sqrt':
                continue
            try:
                r = tm.nf(t.args[0])
            except tm.Unsup:
                continue
            n, d = r.n, tm.PONE
            for k, e in r.d:
                d = tm.pmul(d, tm.ppow(dict(k), e))
            if len(n) > 200 or len(d) > 60:
                continue
            n2, d2 = n, d
            for a, q in rules:
                n2, d2 = rewrite(n2, a, q), rewrite(d2, a, q)
            if n2 == n and d2 == d or not d2:
                continue
            n2, d2 = cancelled(n2, d2)
            if len(n2) + len(d2) < len(n) + len(d):
                p, q = tm.real_term(n2), tm.real_term(d2)
                if p is not None and q is not None:
                    todo[t] = tm.sqrt(p if d2 == tm.PONE else tm.div(p, q))
        if not todo:
            break
        chg = True
        goal = tm.subst(goal, todo)
        hyps = [tm.subst(h, todo) for h in hyps]
    return (hyps, goal) if chg else None


_fcache = {}


def feasible(pc, ms=300):
    """Is the path condition satisfiable?  unknown counts as yes."""
    k = frozenset(pc)
    r = _fcache.get(k)
    if r is None:
        if any(tm.isc(p) and not tm.cval(p) for p in pc):
            r = False
        elif lin_unsat(pc) or poly_unsat(pc):
            r = False
        else:
            st, _ = z3check(list(pc), tm.FALSE, ms)
            r = st != 'unsat'
        _fcache[k] = r
    return r
