"""Path engine shared by the C++ and the Python front ends: paths are explored by re-execution
with recorded decisions; every path collects assumptions (pc) and obligations."""
import terms as tm
from terms import T
import prove


class PathEnd(Exception):
    """the rest of this path is covered elsewhere (loop induction) or is infeasible"""


class Unsupported(Exception):
    pass


class TooManyPaths(Unsupported):
    pass


class Engine:
    MAXPATHS = 4000

    def __init__(s, func=''):
        s.func = func
        s.dec = []
        s.pos = 0
        s.pc = []
        s.obls = []
        s.safety = True
        s.npaths = 0
        s.trusted = set()
        s.inlined = set()
        s.callees = set()
        s.meta = {}
        s.ms = 300
        s.defs = {}

    # -------------------------------------------------- exploration
    def explore(s, fn):
        """Run fn() over all feasible paths. fn may call s.oblige at any point."""
        stack = [[]]
        while stack:
            s.dec = list(stack.pop())
            s.pos = 0
            s.pc = []
            s.npaths += 1
            if s.npaths > s.MAXPATHS:
                raise TooManyPaths(s.func)
            tm._fresh[0] = 0
            s.pending = []
            try:
                fn()
            except PathEnd:
                pass
            stack.extend(s.pending)

    def _decide(s, opts):
        """opts: list of option indexes (feasible ones); returns the chosen"""
        if s.pos < len(s.dec):
            o = s.dec[s.pos]
        else:
            o = opts[0]
            for alt in opts[1:]:
                s.pending.append(s.dec[:s.pos] + [alt])
            s.dec.append(o)
        s.pos += 1
        return o

    def _known(s, c):
        """decided by a path condition that is the same comparison of polynomials?"""
        k = canon(c)
        if k is None:
            return None
        op, p, m = k
        for h in s.pc:
            q = canon(h)
            if q is None:
                continue
            o2, p2, m2 = q
            # h: p2 o2 0 (the polynomial compared with zero), m2: its negative
            if p2 == p:
                r = IMP.get((o2, op))
            elif p2 == m:
                r = IMPN.get((o2, op))
            else:
                continue
            if r is not None:
                return r
        return None

    def choose(s, n):
        return s._decide(list(range(n)))

    def branch(s, c):
        if isinstance(c, bool):
            return c
        assert c.sort == tm.B, c
        if tm.isc(c):
            return tm.cval(c)
        if c.op == 'and':
            for a in c.args:
                if not s.branch(a):
                    return False
            return True
        if c.op == 'or':
            for a in c.args:
                if s.branch(a):
                    return True
            return False
        if c.op == 'not':
            return not s.branch(c.args[0])
        if c.op == 'iff':
            return s.branch(c.args[0]) == s.branch(c.args[1])
        if c.op == '=':         # a product vanishes with one of its factors
            for z, t in (c.args, c.args[::-1]):
                if tm.isc(z) and tm.cval(z) == 0 and t.op == '*':
                    return any(s.branch(tm.eq(f, tm.lit(0, f.sort))) for f in t.args)
        c = unsqrt(c)
        n = tm.lnot(c)
        if c in s.pc:
            return True
        if n in s.pc:
            return False
        d = s._known(c)
        if d is not None:
            return d
        if s.pos < len(s.dec):
            o = s.dec[s.pos]
            s.pos += 1
        else:
            q = clean(c)
            a = prove.feasible(s.pc + [c if q is None else q], s.ms)
            b = prove.feasible(s.pc + [n if q is None else tm.lnot(q)], s.ms) if a else True
            if a and b:
                s.pending.append(s.dec[:s.pos] + [1])
                o = 0
            elif a:
                o = 2     # forced true
            else:
                o = 3
            s.dec.append(o)
            s.pos += 1
        r = o in (0, 2)
        s.pc.append(c if r else n)
        q = clean(c)
        if q is not None:
            q = q if r else tm.lnot(q)
            if not tm.isc(q) and q not in s.pc:
                s.pc.append(q)
        return r

    def assume(s, c):
        for g in prove.split_goal(c):
            if tm.isc(g):
                if not tm.cval(g):
                    raise PathEnd()
                continue
            if g not in s.pc:
                s.pc.append(g)

    def infeasible(s):
        return not prove.feasible(s.pc, 2000)

    # -------------------------------------------------- obligations
    def oblige(s, name, goal, kind='post', cand=None, **meta):
        if isinstance(goal, bool):
            goal = tm.const(goal)
        goal = simp(goal, s.pc)
        if kind in ('bounds', 'nowrap', 'wrap') and tm.isc(goal) and tm.cval(goal):
            pass
        o = prove.Obl(name, s.pc, goal, s.func, cand, dict(s.meta, **meta), kind=kind)
        o.defs = s.defs
        s.obls.append(o)
        return o


def unsqrt(c):
    """compare the radicand of a root with zero instead of the root (radicands are not negative)"""
    if c.op in ('=', '<', '<='):
        a, b = c.args
        if a.sort == tm.R:
            if b.op == 'sqrt' and tm.isc(a) and tm.cval(a) == 0 and c.op in ('=', '<'):
                return (tm.eq if c.op == '=' else tm.lt)(tm.ZERO, b.args[0])
            if a.op == 'sqrt' and tm.isc(b) and tm.cval(b) == 0 and c.op in ('=', '<='):
                return tm.eq(a.args[0], tm.ZERO)
    return c


_clean = {}


def clean(c):
    """an equivalent comparison without the divisions whose denominators cancel (they are known to be
    nonzero where the division was formed), or None"""
    r = _clean.get(c, 0)
    if r != 0:
        return r
    r = None
    t = c.args[0] if c.op == 'not' else c
    if t.op in ('<', '<=', '=') and t.args[0].sort == tm.R and any(x.op == '/' and not tm.isc(x.args[1]) for x in tm.subterms(t)):
        try:
            d = tm.radd(tm.nf(t.args[1]), tm.nf(t.args[0]), -1)
            n = d.n if t.op == '=' else tm.signed_numer(d)
            p = tm.real_term(n) if n is not None and len(n) < 60 else None
            if p is not None:
                r = {'=': tm.eq, '<': tm.lt, '<=': tm.le}[t.op](tm.ZERO, p)
                if c.op == 'not':
                    r = tm.lnot(r)
        except tm.Unsup:
            pass
    _clean[c] = r
    return r


_canon = {}
# p o2 0 known: is p op 0 ?   (and for -p o2 0)
IMP = {('<', '<'): True, ('<', '<='): True, ('<', '='): False, ('<', '!='): True, ('<=', '<='): True,
       ('=', '='): True, ('=', '<'): False, ('=', '<='): True, ('=', '!='): False, ('!=', '='): False,
       ('!=', '!='): True}
IMPN = {('<', '<'): False, ('<', '<='): False, ('<', '='): False, ('<', '!='): True, ('<=', '<'): False,
        ('=', '='): True, ('=', '<'): False, ('=', '<='): True, ('=', '!='): False, ('!=', '='): False,
        ('!=', '!='): True}


def canon(c):
    """(op, key of p, key of -p) for  p op 0, p scaled to leading coefficient +-1"""
    r = _canon.get(c, 0)
    if r != 0:
        return r
    r = None
    op, t = c.op, c
    if op == 'not' and c.args[0].op in ('<', '<=', '='):
        t = c.args[0]
        op = {'<': '>=', '<=': '>', '=': '!='}[t.op]
    if t.op in ('<', '<=', '=') and t.args[0].sort != tm.B:
        try:
            a, b = tm.nf(t.args[0]), tm.nf(t.args[1])
            if op in ('>=', '>'):
                a, b = b, a
                op = {'>=': '<=', '>': '<'}[op]
            d = tm.radd(a, b, -1)
            n = d.n if op in ('=', '!=') else tm.signed_numer(d)
            if n:
                l = n[tm._lead(n)]
                p = tm.pscale(n, 1 / abs(tm.Fraction(l)))
                if op in ('=', '!=') and l < 0:
                    p = tm.pscale(p, -1)
                r = (op, tm.pkey(p), tm.pkey(tm.pscale(p, -1)))
        except tm.Unsup:
            pass
    _canon[c] = r
    return r


def simp(t, pc):
    """resolve ite conditions that the path condition decides syntactically"""
    sub = {}
    pcs = set(pc)

    def dec(c):
        if c in pcs:
            return tm.TRUE
        if tm.lnot(c) in pcs:
            return tm.FALSE
        if c.op in ('and', 'or'):
            xs = [dec(a) for a in c.args]
            r = (tm.land if c.op == 'and' else tm.lor)(*xs)
            return r
        if c.op == 'not':
            return tm.lnot(dec(c.args[0]))
        return c
    for x in tm.subterms(t):
        if x.op == 'ite':
            d = dec(x.args[0])
            if d is not x.args[0]:
                sub[x.args[0]] = d
    return tm.subst(t, sub) if sub else t
