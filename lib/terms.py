"""Hash-consed terms over mathematical reals, integers and booleans, with a rational-function
normal form (atoms: variables, sqrt, sin/cos, uninterpreted applications)."""
from fractions import Fraction
import math

R, I, B = 'R', 'I', 'B'
_tab = {}


class T:
    __slots__ = ('op', 'args', 'sort', 'id', '_nf', '__weakref__')

    def __init__(s, op, args, sort):
        s.op, s.args, s.sort = op, args, sort
        s._nf = None

    def __repr__(s):
        return show(s)


def mk(op, args, sort):
    k = (op, args, sort)
    t = _tab.get(k)
    if t is None:
        t = T(op, args, sort)
        t.id = len(_tab)
        _tab[k] = t
    return t


def const(v, sort=None):
    if isinstance(v, bool):
        return mk('const', (v,), B)
    if sort is None:
        sort = I if isinstance(v, int) else R
    if isinstance(v, float):
        v = Fraction(repr(v)) if math.isfinite(v) else None
        assert v is not None, "non-finite constant"
    return mk('const', (Fraction(v),), sort)


def lit(s, sort=R):
    return mk('const', (Fraction(s),), sort)


TRUE, FALSE = const(True), const(False)
ZERO, ONE = lit(0), lit(1)
IZERO, IONE = lit(0, I), lit(1, I)


def var(name, sort=R):
    return mk('var', (name,), sort)


_fresh = [0]


def fresh(name, sort=R):
    _fresh[0] += 1
    return var('%s!%d' % (name, _fresh[0]), sort)


def app(f, args, sort=R):
    return mk('app', (f,) + tuple(args), sort)


def isc(t):
    return t.op == 'const'


def cval(t):
    return t.args[0]


def wrap(x, sort=None):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return const(x)
    if isinstance(x, int):
        return lit(x, sort or I)
    if isinstance(x, Fraction):
        return lit(x, sort or R)
    if isinstance(x, float):
        return const(x)
    raise TypeError(type(x))


def _j(a, b):
    return R if R in (a.sort, b.sort) else I


def toreal(a):
    if a.sort == R:
        return a
    if isc(a):
        return lit(cval(a))
    return mk('toreal', (a,), R)


def _co(a, b):
    s = _j(a, b)
    if s == R:
        return toreal(a), toreal(b), s
    return a, b, s


def add(a, b):
    a, b, s = _co(a, b)
    if isc(a) and isc(b):
        return lit(cval(a) + cval(b), s)
    if isc(a) and cval(a) == 0:
        return b
    if isc(b) and cval(b) == 0:
        return a
    return mk('+', (a, b), s)


def mul(a, b):
    a, b, s = _co(a, b)
    if isc(a) and isc(b):
        return lit(cval(a) * cval(b), s)
    for u, v in ((a, b), (b, a)):
        if isc(u):
            if cval(u) == 0:
                return u
            if cval(u) == 1:
                return v
    return mk('*', (a, b), s)


def neg(a):
    return mul(lit(-1, a.sort), a)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    """Real division; meaningful only where b != 0 (the caller establishes it)."""
    a, b = toreal(a), toreal(b)
    if isc(b) and cval(b) != 0:
        if isc(a):
            return lit(cval(a) / cval(b))
        return mul(a, lit(1 / cval(b)))
    if isc(a) and cval(a) == 0:
        return a
    return mk('/', (a, b), R)


def powi(a, n):
    n = int(n)
    if n < 0:
        return div(ONE, powi(a, -n))
    r = lit(1, a.sort)
    for _ in range(n):
        r = mul(r, a)
    return r


def _isqrt(n):
    r = math.isqrt(n)
    return r if r * r == n else None


def sqrt(a):
    a = toreal(a)
    if isc(a) and cval(a) >= 0:
        n, d = _isqrt(cval(a).numerator), _isqrt(cval(a).denominator)
        if n is not None and d is not None:
            return lit(Fraction(n, d))
    return mk('sqrt', (a,), R)


def fn1(f, a):
    a = toreal(a)
    if isc(a) and cval(a) == 0:
        if f in ('sin', 'tan', 'arctan', 'arcsin'):
            return ZERO
        if f == 'cos':
            return ONE
    return mk('app', (f, a), R)


def floor(a):
    if a.sort == I:
        return a
    if isc(a):
        return lit(math.floor(cval(a)), I)
    return mk('floor', (a,), I)


def lnot(a):
    if isc(a):
        return const(not cval(a))
    if a.op == 'not':
        return a.args[0]
    if a.op == '<':
        return mk('<=', (a.args[1], a.args[0]), B)
    if a.op == '<=':
        return mk('<', (a.args[1], a.args[0]), B)
    return mk('not', (a,), B)


def land(*xs):
    out = []
    for x in xs:
        if isc(x):
            if not cval(x):
                return FALSE
            continue
        if x.op == 'and':
            out.extend(x.args)
        else:
            out.append(x)
    out = tuple(dict.fromkeys(out))
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else mk('and', out, B)


def lor(*xs):
    out = []
    for x in xs:
        if isc(x):
            if cval(x):
                return TRUE
            continue
        if x.op == 'or':
            out.extend(x.args)
        else:
            out.append(x)
    out = tuple(dict.fromkeys(out))
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else mk('or', out, B)


def implies(a, b):
    return lor(lnot(a), b)


def iff(a, b):
    if isc(a):
        return b if cval(a) else lnot(b)
    if isc(b):
        return a if cval(b) else lnot(a)
    if a is b:
        return TRUE
    return mk('iff', (a, b), B)


def ite(c, a, b):
    if isc(c):
        return a if cval(c) else b
    if a is b:
        return a
    if a.sort == B:
        return land(implies(c, a), implies(lnot(c), b))
    a, b, s = _co(a, b)
    return mk('ite', (c, a, b), s)


def lt(a, b):
    a, b, s = _co(a, b)
    if isc(a) and isc(b):
        return const(cval(a) < cval(b))
    if a is b:
        return FALSE
    return mk('<', (a, b), B)


def le(a, b):
    a, b, s = _co(a, b)
    if isc(a) and isc(b):
        return const(cval(a) <= cval(b))
    if a is b:
        return TRUE
    return mk('<=', (a, b), B)


def two_valued(t):
    """t is c ? p : q with numbers p, q -> (c, p, q)"""
    if t.op == 'ite' and isc(t.args[1]) and isc(t.args[2]):
        return t.args[0], cval(t.args[1]), cval(t.args[2])
    if t.op == 'toreal':
        return two_valued(t.args[0])
    if t.op in ('+', '*') and len(t.args) == 2:
        for i in (0, 1):
            if isc(t.args[i]):
                r = two_valued(t.args[1 - i])
                if r is None:
                    return None
                k = cval(t.args[i])
                return (r[0], r[1] + k, r[2] + k) if t.op == '+' else (r[0], r[1] * k, r[2] * k)
    return None


def _two(rel, a, b):
    for x, y, sw in ((a, b, 0), (b, a, 1)):
        if isc(x):
            r = two_valued(y)
            if r is not None:
                p, q = [rel(cval(x), v) if not sw else rel(v, cval(x)) for v in r[1:]]
                return TRUE if p and q else FALSE if not p and not q else r[0] if p else lnot(r[0])
    return None


def eq(a, b):
    if a.sort == B:
        return iff(a, b)
    a, b, s = _co(a, b)
    if isc(a) and isc(b):
        return const(cval(a) == cval(b))
    if a is b:
        return TRUE
    r = _two(lambda x, y: x == y, a, b)
    if r is not None:
        return r
    if a.id > b.id:
        a, b = b, a
    return mk('=', (a, b), B)


def ne(a, b):
    return lnot(eq(a, b))


def show(t, depth=12):
    if depth == 0:
        return '...'
    o = t.op
    d = depth - 1
    if o == 'const':
        return str(t.args[0])
    if o == 'var':
        return t.args[0]
    if o == 'app':
        return '%s(%s)' % (t.args[0], ', '.join(show(a, d) for a in t.args[1:]))
    if o in ('+', '*', '/', '<', '<=', '=', 'iff'):
        return '(%s %s %s)' % (show(t.args[0], d), o, show(t.args[1], d))
    return '%s(%s)' % (o, ', '.join(show(a, d) for a in t.args))


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for a in x.args:
            if isinstance(a, T):
                st.append(a)
    return seen


def subst(t, m, memo=None):
    """Replace terms by terms (m: dict T->T), rebuilding with simplification."""
    memo = {} if memo is None else memo
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    if not t.args or t.op in ('const', 'var'):
        memo[t] = t
        return t
    a = [subst(x, m, memo) if isinstance(x, T) else x for x in t.args]
    r = rebuild(t, a)
    memo[t] = r
    return r


def rebuild(t, a):
    o = t.op
    if o == '+':
        return add(*a)
    if o == '*':
        return mul(*a)
    if o == '/':
        return div(*a)
    if o == 'sqrt':
        return sqrt(*a)
    if o == 'floor':
        return floor(*a)
    if o == 'toreal':
        return toreal(*a)
    if o == 'not':
        return lnot(*a)
    if o == 'and':
        return land(*a)
    if o == 'or':
        return lor(*a)
    if o == 'iff':
        return iff(*a)
    if o == 'ite':
        return ite(*a)
    if o == '<':
        return lt(*a)
    if o == '<=':
        return le(*a)
    if o == '=':
        return eq(*a)
    if o == 'app' and a[0] in ('sin', 'cos', 'tan', 'arctan', 'arcsin') and len(a) == 2:
        return fn1(*a)
    return mk(o, tuple(a), t.sort)


# ---------------------------------------------------------------- numeric evaluation
_num1 = dict(sin=math.sin, cos=math.cos, tan=math.tan, arctan=math.atan, arcsin=math.asin,
             arccos=math.acos, exp=math.exp, log=math.log)


def evalf(t, env, apps=None, memo=None):
    """Evaluate with floats. env: name->float/int/bool; apps: fname->callable."""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    o = t.op
    if o == 'const':
        r = t.args[0]
        if not isinstance(r, bool):
            r = float(r) if t.sort == R else int(r)
    elif o == 'var':
        r = env[t.args[0]]
    elif o == 'ite':
        r = evalf(t.args[1 if evalf(t.args[0], env, apps, memo) else 2], env, apps, memo)
    elif o == 'and':
        r = all(evalf(a, env, apps, memo) for a in t.args)
    elif o == 'or':
        r = any(evalf(a, env, apps, memo) for a in t.args)
    else:
        a = [evalf(x, env, apps, memo) if isinstance(x, T) else x for x in t.args]
        if o == '+':
            r = a[0] + a[1]
        elif o == '*':
            r = a[0] * a[1]
        elif o == '/':
            r = a[0] / a[1]
        elif o == 'sqrt':
            r = math.sqrt(a[0])
        elif o == 'floor':
            r = math.floor(a[0])
        elif o == 'toreal':
            r = float(a[0])
        elif o == 'not':
            r = not a[0]
        elif o == 'iff':
            r = a[0] == a[1]
        elif o == '<':
            r = a[0] < a[1]
        elif o == '<=':
            r = a[0] <= a[1]
        elif o == '=':
            r = a[0] == a[1]
        elif o == 'app':
            f = a[0]
            if apps and f in apps:
                r = apps[f](*a[1:])
            elif f in _num1:
                r = _num1[f](*a[1:])
            elif f == 'arctan2':
                r = math.atan2(*a[1:])
            else:
                raise KeyError(f)
        else:
            raise NotImplementedError(o)
    memo[t] = r
    return r


# ---------------------------------------------------------------- normal form
# Polynomial: dict monomial->Fraction/int; monomial: tuple of (atom, exp) sorted by atom id.
# Rat: (num poly, den) with den a tuple of (polykey, exp) sorted.
_atoms = {}      # key -> atom id
_atomlist = []   # id -> key


def atom(key):
    i = _atoms.get(key)
    if i is None:
        i = len(_atomlist)
        _atoms[key] = i
        _atomlist.append(key)
    return i


def atomkey(i):
    return _atomlist[i]


class Unsup(Exception):
    pass


MAXTERMS = 60000


def padd(p, q, s=1):
    if len(p) < len(q) and s == 1:
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def pmul(p, q):
    r = {}
    if len(p) * len(q) > 4000000:
        raise Unsup('poly too big')
    for m, c in p.items():
        for n, d in q.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > MAXTERMS:
        raise Unsup('poly too big')
    return r


def pscale(p, c):
    return {m: v * c for m, v in p.items()} if c else {}


PONE = {(): 1}


def pconst(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        c = int(c)
    return {(): c} if c else {}


def pvar(a):
    return {((a, 1),): 1}


def _lead(p):
    return max(p)


def ppow(p, n):
    r = PONE
    while n:
        if n & 1:
            r = pmul(r, p)
        p = pmul(p, p) if n > 1 else p
        n >>= 1
    return r


def pkey(p):
    return tuple(sorted(p.items()))


def _fr(c):
    c = Fraction(c)
    return int(c) if c.denominator == 1 else c


def monic(p):
    """(unit, monic poly) with p = unit*monic; extracts the monomial content too (in key form)."""
    c = p[_lead(p)]
    if c == 1:
        return 1, p
    inv = Fraction(1) / c
    return c, {m: _fr(v * inv) for m, v in p.items()}


class Rat:
    __slots__ = ('n', 'd')

    def __init__(s, n, d=()):
        s.n, s.d = n, d

    def key(s):
        return (pkey(s.n), s.d)


def _dmul(d, key, e):
    dd = dict(d)
    dd[key] = dd.get(key, 0) + e
    return tuple(sorted(dd.items(), key=lambda kv: (len(kv[0]), repr(kv[0]), kv[1])))


def radd(a, b, s=1):
    if a.d == b.d:
        return rnorm(Rat(padd(a.n, b.n, s), a.d))
    if not a.n:
        return Rat(pscale(b.n, s), b.d)
    if not b.n:
        return a
    da, db = dict(a.d), dict(b.d)
    na, nb = a.n, b.n
    l = {}
    for k in set(da) | set(db):
        e = max(da.get(k, 0), db.get(k, 0))
        l[k] = e
        if e > da.get(k, 0):
            na = pmul(na, ppow(dict(k), e - da.get(k, 0)))
        if e > db.get(k, 0):
            nb = pmul(nb, ppow(dict(k), e - db.get(k, 0)))
    d = tuple(sorted(l.items(), key=lambda kv: (len(kv[0]), repr(kv[0]), kv[1])))
    return reduce_sqrt(rnorm(Rat(padd(na, nb, s), d)))


def rnorm(a):
    """cancel single-factor denominators where they divide trivially (monomials, equal polys)."""
    if not a.n:
        return Rat({}, ())
    if not a.d:
        return a
    n = a.n
    out = []
    for k, e in a.d:
        p = dict(k)
        if len(p) == 1:
            (m, c), = p.items()
            # monomial (single atom) factor
            (at, ee), = m
            while e > 0 and all(_hasatom(mm, at) for mm in n):
                n = {_dropatom(mm, at): v for mm, v in n.items()}
                e -= 1
        else:
            while e > 0:
                q = pdivexact(n, p)
                if q is None:
                    break
                n = q
                e -= 1
        if e:
            out.append((k, e))
    return Rat(n, tuple(out))


def _hasatom(m, at):
    for a, e in m:
        if a == at:
            return True
    return False


def _dropatom(m, at):
    return tuple((a, e - 1) if a == at else (a, e) for a, e in m if not (a == at and e == 1))


def _mdiv(m, n):
    d = dict(m)
    for a, e in n:
        v = d.get(a, 0) - e
        if v < 0:
            return None
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def pdivexact(n, p, limit=400):
    """exact multivariate division n/p in a lex order; None if not divisible."""
    if len(n) < len(p):
        return None
    ats = sorted({a for m in list(n) + list(p) for a, e in m})
    idx = {a: i for i, a in enumerate(ats)}

    def ordk(m):
        v = [0] * len(ats)
        for a, e in m:
            v[idx[a]] = e
        return v
    lp = max(p, key=ordk)
    cp = p[lp]
    r = dict(n)
    q = {}
    steps = 0
    while r:
        steps += 1
        if steps > limit:
            return None
        lr = max(r, key=ordk)
        m = _mdiv(lr, lp)
        if m is None:
            return None
        c = _fr(Fraction(r[lr]) / cp)
        q[m] = c
        r = padd(r, {mmul(m, mm): c * v for mm, v in p.items()}, -1)
    return q


def rmul(a, b):
    n = pmul(a.n, b.n)
    d = a.d
    for k, e in b.d:
        d = _dmul(d, k, e)
    return reduce_sqrt(rnorm(Rat(n, d)))


def rinv(a):
    if not a.n:
        raise Unsup('division by zero polynomial')
    n = PONE
    for k, e in a.d:
        n = pmul(n, ppow(dict(k), e))
    p = a.n
    # split monomial content
    ms = list(p)
    com = dict(ms[0])
    for m in ms[1:]:
        dm = dict(m)
        for at in list(com):
            e = min(com[at], dm.get(at, 0))
            if e:
                com[at] = e
            else:
                del com[at]
    if com:
        cm = tuple(sorted(com.items()))
        p = {_mdiv(m, cm): v for m, v in p.items()}
    c, p = monic(p)
    if c != 1:
        n = pscale(n, Fraction(1) / c)
        n = {m: _fr(v) for m, v in n.items()}
    d = ()
    r = Rat(n, ())
    if p != PONE:
        d = _dmul(d, pkey(p), 1)
    for at, e in com.items():
        k = atomkey(at)
        if k[0] == 'sqrt':
            # 1/s^e = s^e / arg^e
            arg = _sqrtarg[at]
            r = rmul(r, Rat({((at, e),): 1}, ()))
            ia = rinv(arg)
            for _ in range(e):
                r = rmul(r, ia)
        else:
            d = _dmul(d, pkey(pvar(at)), e)
    if d:
        dd = r.d
        for k, e in d:
            dd = _dmul(dd, k, e)
        r = rnorm(Rat(r.n, dd))
    return reduce_sqrt(r)


_sqrtarg = {}    # atom -> Rat of the argument
_cosof = {}      # cos atom -> sin atom


def reduce_sqrt(a):
    """replace s^2 by its argument and cos^2 by 1-sin^2"""
    for _ in range(60):
        hit = None
        for m in a.n:
            for at, e in m:
                if e >= 2 and (at in _sqrtarg or at in _cosof):
                    hit = at if hit is None or at > hit else hit
        if hit is None:
            return a
        if hit in _sqrtarg:
            arg = _sqrtarg[hit]
        else:
            arg = Rat({(): 1, ((_cosof[hit], 2),): -1}, ())
        # collect by power
        parts = {}
        for m, c in a.n.items():
            e = dict(m).get(hit, 0)
            base = tuple((x, y) for x, y in m if x != hit)
            k, rem = divmod(e, 2)
            mm = mmul(base, ((hit, 1),)) if rem else base
            parts.setdefault(k, {})
            parts[k][mm] = parts[k].get(mm, 0) + c
        tot = Rat(parts.pop(0, {}), a.d)
        p = Rat(PONE, ())
        top = max(parts) if parts else 0
        for k in range(1, top + 1):
            p = Rat(pmul(p.n, arg.n), _dm(p.d, arg.d))
            if k in parts:
                q = {m: c for m, c in parts[k].items() if c}
                tot = radd(tot, rnorm(Rat(pmul(q, p.n), _dm(a.d, p.d))))
        a = tot
    raise Unsup('sqrt reduction')


def _dm(d, e):
    for k, x in e:
        d = _dmul(d, k, x)
    return d


RECUR = {}   # fname -> (base callable(args), step callable(args, k)) for recursive spec functions


def nf(t):
    """Rational normal form of a numeric term (raises Unsup on ite)."""
    if t._nf is not None:
        return t._nf
    o = t.op
    if o == 'const':
        r = Rat(pconst(t.args[0]), ())
    elif o == 'var':
        at = atom(('var', t.args[0], t.sort))
        _keyterm.setdefault(at, t)
        r = Rat(pvar(at), ())
    elif o == '+':
        r = radd(nf(t.args[0]), nf(t.args[1]))
    elif o == '*':
        r = rmul(nf(t.args[0]), nf(t.args[1]))
    elif o == '/':
        r = rmul(nf(t.args[0]), rinv(nf(t.args[1])))
    elif o == 'toreal':
        r = nf(t.args[0])
    elif o == 'sqrt':
        a = nf(t.args[0])
        c = rconst(a)
        if c is not None and c >= 0 and isc(sqrt(lit(c))):
            r = Rat(pconst(cval(sqrt(lit(c)))), ())
        else:
            # pull out rational square content so sqrt(4a) and 2*sqrt(a) agree
            at = atom(('sqrt', a.key()))
            _sqrtarg[at] = a
            _keyterm.setdefault(at, t)
            r = Rat(pvar(at), ())
    elif o == 'floor':
        a = nf(t.args[0])
        r = Rat(pvar(atom(('floor', a.key()))), ())
        _keyterm[atom(('floor', a.key()))] = t
    elif o == 'app':
        f = t.args[0]
        if f in RECUR:
            u = unfold(t)
            if u is not t:
                r = nf(u)
                t._nf = r
                return r
        if f in ('sin', 'cos') and len(t.args) == 2:
            r = _trig(f, nf(t.args[1]))
        else:
            ks = tuple(nf(a).key() if a.sort != B else ('b', a.id) for a in t.args[1:])
            at = atom(('app', f, ks, t.sort))
            _keyterm.setdefault(at, t)
            r = Rat(pvar(at), ())
    elif o == 'ite':
        at = atom(('ite', t.id))
        _keyterm.setdefault(at, t)
        r = Rat(pvar(at), ())
    else:
        raise Unsup(o)
    t._nf = r
    return r


_keyterm = {}


def _trig(f, a):
    """sin/cos with sums expanded: arguments that are sums of terms are split."""
    if not a.n:
        return Rat(pconst(0 if f == 'sin' else 1), ())
    if not a.d and len(a.n) > 1:
        items = sorted(a.n.items())
        p = Rat(dict(items[:1]), ())
        q = Rat(dict(items[1:]), ())
        sp, cp, sq, cq = _trig('sin', p), _trig('cos', p), _trig('sin', q), _trig('cos', q)
        if f == 'sin':
            return radd(rmul(sp, cq), rmul(cp, sq))
        return radd(rmul(cp, cq), rmul(sp, sq), -1)
    c = a.n[_lead(a.n)]
    if not a.d and len(a.n) == 1 and abs(c) in (2, 3, 4) and () not in a.n:
        # integer multiples of an angle
        u = 1 if c > 0 else -1
        p = Rat(pscale(a.n, Fraction(1) / c), ())
        p = Rat({m: _fr(v) for m, v in p.n.items()}, ())
        q = Rat({m: _fr(v * (c - u)) for m, v in p.n.items()}, ())
        p = Rat({m: _fr(v * u) for m, v in p.n.items()}, ())
        sp, cp, sq, cq = _trig('sin', p), _trig('cos', p), _trig('sin', q), _trig('cos', q)
        if f == 'sin':
            return radd(rmul(sp, cq), rmul(cp, sq))
        return radd(rmul(cp, cq), rmul(sp, sq), -1)
    sg = 1
    if c < 0:
        a = Rat(pscale(a.n, -1), a.d)
        sg = -1
    v = _arc(f, a)
    if v is not None:
        v = nf(v)
        return Rat(pscale(v.n, -1), v.d) if sg < 0 and f == 'sin' else v
    s, k = atom(('sin', a.key())), atom(('cos', a.key()))
    _cosof[k] = s
    if f == 'sin':
        return Rat({((s, 1),): sg}, ())
    return Rat(pvar(k), ())


def _arc(f, a):
    """closed form of sin/cos of an inverse trigonometric function (or of half an arccos); the terms
    arcsin(v), arccos(v) only arise where |v| <= 1"""
    if a.d or len(a.n) != 1:
        return None
    (m, c), = a.n.items()
    if len(m) != 1 or m[0][1] != 1:
        return None
    k = atomkey(m[0][0])
    if k[0] != 'app' or k[1] not in ('arctan', 'arcsin', 'arccos'):
        return None
    v = _keyterm[m[0][0]].args[1]
    if c == 1:
        if k[1] == 'arctan':
            q = sqrt(add(ONE, mul(v, v)))
            return div(v if f == 'sin' else ONE, q)
        if (f == 'sin') == (k[1] == 'arcsin'):
            return v
        return sqrt(sub(ONE, mul(v, v)))
    if c == Fraction(1, 2) and k[1] == 'arccos':
        return sqrt(div((add if f == 'cos' else sub)(ONE, v), lit(2)))
    return None


def rconst(a):
    if a.d:
        return None
    if not a.n:
        return Fraction(0)
    if len(a.n) == 1 and () in a.n:
        return Fraction(a.n[()])
    return None


def unfold(t):
    """Unfold a recursive spec function F(k, params...) at k = const or k = base+const, const>=1."""
    f = t.args[0]
    base, step = RECUR[f]
    k = t.args[1]
    c = rconst(nf(k))
    if c is not None:
        if c == 0:
            return base(*t.args[2:])
        if c > 0 and c <= 64:
            return step(lit(c - 1, I), *t.args[2:])
        return t
    a = nf(k)
    if not a.d and a.n.get((), 0) >= 1:
        km = sub(k, IONE)
        return step(norm_int(km), *t.args[2:])
    return t


def norm_int(k):
    """canonical rebuild of a linear integer term"""
    return poly_term(nf(k).n)


def poly_term(n):
    r = None
    for m, c in sorted(n.items()):
        u = lit(c, I)
        for at, e in m:
            key = atomkey(at)
            if key[0] == 'var':
                v = var(key[1], I)
            else:
                v = _keyterm[at]
            for _ in range(e):
                u = mul(u, v)
        r = u if r is None else add(r, u)
    return r if r is not None else IZERO


def real_term(n):
    """a polynomial as a real term; None when an atom has no term"""
    r = None
    for m, c in sorted(n.items()):
        u = lit(c)
        for at, e in m:
            v = _keyterm.get(at)
            if v is None:
                return None
            v = toreal(v)
            for _ in range(e):
                u = mul(u, v)
        r = u if r is None else add(r, u)
    return r if r is not None else ZERO


def same(a, b):
    """provably equal by normal form"""
    if a is b:
        return True
    try:
        return not radd(nf(a), nf(b), -1).n
    except Unsup:
        return False


def constdiff(a, b):
    try:
        return rconst(radd(nf(a), nf(b), -1))
    except Unsup:
        return None


def signed_numer(d):
    """polynomial with the sign of the rational function d (its denominators are not zero)"""
    n = d.n
    for k, e in d.d:
        if e % 2:
            q = dict(k)
            if len(q) == 1:
                (m, c), = q.items()
                if c > 0 and all(a in _sqrtarg or x % 2 == 0 for a, x in m):
                    continue            # a root that is not zero is positive
            n = pmul(n, dict(k))
            if len(n) > 400:
                return None
    return n
