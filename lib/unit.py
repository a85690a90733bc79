"""Verification units: one unit = one function (or one clause of a contract) checked against its
contract.  Units run in forked workers; inside a worker the Houdini loop drops definitional loop
invariant candidates that are not inductive."""
import os, sys, time, signal, pickle, select, traceback, hashlib
import terms as tm
import prove, engine, cxx, cxxast, fp
from engine import Engine, PathEnd, Unsupported


class Unit:
    def __init__(s, name, funcs, fn, tmo=20.0, hard=240.0, replay=None, minpost=1, files=()):
        s.name, s.funcs, s.fn = name, list(funcs), fn
        s.tmo, s.hard, s.replay, s.minpost = tmo, hard, replay, minpost
        s.files = list(files)
        s.bounded = None     # text of the bound, for units that enumerate sizes
        s.drop = ()          # obligation kinds left to other properties' runs of this unit


class Res:
    """picklable result of a unit"""

    def __init__(s, name):
        s.name = name
        s.obls = []        # dicts
        s.error = None
        s.inlined, s.callees, s.trusted = [], [], []
        s.paths = 0
        s.t = 0.0
        s.funcs = []
        s.bounded = None


class U:
    """what a unit's spec function gets: the engine and helpers"""

    def __init__(s, name, prog):
        s.name, s.prog = name, prog
        s.e = Engine(name)
        s.dead = set()

    def exec(s, contracts=None, fold=None, ghost=None, mode=None):
        return cxx.Exec(s.prog, s.e, contracts, fold, ghost, mode)

    def post(s, name, goal, hyps=None, **k):
        o = s.e.oblige(name, goal, kind='post', **k)
        if hyps is not None:
            o.hyps = list(hyps)
        return o

    def lemma(s, name, goal, hyps=None):
        """proved here (from hyps only, when given), assumed afterwards"""
        o = s.e.oblige('lemma: ' + name, goal, kind='lemma')
        if hyps is not None:
            o.hyps = list(hyps)
            bad = [h for h in hyps if h not in s.e.pc]
        if hyps is None or not bad:
            s.e.assume(goal)
        return o

    def assume(s, *cs):
        for c in cs:
            s.e.assume(c)

    def feasible(s):
        if s.e.infeasible():
            raise PathEnd()

    def trust(s, what):
        s.e.trusted.add(what)


def run_unit(unit, prog, tmo=None):
    r = Res(unit.name)
    r.funcs = unit.funcs
    r.bounded = unit.bounded
    t0 = time.time()
    dead = set()
    try:
        for rnd in range(12):
            u = U(unit.name, prog)
            u.e.dead = dead
            u.e.explore(lambda: unit.fn(u))
            obls = u.e.obls
            inv = [o for o in obls if o.kind == 'inv' and o.cand is not None]
            prove.discharge(inv, tmo or unit.tmo, nproc=2)
            bad = {o.cand for o in inv if o.status != 'proved'}
            if bad - dead:
                dead |= bad
                continue
            break
        if unit.drop:
            r.paths = u.e.npaths
            obls = [o for o in obls if o.kind not in unit.drop]
            prove.discharge(obls, tmo or unit.tmo, nproc=2)
            if not r.paths:
                r.error = 'vacuous: no path'
            posts = None
        else:
            prove.discharge(obls, tmo or unit.tmo, nproc=2)
            posts = [o for o in obls if o.kind == 'post']
        if posts is None:
            pass
        elif len(posts) < unit.minpost:
            r.error = 'vacuous: only %d postcondition obligations were generated' % len(posts)
        # vacuity: some postcondition must have satisfiable hypotheses
        elif posts and not any(prove.feasible(o.hyps, 2000) for o in posts):
            r.error = 'vacuous: contradictory hypotheses'
        for o in obls:
            r.obls.append(dict(name=o.name, kind=o.kind, status=o.status, backend=o.backend,
                               t=o.t, model=o.model, func=o.func,
                               text=o.show() if o.status != 'proved' else '', meta={
                                   k: v for k, v in o.meta.items() if isinstance(v, (str, int, float, bool))}))
        r.paths = u.e.npaths
        r.inlined = sorted(u.e.inlined)
        r.callees = sorted(u.e.callees)
        r.trusted = sorted(u.e.trusted)
    except Unsupported as x:
        r.error = 'outside the verifier\'s subset: %s' % x
        if os.environ.get('VDEBUG'):
            traceback.print_exc()
    except fp.Poisoned:
        r.error = 'an unset value is used'
        if os.environ.get('VDEBUG'):
            traceback.print_exc()
    except Exception as x:
        r.error = 'generation failed: %r' % x
        r.trace = traceback.format_exc()
        if os.environ.get('VDEBUG'):
            traceback.print_exc()
    r.t = time.time() - t0
    return r


def run_units(units, prog, nproc=None, deadline=None, progress=None):
    """fork one worker per unit; at most nproc at a time"""
    nproc = nproc or max(2, (os.cpu_count() or 4))
    pend = list(units)[::-1]
    run = {}
    out = {}
    while pend or run:
        while pend and len(run) < nproc:
            un = pend.pop()
            rd, wr = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                os.close(rd)
                try:
                    res = run_unit(un, prog)
                    data = pickle.dumps(res)
                except BaseException as x:
                    res = Res(un.name)
                    res.error = 'worker failed: %r' % (x,)
                    data = pickle.dumps(res)
                with os.fdopen(wr, 'wb') as f:
                    f.write(data)
                os._exit(0)
            try:
                os.setpgid(pid, pid)
            except OSError:
                pass
            os.close(wr)
            run[rd] = (un, pid, time.time(), [])
        ready, _, _ = select.select(list(run), [], [], 0.1)
        for rd in ready:
            un, pid, t0, buf = run[rd]
            c = os.read(rd, 1 << 20)
            if c:
                buf.append(c)
                continue
            os.close(rd)
            del run[rd]
            os.waitpid(pid, 0)
            try:
                out[un.name] = pickle.loads(b''.join(buf))
            except Exception as x:
                res = Res(un.name)
                res.error = 'worker died'
                out[un.name] = res
            out[un.name].funcs = un.funcs
            if progress:
                progress(out[un.name])
        now = time.time()
        for rd, (un, pid, t0, buf) in list(run.items()):
            if now - t0 > un.hard or (deadline and now > deadline):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                os.close(rd)
                del run[rd]
                res = Res(un.name)
                res.error = 'time limit'
                res.funcs = un.funcs
                res.t = now - t0
                out[un.name] = res
                if progress:
                    progress(res)
    return [out[u.name] for u in units]
