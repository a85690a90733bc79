#!/usr/bin/env python3
"""python3-vt check.py PROPERTY      decide one property on /repo's current working tree
python3-vt check.py PROPERTY --replay FILE   re-run what FILE records

1. deductive part: obligations are generated from /repo's current source and discharged
2. bounded part (labelled bounded, never counted as proved): contract monitors on the real build
Exit 0: every obligation discharged and nothing found; exit 1: VIOLATION line(s)."""
import sys, os, json, time, importlib, subprocess, threading, hashlib
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
sys.path.insert(0, os.path.join(VERIF, 'specs'))
sys.setrecursionlimit(20000)
REPO = os.environ.get('VERIF_REPO', '/repo')


def log(*a):
    print(*a, flush=True)


def safe(x):
    if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))):
        return repr(x)
    if isinstance(x, dict):
        return {str(k): safe(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [safe(v) for v in x]
    return x


class Bounded(threading.Thread):
    """build the current tree and run the contract monitors of a property against it"""

    def __init__(s, pid, seed, tier, flavor, limit, models=None, tag=''):
        super().__init__(daemon=True)
        s.pid, s.seed, s.tier, s.flavor, s.limit = pid, seed, tier, flavor, limit
        s.models, s.tag = models, tag
        s.res, s.err, s.wall = None, None, 0.0

    def run(s):
        import build
        t0 = time.time()
        try:
            pk = build.build(REPO, flavor=s.flavor)
            s.t_build = time.time() - t0
            os.makedirs(os.path.join(VERIF, '.build'), exist_ok=True)
            out = os.path.join(VERIF, '.build', 'oracle-%s%s-%d.json' % (s.pid, s.tag, os.getpid()))
            mf = ''
            if s.models:
                mf = out + '.models'
                json.dump(safe(s.models), open(mf, 'w'))
            cmd = ['/opt/venv/bin/python', os.path.join(VERIF, 'oracles', 'run.py'), s.pid, str(s.seed),
                   s.tier, out] + ([mf] if mf else [])
            p = subprocess.Popen(cmd, env=build.env(pk, asan=s.flavor == 'asan'), stdout=subprocess.PIPE,
                                 stderr=subprocess.STDOUT, text=True, cwd=VERIF, start_new_session=True)
            try:
                o, _ = p.communicate(timeout=s.limit)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                o, _ = p.communicate()
                rc = 'timeout'
            try:
                s.res = json.load(open(out))
            except Exception:
                s.res = None
            for f in (out, mf):
                if f and os.path.exists(f):
                    os.unlink(f)
            last = ''
            if os.path.exists(out + '.last'):
                last = open(out + '.last').read()
                os.unlink(out + '.last')
            if s.res is None or rc not in (0,):
                s.res = s.res or dict(evaluations=0, violations=[], samples=[], known=[])
                s.res['violations'].append(dict(
                    what='the program ended abnormally (%s) while evaluating: %s' % (rc, last),
                    case=dict(output=(o or '')[-3000:])))
            s.out = o
        except build.BuildError as x:
            s.err = 'build failed: %s' % x
        except Exception as x:
            s.err = repr(x)
        s.wall = time.time() - t0


def main():
    pid = sys.argv[1]
    if '--replay' in sys.argv:
        return replay(pid, sys.argv[sys.argv.index('--replay') + 1])
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    spec = importlib.import_module(pid)
    flavor = getattr(spec, 'FLAVOR', 'plain')
    limit = getattr(spec, 'BLIMIT', 420) if tier == 'quick' else 3000
    bt = None
    if getattr(spec, 'BOUNDED', True):
        bt = Bounded(pid, seed, tier, flavor, limit)
        bt.start()
    viol = []          # (what, replay-dict, found_input)
    known = []
    # ---------------------------------------------------------------- deductive part
    import cxxast, prove, unit
    res = []
    generr = None
    prog = None
    try:
        if getattr(spec, 'CXX', True):
            prog = cxxast.Prog(REPO)
            if prog.errors:
                raise RuntimeError('clang: %s' % prog.errors[:2])
        units = spec.units(prog, tier)
        if tier == 'thorough':
            for u in units:
                u.tmo *= 3
                u.hard *= 4
        t00 = time.time()

        def undecided(r):
            bad = [o for o in r.obls if o['status'] != 'proved' and not (o['kind'] == 'inv' and 'cand' in o['meta'])]
            return bad and all(o['status'] == 'unknown' for o in bad)
        dl = time.time() + (540 if tier == 'quick' else 6000)

        def prog_line(r):
            n = len(r.obls)
            ok = sum(o['status'] == 'proved' for o in r.obls)
            log('  %-58s %4d/%-4d obligations  %6.1fs  %s' % (r.name[:58], ok, n, r.t, r.error or ''))
        res = unit.run_units(units, prog, deadline=dl, progress=prog_line,
                             nproc=6 if bt else 8)
        # undecided (not refuted) obligations get a second, longer attempt when little else runs
        again = [i for i, r in enumerate(res) if r.error is None and undecided(r)]
        if again and len(again) <= 8 and time.time() - t00 < 240:
            log('  second attempt: %s' % ', '.join(res[i].name for i in again))
            if bt:
                bt.join()
            for i in again:
                units[i].tmo *= 2
            for i, r in zip(again, unit.run_units([units[i] for i in again], prog, nproc=3, progress=prog_line,
                                                  deadline=min(dl, time.time() + 240))):
                if r.error is None:
                    res[i] = r
    except Exception as x:
        import traceback
        generr = 'obligation generation failed: %r\n%s' % (x, traceback.format_exc())
        log(generr)
    failed = []
    for r in res:
        for o in r.obls:
            if o['status'] != 'proved' and not (o['kind'] == 'inv' and 'cand' in o['meta']):
                failed.append((r, o))
    for r in res:
        if r.error:
            failed.append((r, dict(name='contract of ' + ', '.join(r.funcs), kind='unit', status='undecided',
                                   backend='', model=None, text=r.error, t=r.t, func=r.name)))
    if generr:
        class E:
            name, funcs = 'generation', []
        failed.append((E, dict(name='obligation generation', kind='unit', status='undecided', model=None,
                               text=generr, t=0, func='', backend='')))
    # ---------------------------------------------------------------- bounded part
    bounded = None
    if bt:
        bt.join()
        if bt.err:
            log('bounded part: ' + bt.err)
            viol.append(('the current tree does not build', dict(error=bt.err), False))
        else:
            bounded = bt.res
            log('bounded: %d evaluations, %d violations, %.1fs (build %.1fs)' % (
                bounded.get('evaluations', 0), len(bounded.get('violations', [])), bt.wall, bt.t_build))
    # replay of the verifier's counterexamples against the real code
    cex = None
    models = [dict(unit=r.name, obligation=o['name'], model=o['model'], meta=o.get('meta', {}))
              for r, o in failed if o.get('model')]
    if models and bt and not bt.err and not bounded.get('violations'):
        if tier == 'quick':
            limit = max(30, min(limit, 800 - (time.time() - t0)))
        b2 = Bounded(pid, seed, tier, flavor, limit, models=models[:20], tag='-cex')
        b2.start()
        b2.join()
        cex = b2.res
    # ---------------------------------------------------------------- verdict
    kf = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    kf_open = [k for k in kf['findings'] if k['property'] == pid]
    found = []
    for src, b in (('monitor', bounded), ('counterexample', cex)):
        for v in (b or {}).get('violations', []):
            found.append(dict(v, source=src))
        for k in (b or {}).get('known', []):
            known.append(k)
    repl = None
    os.makedirs(os.path.join(VERIF, 'replay', 'out'), exist_ok=True)
    rpath = os.path.join(VERIF, 'replay', 'out', '%s.json' % pid)
    if failed or found or viol:
        repl = dict(property=pid, seed=seed, tier=tier, flavor=flavor,
                    command='VERIF_SEED=%d VERIF_TIER=%s python3-vt /verif/check.py %s --replay %s' % (seed, tier, pid, rpath),
                    failing_inputs=found[:20],
                    failed_obligations=[dict(unit=r.name, functions=list(r.funcs), obligation=o['name'], kind=o['kind'],
                                             status=o['status'], backend=o['backend'], solver_model=o.get('model'),
                                             verifier_output=o['text'][:6000]) for r, o in failed[:40]],
                    other=[v[0] for v in viol])
        json.dump(safe(repl), open(rpath, 'w'), indent=1, default=str)
    for r, o in failed[:12]:
        log('FAILED OBLIGATION  %s :: %s  [%s %s] %s' % (r.name, o['name'], o['status'], o['backend'],
                                                         o['text'][:300] if o['kind'] == 'unit' else ''))
    for v in found[:8]:
        log('FAILING INPUT (%s): %s  %s' % (v['source'], v['what'], json.dumps(safe(v.get('case')), default=str)[:600]))
    for k in kf_open:
        hit = [x for x in known if x.get('id') == k['id']]
        if hit:
            log('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    nviol = 0
    if failed or found or viol:
        nviol = max(1, len(found))
        log('VIOLATION property=%s replay=%s%s' % (pid, rpath, '' if found else ' no-failing-input-found'))
    elif os.path.exists(rpath):
        os.unlink(rpath)
    evidence(pid, spec, tier, seed, res, failed, bounded, bt, known, nviol, time.time() - t0)
    return 1 if nviol else 0


def evidence(pid, spec, tier, seed, res, failed, bounded, bt, known, nviol, wall):
    every = res
    bd = [r for r in res if getattr(r, 'bounded', None)]
    res = [r for r in res if not getattr(r, 'bounded', None)]
    ob = [o for r in res for o in r.obls]
    back = {}
    kinds = {}
    for o in ob:
        if o['status'] == 'proved':
            back[o['backend']] = back.get(o['backend'], 0) + 1
        kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
    cov = dict(
        obligations=len(ob) + sum(1 for r in res if r.error),
        discharged=sum(o['status'] == 'proved' for o in ob),
        checker_cmd='python3-vt /verif/check.py %s' % pid,
        trusted_base=list(getattr(spec, 'TRUSTED', [])) + TRUSTED,
        functions_under_contract=sorted({f for r in res for f in r.funcs}),
        functions_inlined_in_callers=sorted({f for r in res for f in r.inlined}),
        contracts_used_at_calls=sorted({f for r in res for f in r.callees}),
        discharged_by_backend=back, obligations_by_kind=kinds,
        solver_time_s=round(sum(o['t'] or 0 for o in ob), 2),
        units=[dict(unit=r.name, functions=r.funcs, obligations=len(r.obls),
                    discharged=sum(o['status'] == 'proved' for o in r.obls), paths=r.paths,
                    seconds=round(r.t, 2), error=r.error) for r in res],
        samples=[o['name'] for o in ob[:5]])
    if bd:
        cov['bounded_units'] = [dict(unit=r.name, functions=r.funcs, bound=r.bounded, checks=len(r.obls),
                                     passed=sum(o['status'] == 'proved' for o in r.obls), error=r.error,
                                     note='sizes enumerated up to the bound; not counted as proved') for r in bd]
    if bounded is not None:
        cov['bounded_stand_in'] = dict(
            note='bounded run-time contract monitoring of the real build; not counted as proved',
            evaluations=bounded.get('evaluations', 0),
            distinct_nontrivial=bounded.get('distinct', 0), rule=bounded.get('rule', ''),
            bound=bounded.get('bound', ''), by_clause=bounded.get('by_clause', {}),
            samples=bounded.get('samples', [])[:6], wall_s=round(bt.wall, 1))
    if getattr(spec, 'LEVEL', 'proof') != 'proof' and bounded is not None:
        cov['evaluations'] = bounded.get('evaluations', 0)
        cov['distinct_nontrivial'] = bounded.get('distinct', 0)
        cov['rule'] = bounded.get('rule', '')
        cov['samples'] = bounded.get('samples', [])[:6]
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(spec, 'LEVEL', 'proof'),
              coverage=cov, assumptions=list(getattr(spec, 'ASSUME', [])) + ASSUME +
              sorted({x for r in every for x in r.trusted}), wall_s=round(wall, 2), violations=nviol)
    if known:
        ev['coverage']['known_findings_reproduced'] = [k.get('id') for k in known]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(safe(ev), open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, default=str)


TRUSTED = [
    'clang 18 parser/type checker (the obligations are generated from its typed AST of /repo/src)',
    'the verification-condition generators /verif/lib/cxx.py and /verif/lib/pysym.py',
    'the term normal form /verif/lib/terms.py, sympy Groebner bases, z3 4.x, cvc5',
]
ASSUME = [
    'double arithmetic is treated as exact real arithmetic extended with NaN and infinities (no rounding)',
    'int/size_t arithmetic does not overflow (array lengths below 2^31)',
]


def replay(pid, path):
    d = json.load(open(path))
    log(json.dumps(dict(failing_inputs=d['failing_inputs'][:3],
                        failed_obligations=[o['obligation'] for o in d['failed_obligations']]), indent=1)[:4000])
    os.environ['VERIF_SEED'] = str(d['seed'])
    os.environ['VERIF_TIER'] = d['tier']
    sys.argv = [sys.argv[0], pid]
    return main()


if __name__ == '__main__':
    sys.exit(main())
