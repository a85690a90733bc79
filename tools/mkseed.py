"""mkseed.py ID...: write /verif/seeded/<ID>/ from tools/seeds.py and validate it on a copy of /repo"""
import sys, os, json, subprocess, shutil, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
V = os.path.dirname(HERE)
W = os.environ.get('SEEDREPO', '/tmp/seedrepo')


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def sync():
    os.makedirs(W, exist_ok=True)
    sh('cp -a /repo/. %s/' % W) if not os.path.exists(W+'/src') else None
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q FETCH_HEAD', cwd=W)


def inns(cmd, tmo=1500):
    """run with the copy mounted over /repo, in a private mount namespace"""
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (W, cmd)],
                          capture_output=True, text=True, timeout=tmo)


def make(sid, s):
    d = os.path.join(V, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    sync()
    for f, old, new in s['edits']:
        p = os.path.join(W, f)
        t = open(p).read()
        if t.count(old) != s.get('count', 1):
            raise SystemExit('%s: %s occurs %d times in %s' % (sid, old, t.count(old), f))
        open(p, 'w').write(t.replace(old, new))
    diff = sh('git diff', cwd=W).stdout
    open(d+'/patch.diff', 'w').write(diff)
    open(d+'/demo.py', 'w').write("import sys, os\nsys.path.insert(0, '/repo')\nos.environ.setdefault('OMP_NUM_THREADS', '8')\n"
                                  'import warnings\nwarnings.simplefilter("ignore")\n'
                                  'import numpy as np\nnp.seterr(all="ignore")\nimport batoid\n' + s['demo'].strip()+'\nprint("ok")\n')
    open(d+'/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d+'/demo.sh', 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d+'/meta.json', 'w'), indent=1)
    return d


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('stable', 'passing', 'passed', 'tests'):
        if k in b:
            return set(b[k])
    return set(b)


def validate(sid, d, test=True):
    b = inns('bash /opt/vp/build.sh >/tmp/vb-%s.log 2>&1' % sid)
    if b.returncode:
        return 'does not build'
    r = inns('bash %s/demo.sh' % d)
    if r.returncode == 0:
        return 'demo passes with the patch: '+r.stdout[-300:]
    msg = (r.stderr or r.stdout).strip().splitlines()[-1:]
    bad = ''
    if test:
        o = '/tmp/vt-%s.json' % sid
        inns('bash /opt/vp/test.sh %s > /tmp/vtest-%s.log 2>&1' % (o, sid))
        try:
            t = json.load(open(o))
        except Exception:
            return 'no test result'
        pas = set(t.get('passed', []))
        miss = stable()-pas
        if miss:
            bad = 'FAILS TESTS %s' % sorted(miss)[:4]
    sh('git checkout -q -- .', cwd=W)
    inns('bash /opt/vp/build.sh >/tmp/vb-%s.log 2>&1' % sid)
    r = inns('bash %s/demo.sh' % d)
    if r.returncode != 0:
        return 'demo fails on the clean tree: '+(r.stderr or r.stdout)[-500:]
    return bad or 'OK  %s' % msg


if __name__ == '__main__':
    import seeds
    args = sys.argv[1:]
    test = '-n' not in args
    args = [a for a in args if a != '-n']
    for sid in args or list(seeds.S):
        t = time.time()
        try:
            d = make(sid, seeds.S[sid])
            print('%-16s %s  (%.0fs)' % (sid, validate(sid, d, test), time.time()-t), flush=True)
        except BaseException as x:
            print('%-16s ERROR %r' % (sid, x), flush=True)
            if isinstance(x, KeyboardInterrupt):
                raise
    sync()
