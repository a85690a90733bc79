"""Builds the extension from /repo's current tree in a scratch directory (never in /repo) and
mirrors the Python package beside it, so that oracles and replays run the real code."""
import hashlib, os, shutil, subprocess, sys, glob, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('BATOID_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
CACHE = os.path.join(VERIF, '.build')


def sources(repo):
    out = []
    for d, pat in (('src', '*.cpp'), ('pysrc', '*.cpp'), ('include', '*.h'), ('src', '*.h')):
        out += sorted(glob.glob(os.path.join(repo, d, pat)))
    return out


def flags():
    r = subprocess.run([PY, '-c', 'import pybind11,sysconfig;print(pybind11.get_include());'
                        'print(sysconfig.get_paths()["include"]);'
                        'print(sysconfig.get_config_var("EXT_SUFFIX"))'],
                       capture_output=True, text=True, check=True)
    return r.stdout.split()


class BuildError(Exception):
    pass


def build(repo=None, flavor='plain', quiet=True):
    """-> directory to put on PYTHONPATH"""
    repo = repo or REPO
    pb, pyinc, suf = flags()
    h = hashlib.sha256(flavor.encode())
    for f in sources(repo):
        h.update(os.path.relpath(f, repo).encode() + b'\0' + open(f, 'rb').read() + b'\0')
    pys = sorted(glob.glob(os.path.join(repo, 'batoid', '*.py')))
    key = h.hexdigest()[:20]
    base = os.path.join(CACHE, flavor + '-' + key)
    so = os.path.join(base, '_batoid' + suf)
    os.makedirs(base, exist_ok=True)
    if not os.path.exists(so):
        opt = ['-O2', '-g0', '-DNDEBUG', '-std=c++14', '-fPIC', '-fvisibility=hidden', '-fopenmp',
               '-w', '-I' + os.path.join(repo, 'include'), '-I' + pb, '-I' + pyinc]
        if flavor == 'asan':
            opt += ['-fsanitize=address,bounds', '-fno-omit-frame-pointer', '-g1', '-O1']
        cpps = [f for f in sources(repo) if f.endswith('.cpp')]
        # files excluded by the real build list are excluded here too
        try:
            txt = open(os.path.join(repo, 'CMakeLists.txt')).read()
            cpps = [f for f in cpps if os.path.relpath(f, repo) in txt]
        except OSError:
            pass
        tmp = base + '.tmp%d' % os.getpid()
        os.makedirs(tmp, exist_ok=True)

        def cc(f):
            o = os.path.join(tmp, os.path.relpath(f, repo).replace('/', '_') + '.o')
            p = subprocess.run(['g++'] + opt + ['-c', f, '-o', o], capture_output=True, text=True)
            return o, p
        try:
            with ThreadPoolExecutor(8) as ex:
                res = list(ex.map(cc, cpps))
            for o, p in res:
                if p.returncode:
                    raise BuildError(p.stderr[-3000:])
            o2 = os.path.join(tmp, 'out.so')
            p = subprocess.run(['g++', '-shared', '-fopenmp'] +
                               (['-fsanitize=address,bounds'] if flavor == 'asan' else []) +
                               ['-o', o2] + [o for o, _ in res], capture_output=True, text=True)
            if p.returncode:
                raise BuildError(p.stderr[-3000:])
            os.replace(o2, so)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    # package directory keyed by the Python sources too
    h2 = hashlib.sha256(key.encode())
    for f in pys:
        h2.update(open(f, 'rb').read())
    pk = os.path.join(base, 'py-' + h2.hexdigest()[:16])
    pkg = os.path.join(pk, 'batoid')
    if not os.path.exists(os.path.join(pk, 'ok')):
        os.makedirs(pkg, exist_ok=True)
        for f in pys:
            shutil.copyfile(f, os.path.join(pkg, os.path.basename(f)))
        for nm, src in (('data', os.path.join(repo, 'batoid', 'data')), ('_batoid' + suf, so)):
            d = os.path.join(pkg, nm)
            if not os.path.lexists(d):
                os.symlink(src, d)
        open(os.path.join(pk, 'ok'), 'w').close()
    d = os.path.join(pkg, 'data')
    if os.path.islink(d) and not os.path.exists(d):       # built from a copy that has gone since
        os.unlink(d)
        os.symlink(os.path.join(repo, 'batoid', 'data'), d)
    # keep the cache small
    try:
        ds = sorted((d for d in glob.glob(os.path.join(CACHE, '*-*')) if os.path.isdir(d)),
                    key=os.path.getmtime)
        for d in ds[:-12]:
            if time.time() - os.path.getmtime(d) > 3600:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass
    return pk


def env(pk, threads=4, asan=False):
    e = dict(os.environ)
    e.update(PYTHONPATH=pk + ':' + os.path.join(VERIF, 'oracles'), PYTHONDONTWRITEBYTECODE='1',
             PYTHONHASHSEED='0', OMP_NUM_THREADS=str(threads), OMP_WAIT_POLICY='passive',
             OPENBLAS_NUM_THREADS='1')
    if asan:
        lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True,
                             text=True).stdout.strip()
        # the C++ runtime must be there before the sanitizer looks for __cxa_throw
        std = subprocess.run(['gcc', '-print-file-name=libstdc++.so.6'], capture_output=True,
                             text=True).stdout.strip()
        e['LD_PRELOAD'] = lib + ' ' + std
        e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1'
    return e


if __name__ == '__main__':
    t = time.time()
    print(build(flavor=sys.argv[1] if len(sys.argv) > 1 else 'plain'), time.time() - t)
