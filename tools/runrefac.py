"""runrefac.py [ID...]: apply each behaviour-preserving edit of refactors.py to a scratch copy of
/repo and run the listed checks on it; prints the ones that are not quiet."""
import ast, os, shutil, subprocess, sys, textwrap, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refactors import REFACS


def redefine(src, qual, new):
    '''Replace the function `qual` (Class.method or function), decorators kept, by the text `new`.'''
    node = ast.parse(src)
    for part in qual.split('.'):
        node = next(n for n in node.body if getattr(n, 'name', None) == part)
    lines = src.splitlines(True)
    ind = ' '*node.col_offset
    return ''.join(lines[:node.lineno-1]) + textwrap.indent(textwrap.dedent(new).strip('\n'), ind) + '\n' + \
        ''.join(lines[node.end_lineno:])


V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or list(REFACS)
d = '/tmp/refac-%d' % os.getpid()
for i in ids:
    props, edits = REFACS[i]
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    bad = False
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        if isinstance(old, tuple):
            open(p, 'w').write(redefine(s, old[0], new))
            continue
        if s.count(old) < 1:
            print(i, 'NO MATCH', f, repr(old[:60]))
            bad = True
            break
        open(p, 'w').write(s.replace(old, new, 1))
    if bad:
        continue
    for q in os.environ.get('ONLY', '').split() or props:
        t = time.time()
        r = subprocess.run(['python3-vt', 'check.py', q], cwd=V, env=dict(os.environ, VERIF_REPO=d),
                           capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
        print('%-20s %s rc=%d %.0fs %s' % (i, q, r.returncode, time.time()-t, ' '.join(v)[-120:]), flush=True)
        if r.returncode:
            for l in r.stdout.splitlines():
                if 'FAIL' in l or 'fail' in l or 'unproved' in l or 'UNPROVED' in l or 'unsupported' in l:
                    print('     ', l[:300])
            print(r.stderr[-500:])
shutil.rmtree(d, ignore_errors=True)
