"""Functions of /repo that no evidence file lists as under contract (or inlined in a caller that is)."""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seen = set()
for f in glob.glob(V + '/evidence/*.json'):
    c = json.load(open(f))['coverage']
    for k in ('functions_under_contract', 'functions_inlined_in_callers'):
        seen |= set(c.get(k, []))
    for u in c.get('bounded_units', []):
        seen |= set(u['functions'])
tot = miss = 0
for p in sorted(glob.glob('/repo/batoid/*.py')):
    rel = os.path.relpath(p, '/repo')
    if rel.endswith(('app.py', 'plotUtils.py', '_version.py')):
        continue
    t = ast.parse(open(p).read())
    for n in t.body:
        fs = [(n.name, n)] if isinstance(n, ast.FunctionDef) else \
             [(n.name + '.' + m.name, m) for m in n.body if isinstance(m, ast.FunctionDef)] if isinstance(n, ast.ClassDef) else []
        for q, m in fs:
            tot += 1
            if rel + '::' + q not in seen:
                miss += 1
                print(rel, q)
cpp = {s for s in seen if '::' in s and not s.startswith('batoid/')} | {s for s in seen if '/' not in s}
print(tot, 'python functions,', miss, 'not listed')
for p in sorted(glob.glob('/repo/src/*.cpp')):
    s = open(p).read()
    for m in re.finditer(r'^ {4,8}(?:[\w:<>*&]+ )+?\*?((?:\w+::)?~?\w+)\(', s, re.M):
        n = m.group(1)
        if n.split('::')[-1] not in {x.split('::')[-1] for x in cpp} and '~' not in n and not n.endswith(('getDevPtr', 'freeDevPtr')):
            print(os.path.basename(p), n)
