"""write MANIFEST.json and known_findings.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIM = sorted(f[:-3] for f in os.listdir(V+'/specs') if f.startswith('P') and f[1:3].isdigit()
               and os.path.exists(V+'/oracles/o'+f))
TECH = 'contract-based deductive verification of the real code (obligations generated from the current source, discharged by ' \
       'algebraic normal forms, Groebner bases, z3 and cvc5)'
NOTE = 'Contracts on the functions the property depends on are checked against their bodies for all inputs, obligations are ' \
       'regenerated from /repo on every run. Assumes exact real arithmetic in place of floating point, no integer overflow, and the ' \
       'generators and solvers. A bounded run-time monitor of the same contracts runs beside it (labelled bounded, never counted as proved).'
LN = {}
if os.path.exists(V+'/tools/levels.json'):
    LN = json.load(open(V+'/tools/levels.json'))
checks = []
for p in CLAIM:
    d = LN.get(p, {})
    checks.append(dict(property=p, quick_cmd='python3-vt check.py %s' % p, thorough_cmd='VERIF_TIER=thorough python3-vt check.py %s' % p,
                       evidence_file='evidence/%s.json' % p, technique=d.get('technique', TECH), level=d.get('level', 'proof'),
                       level_note=d.get('note', NOTE)))
allp = [json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
na = [dict(property=p, reason='check not built yet') for p in allp if p not in CLAIM]
json.dump(dict(version=1, setup_cmd='python3-vt lib/build.py', checks=checks, not_applicable=na), open(V+'/MANIFEST.json', 'w'), indent=1)
FIXED = """5e1a79e P12/P24; c18a0c9 P14/P24; 8b8ec79 P05; 3dc6376 P03; 655f8b8 P07/P08; cfbe7be P10; 08e4f08 P10/P08; 1e49ee9 P19; 3603241 P19/P09; 0cbd282 P09; 089b732 P20; 2069aa6 P09/P11; 909ffc0 P20; f9fad92 P20; c4ddb26 P18; 4e0a070 P18; 9f34146 P18; de0e1bf P16; e2cad2b P16; d4f1aaa P16; bd3b9c2 P16; 5671be8 P16; 7a3bfe2 P16; 16ef3c8 P16; 17345dc P16; e2f2105 P01; 904399f P23; fdef0e4 P25; 723ed40 P22; 729f71e P22; 44d9c0b P21; daaef84 P21; 2ac64a8 P16; da9663a P16; 87af119 P22; 813eb37 P13; 03492fa P25; ace08ce P20"""
import subprocess
fixed = []
for e in FIXED.split(';'):
    h, ps = e.split()
    m = subprocess.run(['git', '-C', '/repo', 'log', '-1', '--format=%h %s', h], capture_output=True, text=True).stdout.strip()
    msg = m.split(' ', 1)[1]
    for p in ps.split('/'):
        fixed.append('fixed: property=%s %s %s' % (p, h, msg.replace('fix: ', '')))
find = [dict(id='tilted-normal', property='P04',
             what='Tilted.normal returns (-tanx, -tany, sqrt(1-tanx^2-tany^2)): unit length and upward, but not perpendicular to '
                  'z = tanx*x + tany*y, and not a number for slopes with tanx^2+tany^2 > 1 (call site src/tilted.cpp Tilted::normal; '
                  'pinned by tests/test_Tilted.py, so recorded, not repaired)',
             where='src/tilted.cpp Tilted::normal', input='any Tilted(tanx, tany) other than (0, 0)'),
        dict(id='nested-insert', property='P20',
             what='CompoundOptic.withInsertedOptic and withRemovedOptic accept the name of an element below the first level and return '
                  'the system unchanged (call sites batoid/optic.py withInsertedOptic, withRemovedOptic; tests/test_Optic.py '
                  'test_insert_middle removes and reinserts a nested element and compares with the original, and a Lens refuses any '
                  'number of surfaces but two, so recorded, not repaired)',
             where='batoid/optic.py CompoundOptic.withInsertedOptic, CompoundOptic.withRemovedOptic',
             input='a name of an element inside a nested compound')]
json.dump(dict(findings=find, fixed=fixed), open(V+'/known_findings.json', 'w'), indent=1)
print(len(checks), 'claimed;', len(na), 'not yet;', len(fixed), 'fixed')
