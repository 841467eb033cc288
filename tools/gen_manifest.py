"""writes MANIFEST.json from virc/units.py"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from virc.units import CHECKS, NOTAPP
ids = [json.loads(l)['id'] for l in open(R + '/properties.jsonl')]
checks = []
for i in ids:
    if i not in CHECKS:
        continue
    c = CHECKS[i]
    checks.append({'property': i, 'quick_cmd': './check ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./check ' + i,
                   'technique': c.get('technique', 'deductive verification: contracts on the real code, verification conditions from its LLVM IR, SMT'),
                   'level': c.get('level', 'proof'), 'level_note': c['note']})
na = [{'property': i, 'reason': NOTAPP.get(i, 'not built yet')} for i in ids if i not in CHECKS]
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check regenerates LLVM IR from the current /repo and re-discharges every obligation.'}
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
