"""writes properties.jsonl and MANIFEST.json from the table below (tools/proptable.py)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from proptable import PROPS, NA
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(H + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p.get('over', ['inputs']), 'text': p['quant']},
                            'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': p['mech'], 'where': ', '.join(p['files'])}]}}) + '\n')
checks = []
for p in PROPS:
    if p['id'] in NA or p.get('na'):
        continue
    checks.append({'property': p['id'], 'quick_cmd': 'bin/check ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough bin/check ' + p['id'],
                   'technique': 'contract-based deductive verification: contracts on the real functions, verification conditions generated from the LLVM IR of the current source, discharged by z3 (no bound)',
                   'level': 'proof', 'level_note': p.get('note') or
                   'Every obligation of every contract is proved for all inputs and all iterations; trusts the clang front end, the VC generator in engine/ and z3; machine integers exact, floats as reals; allocation assumed to succeed; well-formed non-aliasing images below 2^31 bytes assumed.'})
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in PROPS if p.get('na')],
     'notes': 'See DESIGN.md. No hooks in /repo. known_findings.json lists the defects found (fixed and known).'}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
