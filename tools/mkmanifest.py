#!/usr/bin/env python3-vt
# Writes MANIFEST.json: every property with a registered check is claimed.
import json, re, glob, os
import jsonschema
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set()
for f in glob.glob(root + '/harness/*.go'):
    have |= set(re.findall(r'checks\["(C\d\d)"\] =', open(f).read()))
T = json.load(open(root + '/tools/techniques.json'))
checks, na = [], []
for l in open(root + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    if i in have:
        checks.append({'property': i, 'quick_cmd': f'bash /verif/check.sh {i}', 'thorough_cmd': f'VERIF_TIER=thorough bash /verif/check.sh {i}',
                       'technique': T[i][0], 'level': T[i][2] if len(T[i]) > 2 else 'exploration', 'level_note': T[i][1]})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'bash /verif/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the monitors observe the library at its public boundary (rune reader, lexer, parser, ESTree), the built command and the built wasm module.'}
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
