"""MANIFEST.json from engine/rules.py and the notes below (run by hand when the claims change)."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, 'engine'))
import rules
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NA = {}
exec(open(os.path.join(H, 'not_applicable.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in rules.RULES:
        r = rules.RULES[i]
        checks.append({'property': i, 'quick_cmd': 'python3 engine/check.py %s' % i,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 engine/check.py %s --tier thorough' % i,
                       'technique': r['technique'], 'level': 'other',
                       'level_note': r['note']})
    else:
        na.append({'property': i, 'reason': NA[i]})
m = {'version': 1, 'setup_cmd': 'bash dump.sh build/dump.setup.json && rm -f build/dump.setup.json',
     'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
