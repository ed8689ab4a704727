"""Writes MANIFEST.json from checks/*.py and the not-applicable list below."""
import glob, importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.path.insert(0, os.path.join(H, 'tools'))
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
from design_notes import NA
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(H, 'checks', i + '.py')):
        m = importlib.import_module('checks.' + i)
        checks.append({'property': i, 'quick_cmd': 'bin/check ' + i, 'thorough_cmd': 'bin/check %s --tier thorough' % i,
                       'technique': m.TECHNIQUE, 'level': getattr(m, 'LEVEL', 'other'), 'level_note': ' '.join(m.LEVEL_NOTE.split())})
    else:
        na.append({'property': i, 'reason': ' '.join(NA.get(i, 'No check built yet.').split())})
d = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks are static: they compile analysis drivers against the current sources to IR (or only type-check them) and never run the code. See DESIGN.md.'}
json.dump(d, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
