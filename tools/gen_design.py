"""Writes DESIGN.md: tools/design_pre.md, one section per property, the planted bugs, tools/design_post.md."""
import glob, importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.path.insert(0, os.path.join(H, 'tools'))
from design_notes import WHY, NA
seeds = {}
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(f))
    seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
out = [open(H + '/tools/design_pre.md').read()]
for l in open(H + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    out.append('### %s %s\n\n' % (i, p['title']))
    if os.path.exists('%s/checks/%s.py' % (H, i)):
        m = importlib.import_module('checks.' + i)
        out.append('*Method:* %s.\n\n' % m.TECHNIQUE)
        if i in WHY:
            out.append(' '.join(WHY[i].split()) + '\n\n')
        out.append('*Bounds and trust:* %s\n\n' % ' '.join(m.LEVEL_NOTE.split()))
    else:
        out.append('*Not applicable:* %s\n\n' % ' '.join(NA[i].split()))
out.append('## Planted bugs (`seeded/`)\n\nEach compiles, passes the repository\'s tests, and has a demonstration which fails with it. "Caught" is recorded by\n`tools/mkseed.py` from a run of the property\'s check with the patch applied.\n\n| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n')
caught = json.load(open(H + '/tools/caught.json')) if os.path.exists(H + '/tools/caught.json') else {}
for p in sorted(seeds):
    for n, m in seeds[p]:
        c = caught.get(n, True)
        out.append('| %s | %s | %s | %s | %s |\n' % (n, p, m['what_it_breaks'], m['needs'], p if c is True else 'not caught' if not c else c))
out.append('\n' + open(H + '/tools/design_post.md').read())
open(H + '/DESIGN.md', 'w').write(''.join(out))
