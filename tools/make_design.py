"""DESIGN.md = hand-written head + per-property section + seeded table."""
import glob, importlib, json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [root, os.path.join(root, 'tools')]
from pbt import env
env.load_hypothesis(); env.load_target()
from design_data import D
out = [open(os.path.join(root, 'tools', 'design_head.md')).read()]
out.append('## Per property\n')
for l in open(os.path.join(root, 'properties.jsonl')):
    p = json.loads(l)
    m = importlib.import_module('checks.' + p['id'].lower())
    t, how, why = D[p['id']]
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(f"*{t}.* {how}\n")
    out.append('Beyond the tests: ' + why + '. ' + 'Cases (quick / thorough): '
               + ', '.join(f'{s.name} {s.quick} / {s.thorough}'
                           for s in m.SUBS) + '.')
    out.append(m.RULE[0].upper() + m.RULE[1:] + '.')
    if getattr(m, 'ASSUMPTIONS', None):
        out.append('Bounds: ' + '; '.join(m.ASSUMPTIONS) + '.')
    out.append('')
out.append('## Planted bugs\n')
f = os.path.join(root, 'tools', 'seeded_results.json')
res = json.load(open(f)) if os.path.exists(f) else {}
out.append('| id | property | needs | caught by (quick, seed 1) |\n|---|---|---|---|')
for d in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    out.append(f"| {i} | {m['property']} | {m['needs']} | {res.get(i, '?')} |")
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
