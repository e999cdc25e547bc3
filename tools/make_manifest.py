import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, 'tools'))
from design_data import D
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    checks.append({
        'property': i, 'quick_cmd': f'./run.sh {i} --tier quick',
        'thorough_cmd': f'./run.sh {i} --tier thorough',
        'technique': D[i][0], 'level': 'exploration',
        'level_note': D[i][1]})
json.dump({'version': 1,
           'setup_cmd': '/opt/venv/bin/python -c "from pbt import env; '
                        'env.load_hypothesis(); print(env.load_target())"',
           'checks': checks, 'not_applicable': []},
          open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
