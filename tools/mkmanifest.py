"""Writes MANIFEST.json from properties.jsonl and the check modules."""
import ast, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{R}/properties.jsonl')]
checks, na = [], []
NA = {}
for p in props:
    f = f'{R}/vf/checks/{p["id"].lower()}.py'
    if not os.path.exists(f):
        na.append({'property': p['id'],
                   'reason': NA.get(p['id'], 'no check built yet')})
        continue
    consts = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                consts[n.targets[0].id] = ast.literal_eval(n.value)
            except Exception:
                pass
    checks.append({
        'property': p['id'],
        'quick_cmd': f'bash run.sh {p["id"]} quick',
        'thorough_cmd': f'bash run.sh {p["id"]} thorough',
        'evidence_file': f'evidence/{p["id"]}.json',
        'technique': consts.get(
            'TECHNIQUE', 'runtime monitoring: oracle over executions of '
            'generated workloads'),
        'level': consts.get('LEVEL', 'exploration'),
        'level_note': consts.get(
            'LEVEL_NOTE', 'Holds on every monitored execution of the seeded '
            'workload; trusts the independent oracle in vf/ and the '
            'generators\' reach (counts in the evidence file).'),
    })
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
           'not_applicable': na,
           'notes': 'No hooks in /repo: all instrumentation is attached from '
                    'the harness at run time.'},
          open(f'{R}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not claimed')
