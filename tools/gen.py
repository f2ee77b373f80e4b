import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import spec  # noqa: E402

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for k in sorted(spec.P):
        f.write(json.dumps(spec.P[k]['doc']) + '\n')
m = {'version': 1,
     'setup_cmd': 'python3 tools/setup.py',
     'checks': [], 'not_applicable': []}
for k in sorted(spec.P):
    p = spec.P[k]
    if k in spec.NOT_APPLICABLE:
        m['not_applicable'].append({'property': k,
                                    'reason': spec.NOT_APPLICABLE[k]})
        continue
    m['checks'].append({
        'property': k,
        'quick_cmd': f'python3 check.py {k}',
        'thorough_cmd': f'python3 check.py {k}',
        'technique': 'static analysis: ' + p['technique'],
        'level': 'other',
        'level_note': p['note'] or (
            'Decides every obligation it enumerates from the source, over '
            'the reals (no floating-point rounding), trusting the models of '
            'the Python/numpy/shapely operations in sa/ext.py; obligations '
            'it cannot decide are counted as undecided in the evidence and '
            'never reported as violations.')})
m['notes'] = ('Pure source analysis with the Python standard library only; '
              'no hooks in /repo. See DESIGN.md.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
