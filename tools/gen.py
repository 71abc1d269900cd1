"""Writes properties.jsonl and MANIFEST.json from props_data.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'tools')]
from props_data import PROPS  # noqa: E402

TECH = {
    'default': 'runtime monitoring: reference-model oracle over seeded random workloads of the real code',
}
lines, checks, na = [], [], []
for p in PROPS:
    if not os.path.exists(os.path.join(HERE, 'rv', 'props', p['id'].lower() + '.py')):
        print('no module for', p['id'])
        continue
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
    lines.append(json.dumps({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
        'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                    'observe_at': p['observe'], 'hook_needed': None}}))
    tech = p.get('tech') or TECH['default']
    checks.append({'property': p['id'], 'quick_cmd': f"./check {p['id']} quick",
                   'thorough_cmd': f"./check {p['id']} thorough", 'evidence_file': f"evidence/{p['id']}.json",
                   'technique': tech, 'level': 'exploration',
                   'level_note': 'Executions of the unmodified code from /repo observed by an independent oracle on seeded workloads; '
                                 'covers what the workload reaches (counts in the evidence file), no proof beyond it. '
                                 'Trusts JAX, NumPy, SciPy, SymPy and mpmath.'})
open(os.path.join(HERE, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: instrumentation is attached from outside (callbacks, jaxpr-level recorders, subprocesses).'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
