"""Writes MANIFEST.json from lib/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
from registry import CHECKS
sys.path.insert(0, V + '/tools')
from notes import N
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTE = ('Bounded to the enumerated cases. Trusts TLC, the JVM\'s IEEE doubles and the recording drivers.')
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
     'hooks': {'guard': 'none (no hooks: everything is observed through the public API)', 'enable': 'nothing to enable', 'source_commits': []},
     'checks': [{'property': p['id'], 'quick_cmd': f'bash check.sh {p["id"]}', 'thorough_cmd': f'VERIF_TIER=thorough bash check.sh {p["id"]}',
                 'technique': CHECKS[p['id']].get('technique', 'TLA+ specification, TLC case generation and TLC trace validation of the real code'),
                 'level': 'model_checking', 'level_note': (lambda n: f'{n[0]} Explored: {n[1]} Compared: {n[2]} ' + (f'Limits: {n[3]} ' if n[3] else '') + NOTE)(N[p['id']])}
                for p in props if p['id'] in CHECKS],
     'not_applicable': [{'property': p['id'], 'reason': 'specification not written yet'} for p in props if p['id'] not in CHECKS],
     'notes': 'See DESIGN.md. Known findings: known-findings.txt.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not claimed')
