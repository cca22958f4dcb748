"""regenerates MANIFEST.json from rules/registry.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from rules import registry as R
checks = []
for p, s in sorted(R.PROPS.items()):
    checks.append({'property': p, 'quick_cmd': f'python3 check.py {p}', 'thorough_cmd': f'python3 check.py {p} --tier thorough',
                   'technique': s.get('technique', R.TECHNIQUE), 'level': 'other', 'level_note': s.get('note') or s['explain'] or 'static'})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(R.NOT_APPLICABLE.items())],
     'notes': 'No hooks in /repo. All checks read the MIR dump of the current /repo working tree, built by engine/dump.py; nothing of /repo is executed.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
