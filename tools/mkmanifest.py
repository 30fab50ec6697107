"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import importlib.util
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, 'tools', 'levels.json')))
checks, missing = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    if os.path.exists(os.path.join(HERE, 'vf', 'props', p.lower() + '.py')):
        n = NOTES[p]
        checks.append({'property': p, 'quick_cmd': f'/opt/venv/bin/python run.py {p}',
                       'thorough_cmd': f'/opt/venv/bin/python run.py {p} --tier thorough',
                       'technique': n['technique'], 'level': n.get('level', 'exploration'), 'level_note': n['note']})
    else:
        missing.append({'property': p, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python run.py --selftest', 'checks': checks, 'not_applicable': missing,
           'notes': 'No hooks: the checks drive the unmodified code. All repository commits are fix: commits, listed in KNOWN_FINDINGS.md.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(missing), 'missing')
