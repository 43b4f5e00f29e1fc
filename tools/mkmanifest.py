#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules present (TECHNIQUE, LEVEL, LEVEL_NOTE) and properties.jsonl."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(path):
    out = {}
    with open(path) as f:
        for node in ast.parse(f.read()).body:
            if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
                try:
                    out[node.targets[0].id] = ast.literal_eval(node.value)
                except ValueError:
                    pass
    return out


checks, missing = [], []
with open(os.path.join(HERE, 'properties.jsonl')) as f:
    props = [json.loads(line) for line in f if line.strip()]
for p in props:
    path = os.path.join(HERE, 'checks', p['id'].lower() + '.py')
    if not os.path.exists(path):
        missing.append({'property': p['id'], 'reason': 'the check for this property is not built yet'})
        continue
    c = consts(path)
    checks.append({
        'property': p['id'],
        'quick_cmd': '/opt/venv/bin/python check.py %s quick' % p['id'],
        'thorough_cmd': '/opt/venv/bin/python check.py %s thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': c['TECHNIQUE'],
        'level': c.get('LEVEL', 'exploration'),
        'level_note': c['LEVEL_NOTE'],
    })
manifest = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python check.py --selftest setup',
    'checks': checks,
    'not_applicable': missing,
    'notes': 'No hooks in /repo: the monitors watch the public interfaces of the unmodified code, its store, fetcher and clock '
             'boundaries, audit events and system calls. Replay a violation with: /opt/venv/bin/python check.py --replay FILE',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(missing), 'missing')
