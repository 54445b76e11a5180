#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry for every property that has checks/cNN.py."""
import json, os, ast, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
NA = {}
nap = os.path.join(R, 'tools', 'na.json')
if os.path.exists(nap): NA = json.load(open(nap))
checks, na = [], []
for p in props:
    f = os.path.join(R, 'checks', p['id'].lower() + '.py')
    if not os.path.exists(f):
        na.append({'property': p['id'], 'reason': NA.get(p['id'], 'no check built yet')}); continue
    doc = ast.get_docstring(ast.parse(open(f).read()))
    tech, _, note = doc.partition('\n')
    checks.append({'property': p['id'], 'quick_cmd': './run.sh %s --tier quick' % p['id'], 'thorough_cmd': './run.sh %s --tier thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': 'runtime monitoring: ' + tech.split(': ', 1)[-1], 'level': 'exploration',
                   'level_note': ' '.join(note.split()) or 'Seeded randomised executions of the real code under an online/offline monitor; holds on what was explored, see the evidence file for what that was.'})
m = {'version': 1, 'setup_cmd': './run.sh --selftest', 'checks': checks, 'not_applicable': na,
     'hooks': {'guard': 'none', 'enable': 'no hooks: the checks substitute clocks, sockets and the helper process from outside (lib/vsim.py)', 'source_commits': []},
     'notes': 'Pure Python: nothing to build; every check imports the code from /repo directly. Genuine defects repaired or recorded: known_findings.txt.'}
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent = 1)
print(len(checks), 'checks,', len(na), 'not applicable')
