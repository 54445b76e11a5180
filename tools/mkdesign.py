#!/usr/bin/env python3
"""Writes DESIGN.md: the head, then what decides each property, from the checks themselves."""
import json, os, ast, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
man = json.load(open(R + '/MANIFEST.json'))
na = {x['property']: x['reason'] for x in man['not_applicable']}
seeds = [(os.path.basename(os.path.dirname(f)), json.load(open(f))) for f in sorted(glob.glob(R + '/seeded/*/meta.json'))]
finds = [l.strip() for l in open(R + '/known_findings.txt') if l.strip() and not l.startswith('#')]
out = open(R + '/tools/design_head.md').read()
for k in sorted(na): out += '* %s (%s): %s\n' % (k, next(p['title'] for p in props if p['id'] == k), na[k])
out += '\n## Properties and what decides them\n\n'
for p in props:
    f = R + '/checks/%s.py' % p['id'].lower()
    if not os.path.exists(f): continue
    t = ast.parse(open(f).read())
    doc = ast.get_docstring(t)
    tech, _, note = doc.partition('\n')
    c = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and getattr(n.targets[0], 'id', '') in ('RULE', 'N', 'NEED', 'ASSUME', 'CPU', 'CONFIRM'):
            try: c[n.targets[0].id] = ast.literal_eval(n.value)
            except Exception: pass
    out += '### %s %s\n\n' % (p['id'], p['title'])
    out += '*Oracle.* ' + tech.split(': ', 1)[-1].rstrip('.') + '. ' + ' '.join(note.split()) + '\n\n'
    if 'RULE' in c: out += '*Explored.* ' + c['RULE'] + '\n\n'
    if 'N' in c: out += '*Bounds.* %s cases quick, %s thorough.' % (c['N'].get('quick'), c['N'].get('thorough'))
    if c.get('NEED'): out += ' A quick run that saw less than this does not pass: ' + ', '.join('%s %s' % (v, k) for k, v in c['NEED'].items()) + '.'
    out += '\n\n'
    nf = R + '/tools/design/%s.md' % p['id']
    if os.path.exists(nf): out += open(nf).read().strip() + '\n\n'
    fx = [l for l in finds if 'property=%s ' % p['id'] in l]
    if fx: out += '*Defects found.*\n' + ''.join('* %s\n' % l.replace('property=%s ' % p['id'], '') for l in fx) + '\n'
    sd = [(n, m) for n, m in seeds if m['property'] == p['id']]
    if sd: out += '*Planted bugs.*\n' + ''.join('* %s: %s (needs %s) - %s\n' % (n, m['what_it_breaks'], m['needs'], m.get('caught', 'caught')) for n, m in sd) + '\n'
out += '## Which checks catch which planted bugs\n\n| bug | property | caught by |\n|---|---|---|\n'
for n, m in seeds: out += '| %s | %s | %s |\n' % (n, m['property'], m.get('caught_by', m['property']))
open(R + '/DESIGN.md', 'w').write(out)
print(len(out), 'bytes')
