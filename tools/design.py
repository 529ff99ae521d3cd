#!/usr/bin/env python3
"""DESIGN.md from tools/design.in.md, properties.jsonl, the checks and seeded/
(run: python3 tools/design.py)."""
import ast, glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
man = json.load(open('MANIFEST.json'))
checks = {c['property']: c for c in man['checks']}
na = {c['property']: c['reason'] for c in man['not_applicable']}
out = []
for line in open('properties.jsonl'):
    p = json.loads(line)
    out.append('## %s %s\n' % (p['id'], p['title']))
    out.append(p['statement'] + '\n')
    if p['id'] in na:
        out.append('Not claimed: ' + na[p['id']] + '\n')
        continue
    c = checks[p['id']]
    out.append('*Deciding method*: ' + c['technique'] + '.\n')
    f = 'harness/checks/%s.py' % p['id'].lower()
    t = ast.parse(open(f).read())
    doc = (ast.get_docstring(t) or '').split('\n\n')
    if len(doc) > 1:
        out.append('\n\n'.join(doc[1:]) + '\n')
    v = {}
    for n in ast.walk(t):
        if isinstance(n, ast.ClassDef) and n.name == 'Check':
            for a in n.body:
                if isinstance(a, ast.Assign):
                    try:
                        v[a.targets[0].id] = ast.literal_eval(a.value)
                    except ValueError:
                        pass
    out.append('*Oracle*: ' + v['rule'] + '\n')
    out.append('*Bounds*: %d cases quick, %d thorough, at most %s s / %s s '
               'of new cases on 8 workers; the run is inconclusive below %s.'
               '\n' % (v.get('quick_n', 100), v.get('thorough_n', 1000),
                       v.get('quick_s', 150), v.get('thorough_s', 720),
                       ', '.join('%s=%s' % x for x in
                                 v.get('floor', {}).items())))
    if v.get('assumptions'):
        out.append('*Assumptions*: ' + '; '.join(v['assumptions']) + '.\n')
    out.append('*Why the tests cannot*: ' + p['why_tests_cant'] + '\n')
    if c.get('level_note'):
        out.append('*Note*: ' + c['level_note'] + '\n')
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
caught = {}
if os.path.exists('tools/caught.json'):
    caught = json.load(open('tools/caught.json'))
for m in sorted(glob.glob('seeded/*/meta.json')):
    d = json.load(open(m))
    i = m.split('/')[1]
    rows.append('| %s | %s | %s | %s |' % (i, d['property'], d['needs'],
                                           caught.get(i, 'not yet run')))
s = open('tools/design.in.md').read()
s = s.replace('@@PROPS@@', '\n'.join(out)).replace('@@SEEDED@@',
                                                   '\n'.join(rows))
open('DESIGN.md', 'w').write(s)
