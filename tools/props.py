#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/disseminate/'
PROPS = []
CHECKS = {}
NA = {}


def prop(id, title, statement, over, text, why, files, mech, observe=None,
         level='exploration', technique=None, note=None, na=None, state=None):
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
                     mechanism=[dict(name=n, where=S + w) for n, w in mech],
                     state=[dict(name=a, meaning=b, where=S + c)
                            for a, b, c in (state or [])],
                     observe_at=observe or [], hook_needed=None)))
    if technique:
        CHECKS[id] = dict(
            property=id, quick_cmd='bash run.sh %s --tier quick' % id,
            thorough_cmd='bash run.sh %s --tier thorough' % id,
            technique=technique, level=level, level_note=note)
    else:
        NA[id] = na or 'no check yet (under construction)'


exec(open(os.path.join(HERE, 'tools', 'props_data.py')).read())

PROPS.sort(key=lambda p: p['id'])
CHECKS = {k: CHECKS[k] for k in sorted(CHECKS)}
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
manifest = dict(
    version=1, setup_cmd='bash setup.sh',
    hooks=dict(guard='VERIF_HOOKS', enable='No hooks were added to the '
               'repository: the monitors wrap the real functions from the '
               'harness process (harness/), so nothing has to be enabled.',
               source_commits=[]),
    checks=[CHECKS[p['id']] for p in PROPS if p['id'] in CHECKS],
    not_applicable=[dict(property=p['id'], reason=NA[p['id']])
                    for p in PROPS if p['id'] in NA],
    notes='run.sh ID [--tier T] [--seed N]; run.sh ID --replay FILE reruns '
          'one recorded case. DESIGN.md describes the monitors, '
          'known_findings.txt the recorded and repaired defects.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(PROPS), 'properties,', len(CHECKS), 'checks')
