#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D, P, U, M = 'FCollada/FCDocument/', 'FColladaPlugins/FArchiveXML/', 'FCollada/FUtils/', 'FCollada/FMath/'
PROPS = []
def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note))

exec(open(V + '/tools/props.py').read())

rows, checks, na = [], [], []
for p in sorted(PROPS, key=lambda p: p['id']):
    assert len(p['title']) <= 80, p['title']
    rows.append(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])))
    if os.path.exists(f"{V}/checks/{p['id']}.cpp"):
        checks.append(dict(property=p['id'], quick_cmd=f"./check {p['id']}", thorough_cmd=f"./check {p['id']} --tier thorough", evidence_file=f"evidence/{p['id']}.json",
                           technique=p['technique'] or 'property-based testing', level='exploration',
                           level_note=p['note'] or 'Seeded generated-input search with shrinking under AddressSanitizer and selected UBSan checks; explores, does not prove. Trusts the oracle written in the harness and the clang build of /repo\'s sources.'))
    else:
        na.append(dict(property=p['id'], reason='The generated-input check for this property is not built yet.'))
open(V + '/properties.jsonl', 'w').write(''.join(json.dumps(r) + '\n' for r in rows))
m = dict(version=1, setup_cmd='./check C14 --build-only', checks=checks, not_applicable=na,
         notes='No hooks are needed: the harness compiles /repo\'s sources directly. known_findings.txt lists repaired and recorded defects.')
open(V + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks,', len(na), 'not claimed')
