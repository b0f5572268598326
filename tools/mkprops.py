#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = ['newt/qlm.py', 'newt/qlmACH.py', 'newt/qlmNum.py', 'newt/bigQlm.py', 'newt/bigQlmNum.py']
P = []


def prop(id, title, statement, text, why, files, mech, state=(), over=('inputs',), tech=None, note=None, na=None,
         observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m) for n, m in state],
                               **({'observe_at': observe} if observe else {})),
                  tech=tech, note=note, na=na))


exec(open(os.path.join(V, 'tools', 'proptable.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        q = {k: v for k, v in p.items() if k not in ('tech', 'note', 'na')}
        f.write(json.dumps(q) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 -m compileall -q check.py sa',
       'checks': [], 'not_applicable': [],
       'notes': 'Every check parses the current source of /repo and runs abstract interpretations (graded typing) on '
                'it; nothing of the repository is imported or executed.'}
for p in P:
    if p['na']:
        man['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else:
        man['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                              'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                              'technique': p['tech'], 'level': 'other', 'level_note': p['note']})
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
