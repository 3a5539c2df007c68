#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  state=state, observe=observe, technique=technique, note=note, na=na))


exec(open(os.path.join(HERE, 'tools', 'table.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['quant']},
             'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'state': [dict(name=a, meaning=b, where=c) for a, b, c in p['state']],
                         'mechanism': [dict(name=a, where=b) for a, b in p['mech']], 'observe_at': list(p['observe']), 'hook_needed': None}}
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': 'python3-vt -m sa.selftest', 'checks': [], 'not_applicable': [],
     'notes': 'All checks are static: they parse /repo/machup/*.py on every run and never import or execute it. No hooks are needed.'}
for p in P:
    if p['na']:
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3-vt -m sa.check %s' % p['id'],
                            'thorough_cmd': 'python3-vt -m sa.check %s --tier thorough' % p['id'],
                            'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(m['checks']), 'claimed')
