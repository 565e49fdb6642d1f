"""Writes properties.jsonl and MANIFEST.json.  CLAIMED: the properties with a check."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), level='model_checking', tech='', note='', na=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  state=state, level=level, tech=tech, note=note, na=na))


exec(open(os.path.join(V, 'tools', 'props_data.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        a = {'files': x['files'], 'mechanism': [{'name': n, 'where': w} for n, w in x['mech']], 'hook_needed': None}
        if x['state']: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in x['state']]
        f.write(json.dumps({'id': x['id'], 'title': x['title'], 'statement': x['statement'],
                            'quantifier': {'over': x['over'], 'text': x['qtext']}, 'why_tests_cant': x['why'],
                            'anchors': a}) + '\n')
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': []}
for x in P:
    if x['na']:
        m['not_applicable'].append({'property': x['id'], 'reason': x['na']})
    else:
        m['checks'].append({'property': x['id'], 'quick_cmd': './check %s quick' % x['id'], 'thorough_cmd': './check %s thorough' % x['id'],
                            'evidence_file': 'evidence/%s.json' % x['id'], 'technique': x['tech'], 'level': x['level'], 'level_note': x['note']})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
for name, doc, schema in (('m', m, '/root/.vp/MANIFEST.schema.json'),):
    pass
print(len(P), 'properties', len(m['checks']), 'checks', len(m['not_applicable']), 'not claimed')
