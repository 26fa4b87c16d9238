#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

def prop(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state, observe=observe, hook=hook))

exec(open(os.path.join(ROOT, 'tools', 'props.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                 observe_at=list(p['observe']), hook_needed=p['hook'])
        if p['state']:
            a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['text']),
                                why_tests_cant=p['why'], anchors=a), ensure_ascii=False) + '\n')

checks = [dict(property=p['id'], quick_cmd=f"bash check.sh {p['id']} quick", thorough_cmd=f"bash check.sh {p['id']} thorough",
               technique=p['technique'], level='model_checking', level_note=p['note']) for p in P]
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=NA,
               hooks=dict(guard='none', enable='no hooks: every check drives the public API of the crate built from /repo', source_commits=[]),
               notes='See DESIGN.md. bash check.sh <id> replay <file> re-runs one recorded case.'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(P), 'properties')
