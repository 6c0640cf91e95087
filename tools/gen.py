#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from this one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IN = 'inputs'; HI = 'histories'; CO = 'configurations'; PR = 'programs'
P = []
def prop(id, title, statement, over, text, why, files, mech, level='proof', note=None, technique=None, observe=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level, note=note, technique=technique, observe=list(observe), na=na))
TECH = 'contract-based deductive verification: contracts and inductive loop invariants on the real headers compiled to LLVM IR, every obligation discharged by z3/cvc5; native replay driver'
exec(open(os.path.join(V, 'tools', 'table.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], observe_at=p['observe'])), ensure_ascii=False) + '\n')
        assert len(p['title']) <= 80, p['title']
m = dict(version=1, setup_cmd='python3-vt tools/setup.py',
    checks=[dict(property=p['id'], quick_cmd=f'VERIF_TIER=quick python3-vt check.py {p["id"]}', thorough_cmd=f'VERIF_TIER=thorough python3-vt check.py {p["id"]}', technique=p['technique'] or TECH, level=p['level'], level_note=p['note']) for p in P if not p['na']],
    not_applicable=[dict(property=p['id'], reason=p['na']) for p in P if p['na']],
    notes='No hooks are needed: nothing in /repo is guarded. The only commits in /repo are fix: commits (listed in known_findings.txt).')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
