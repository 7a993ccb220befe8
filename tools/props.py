#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below.  A property is claimed when checks/<id>.py exists."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, observe=observe or []))


EQ = 'static value equivalence: abstract interpretation to gated value numbers, compared with a reference definition by canonical rewriting'
EFF = 'static may-alias and effect analysis: interprocedural summaries of what in-place operations can reach, to a fixpoint'
TRUST = ('Decides equality of real-valued expressions, not floating-point rounding; the reference definitions under /verif/spec, the '
         'parser and the numpy transfer functions in /verif/sa are trusted. Nothing of the library is executed.')
exec((ROOT / 'tools' / 'proplist.py').read_text(encoding='utf8'))

with open(ROOT / 'properties.jsonl', 'w', encoding='utf8') as f:
    for p in P:
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
            why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                                                  observe_at=p['observe'], hook_needed=None))) + '\n')
checks, na = [], []
for p in P:
    if (ROOT / 'checks' / f"{p['id']}.py").exists():
        assert p['technique'], p['id']
        checks.append(dict(property=p['id'], quick_cmd=f"python3 check.py {p['id']} --tier quick",
                           thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
                           evidence_file=f"evidence/{p['id']}.json", technique=p['technique'], level='other', level_note=p['note']))
    else:
        na.append(dict(property=p['id'], reason=p['na'] or 'no check is registered for this property yet'))
json.dump(dict(version=1, setup_cmd='python3 --version', checks=checks, not_applicable=na,
               notes='No hooks: the checks parse /repo and execute nothing of it.'),
          open(ROOT / 'MANIFEST.json', 'w', encoding='utf8'), indent=1)
print(len(P), 'properties', len(checks), 'claimed', len(na), 'not applicable')
