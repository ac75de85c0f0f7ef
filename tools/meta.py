#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below (run by hand when the table changes)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []          # (id, title, statement, over, quant text, why, files, mechanism[(name, where)], technique, note)
NA = []         # (id, title, statement, over, text, why, files, mechanism, reason)


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append((id, title, statement, over, text, why, files, mech, technique, note))


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append((id, title, statement, over, text, why, files, mech, reason))


exec(open(os.path.join(root, 'tools', 'table.py')).read())

with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for r in P + NA:
        id, title, st, over, text, why, files, mech = r[:8]
        assert len(title) <= 80, title
        f.write(json.dumps({'id': id, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
                            'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 lib/facts.py --build',
     'checks': [{'property': r[0], 'quick_cmd': './check ' + r[0], 'thorough_cmd': './check %s --thorough' % r[0], 'technique': r[8], 'level': 'other', 'level_note': r[9]} for r in P],
     'not_applicable': [{'property': r[0], 'reason': r[8]} for r in NA],
     'notes': 'All checks are static analyses of /repo\'s current sources (clang syntax trees lowered to a control-flow IR and abstractly interpreted; Perl op trees). No hooks in /repo.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
