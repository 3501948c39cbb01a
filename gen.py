#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from sa/meta.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from sa.meta import P, NA

NOTE = ('Decides the structural content of the property for every path of the analysed functions in every analysed feature '
        'configuration: the values a user sees are shown to be the required terms over the inputs. Trusts the compiler\'s MIR, the '
        'models of std and dependency calls in sa/models.py, and the correctness of the cryptographic crates. Paths the analysis '
        'cannot resolve are counted as undecided in the evidence and never alarm. ')
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as o:
    for p in sorted(P + NA, key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['title']
        o.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'].strip(),
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 -m sa.build',
     'checks': [{'property': p['id'], 'quick_cmd': f'python3 check.py {p["id"]}', 'thorough_cmd': f'python3 check.py {p["id"]} --thorough',
                 'technique': p['technique'], 'level': 'other', 'level_note': (NOTE + p['level_note']).strip()} for p in P],
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
     'notes': 'static analysis of the MIR of /repo in four feature configurations; see DESIGN.md'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)


def doc(n):
    return open(os.path.join(ROOT, 'doc', n)).read()


with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as o:
    o.write(doc('head.md'))
    for p in sorted(P, key=lambda p: p['id']):
        o.write(f'**{p["id"]} {p["title"]}.** {p["rule_text"][0].upper() + p["rule_text"][1:]}. '
                f'Rules: {", ".join("`" + r + "`" for r in p["rules"])}.')
        o.write((' ' + p['level_note'].strip() if p['level_note'] else '') + '\n\n')
    o.write('### Not applicable\n\n')
    for p in NA:
        o.write(f'- {p["id"]} {p["title"]}: {p["reason"]}\n')
    o.write('\n' + doc('tail.md'))
    o.write('| planted bug | needs | reported by |\n|---|---|---|\n')
    for l in doc('catches.txt').splitlines():
        i, c = l.split(None, 1)
        f = os.path.join(ROOT, 'seeded', i, 'meta.json')
        need = json.load(open(f))['needs'] if os.path.exists(f) else ''
        o.write(f'| {i} | {need} | {c} |\n')
