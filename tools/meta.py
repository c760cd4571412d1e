#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property table below and vcg/props.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'vcg'))
import props
H = 'include/bwsl/'
TAB = []


def P(id, title, statement, over, qtext, why, files, mech, observe=()):
    TAB.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
                'anchors': {'files': [H + f for f in files], 'mechanism': [{'name': n, 'where': H + w} for n, w in mech], 'observe_at': list(observe), 'hook_needed': None}})


exec(open(os.path.join(ROOT, 'tools', 'properties.py')).read())
TECH = 'contract-based deductive verification of the real code: obligations generated from the LLVM IR of /repo\'s headers and discharged by z3/cvc5'
ids = [t['id'] for t in TAB]
assert len(set(ids)) == len(ids)
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for t in TAB: f.write(json.dumps(t) + '\n')
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': [],
     'notes': 'Every check compiles the contract units in contracts/ against /repo\'s current headers, generates the proof obligations from that LLVM IR and discharges them; see DESIGN.md.'}
for t in TAB:
    i = t['id']
    if i in props.PROPS:
        p = props.PROPS[i]
        m['checks'].append({'property': i, 'quick_cmd': f'./check {i} quick', 'thorough_cmd': f'./check {i} thorough', 'technique': TECH, 'level': p.get('level', 'proof'),
                            'level_note': ('Unbounded proof: every obligation is discharged for all inputs and iterations. ' if p.get('level', 'proof') == 'proof' else '') + 'Assumes: ' + '; '.join(p['assumptions']) + '. Trusted: clang front end and LLVM simplification passes, the obligation generator, z3/cvc5, contracts of std:: containers and libm.'})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA[i]})
for i in props.PROPS: assert i in ids, i
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(TAB), 'properties,', len(m['checks']), 'checks')
