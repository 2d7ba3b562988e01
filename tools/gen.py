#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the table in props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.realpath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props  # noqa

P = sorted(props.P, key=lambda x: x['id'])
with open(f'{V}/properties.jsonl', 'w') as f:
    for x in P:
        a = {'files': x['files'], 'mechanism': [{'name': n, 'where': w} for n, w in x['mech']]}
        if x['state']:
            a['state'] = x['state']
        if x['observe']:
            a['observe_at'] = x['observe']
        f.write(json.dumps({'id': x['id'], 'title': x['title'], 'statement': x['statement'],
                            'quantifier': {'over': x['over'], 'text': x['qtext']},
                            'why_tests_cant': x['why'], 'anchors': a}) + '\n')
NOTE = ('Every obligation generated from the current source of the functions under contract must be discharged by the '
        'solver for all inputs; undischarged but unrefuted obligations are reported undecided and covered only by the '
        'labelled bounded run of the same contract on the real code. Trusts the extraction and value models of pyvc, '
        'z3, CPython and the assumed contracts on the standard library listed in the evidence. ')
checks = []
na = []
for x in P:
    nas = dict(props.NA)
    if x['id'] in nas:
        na.append({'property': x['id'], 'reason': nas[x['id']]})
        continue
    assert os.path.exists(f'{V}/contracts/{x["id"]}.py'), x['id']
    checks.append({
        'property': x['id'],
        'quick_cmd': f'python3-vt check.py {x["id"]} --tier quick',
        'thorough_cmd': f'python3-vt check.py {x["id"]} --tier thorough',
        'technique': 'contract-based deductive verification of the real functions (verification conditions from the '
                     'current source, discharged by z3/cvc5); counterexamples replayed on the real code',
        'level': 'proof', 'level_note': NOTE + x['note']})
m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. known_findings.json records repaired and known defects.'}
with open(f'{V}/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
print(len(P), 'properties', len(checks), 'checks', len(na), 'not applicable')
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(f'{V}/properties.jsonl'):
        jsonschema.validate(json.loads(l), s)
except FileNotFoundError:
    pass
