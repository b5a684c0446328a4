#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py; --check validates them against the schemas."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, f'{V}/tools')
from props import P
lines, checks, na = [], [], []
for q in P:
    lines.append(json.dumps({'id': q['id'], 'title': q['title'], 'statement': q['statement'], 'quantifier': {'over': q['over'], 'text': q['text']}, 'why_tests_cant': q['why'],
        'anchors': {'files': q['files'], 'mechanism': [{'name': a, 'where': b} for a, b in q['mech']], 'observe_at': q['observe'], 'hook_needed': None}}))
    if q['na']: na.append({'property': q['id'], 'reason': q['na']}); continue
    checks.append({'property': q['id'], 'quick_cmd': f'tools/check {q["id"]} quick', 'thorough_cmd': f'tools/check {q["id"]} thorough', 'evidence_file': f'evidence/{q["id"]}.json',
        'technique': 'symbolic execution of the LLVM bitcode of the real code, decided by Z3',
        'level': 'model_checking', 'level_note': (q['note'] + '; ' if q['note'] else '') + 'holds for every input within the bounds stated in the harness and the evidence; counterexamples are replayed on natively compiled code; trusts clang, the engine, Z3'})
    assert any(f == q['id'] + '.cpp' or f.startswith(q['id'] + '_') for f in os.listdir(f'{V}/harness')), q['id']
open(f'{V}/properties.jsonl', 'w').write('\n'.join(lines) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 tools/build.py all', 'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. No hooks in /repo: the checks compile its sources to bitcode and to a shared library of their own.'}
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1); open(f'{V}/MANIFEST.json', 'a').write('\n')
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in lines: jsonschema.validate(json.loads(l), s)
    print('valid', len(checks), 'checks')
except ImportError: print('jsonschema missing; not validated')
