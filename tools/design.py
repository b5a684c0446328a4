#!/usr/bin/env python3
"""Writes DESIGN.md from docs/, tools/props.py, the //@ lines of the harnesses, seeded/*/meta.json, seeded results and known_findings.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, f'{V}/tools')
from props import P
import check
o = [open(f'{V}/docs/head.md').read(), '## Properties\n']
na = []
for q in P:
    if q['na']: na.append(q); continue
    o.append(f"### {q['id']} {q['title']}\n")
    o.append(q['statement'] + '\n')
    o.append(f"*Quantified over*: {q['text']}. *Why tests cannot settle it*: {q['why']}.")
    o.append(f"*Decided by*: {q['note']}." if q['note'] else '')
    for f in sorted(os.listdir(f'{V}/harness')):
        if not f.startswith(q['id'] + '_'): continue
        h = check.parse_harness(f[:-4])
        o.append(f"*Encoded*: `harness/{f}`, entries {', '.join('`' + e['name'] + '`' + (' (thorough)' if e['tier'] == 'thorough' else '') for e in h['entries'])}, driving {', '.join('`' + x + '`' for x in q['observe'])}." if q['observe'] else f"*Encoded*: `harness/{f}`, entries {', '.join('`' + e['name'] + '`' for e in h['entries'])}.")
        for b in h['bounds']: o.append(f'* bound: {b}')
        for b in h['assume']: o.append(f'* left open: {b}')
    o.append('')
o.append('## Not applicable\n')
o += [f"* {q['id']} {q['title']}: {q['na']}" for q in na] or ['None of the listed properties; see the last sections for parts of the library that are not claimed.']
o.append('\n## Planted bugs\n\nEach is in `seeded/<id>/` (patch, demonstration, description), compiles, passes the 380 tests and was run against the check of its property.\n')
R = json.load(open(f'{V}/docs/seeded.json')) if os.path.exists(f'{V}/docs/seeded.json') else {}
o.append('| bug | property | needs | caught by |\n|---|---|---|---|')
for s in sorted(os.listdir(f'{V}/seeded')):
    m = json.load(open(f'{V}/seeded/{s}/meta.json'))
    o.append(f"| {s} | {m['property']} | {m['needs']} | {R.get(s, 'not run')} |")
k = json.load(open(f'{V}/known_findings.json'))
o.append('\n## Findings recorded, not repaired\n')
for f in k['findings']: o.append(f"* {f['property']} ({f['entry']}): {f['what']}. " + f.get('why', ''))
o.append('\n## Defects repaired in /repo ("fix:" commits)\n')
for f in k['fixed']: o.append('* ' + (f if isinstance(f, str) else json.dumps(f)))
o.append('\n' + open(f'{V}/docs/tail.md').read())
open(f'{V}/DESIGN.md', 'w').write('\n'.join(o))
