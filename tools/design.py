#!/usr/bin/env python3
"""DESIGN.md from the prose, the property table, the contracts, the harnesses and the seeded changes."""
import glob
import importlib
import json
import os
import re
import sys
H = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
sys.path[:0] = [H, os.path.join(H, 'tools')]
import props
from design_how import HOW, NOTES

out = [open(os.path.join(H, 'tools', 'design_head.md')).read().rstrip(), '']
kf = json.load(open(os.path.join(H, 'known_findings.json')))['findings']
for na in props.NA:
    out.append(f'* {na["id"]} {na["title"]}: {na["reason"]}' if isinstance(na, dict) else f'* {na}')
out += ['', '# The properties', '']
for d in sorted(props.P, key=lambda d: d['id']):
    i = d['id']
    m = importlib.import_module('contracts.' + i)
    src = open(os.path.join(H, 'harness', i + '.py')).read()
    rule = re.search(r"^RULE = \(?(.*?)(?=\n[A-Za-z_@])", src, re.S | re.M).group(1)
    rule = ' '.join(x for x in re.findall(r"'([^']*)'", rule)).replace('  ', ' ')
    out += [f'## {i} {d["title"]}', '', d['statement'], '']
    if i in HOW:
        out += [f'*How*: {HOW[i]}', '']
    out.append('*Code*: ' + '; '.join(f'{b} ({a})' for a, b in d['mech']) + '.')
    names = [c.name for c in m.CONTRACTS]
    out.append(f'*Contracts* ({len(names)}): ' + ', '.join(names) + '.')
    out.append(f'*Quantified over*: {d["qtext"]}.' + (f' *Domain*: {d["note"]}.' if d['note'] else ''))
    out.append('*Assumed*: ' + '; '.join(getattr(m, 'ASSUMES', []) or ['nothing beyond the engine']) + '.')
    out.append(f'*Executable contract (bounded)*: {rule}.')
    out.append(f'*Why tests do not settle it*: {d["why"]}.')
    fx = [f for f in kf if f['property'] == i]
    if fx:
        out.append('*Found*: ' + '; '.join(f'{f["what"]} ({f["status"]}' + (f', {f["commit"]}' if f.get('commit') else '') + ')'
                                           for f in fx) + '.')
    out.append('')
out += ['# Seeded changes', '', 'Each was confirmed to build, pass the stable tests and fail its demonstration, then run '
        'against the check of its property (`tools/plant.py`).', '', '| id | needs | caught by |', '|---|---|---|']
caught = {}
cf = os.path.join(H, 'tools', 'caught.json')
if os.path.exists(cf):
    caught = json.load(open(cf))
for f in sorted(glob.glob(os.path.join(H, 'seeded', '*', 'meta.json'))):
    n = os.path.basename(os.path.dirname(f))
    meta = json.load(open(f))
    out.append(f'| {n} | {meta["needs"]} | {caught.get(n, "?")} |')
out += ['', '# Notes', ''] + [f'* {x}' for x in NOTES] + ['']
open(os.path.join(H, 'DESIGN.md'), 'w').write('\n'.join(out))
print(len('\n'.join(out)))
