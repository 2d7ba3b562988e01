#!/usr/bin/env python3
"""Write the repaired defects into known_findings.json (development aid; checks never run it)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
MAP = [l.split('|') for l in open(f'{V}/tools/fixed.txt').read().strip().split('\n')]
log = {x.split(' ', 1)[1]: x.split(' ', 1)[0] for x in
       subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.strip().split('\n')}
f = f'{V}/known_findings.json'
d = json.load(open(f))
d['findings'] = [k for k in d['findings'] if k['status'] != 'fixed']
for prop, subj, what in MAP:
    h = log[subj]
    d['findings'].append({'property': prop, 'status': 'fixed', 'commit': h, 'what': what,
                          'line': f'fixed: property={prop} {h} {what}'})
missing = [s for s in log if s.startswith('fix:') and s not in [m[1] for m in MAP]]
json.dump(d, open(f, 'w'), indent=1)
print(len(d['findings']), 'findings; unlisted fixes:', missing)
