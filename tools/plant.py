#!/usr/bin/env python3
"""plant.py SPEC...: turn a bug description (id, prop, needs, breaks, edits, demo)
into seeded/<id>/, confirming it builds, passes the stable tests, and that the
demonstration tells the trees apart; then run the property's check on it.
Works on /repo's tree and always undoes the change."""
import json
import os
import runpy
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
R = '/repo'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def undo():
    sh(f'git -C {R} checkout -- .')


def one(spec, check=True):
    s = runpy.run_path(spec)
    d = f'{V}/seeded/{s["id"]}'
    os.makedirs(d, exist_ok=True)
    with open(f'{d}/demo.py', 'w') as f:
        f.write('import sys, os, tempfile, shutil, atexit\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\n'
                'import logging\nlogging.disable(logging.CRITICAL)\nsys.breakpointhook = lambda *a, **k: None\n'
                'D = tempfile.mkdtemp()\natexit.register(shutil.rmtree, D, True)\n'
                'sys.path.append(os.path.dirname(os.path.realpath(__file__)))\nimport augpathlib\nos.chdir(D)\n' + s['demo'])
    if s.get('world'):
        shutil.copy(f'{V}/harness/env.py', f'{d}/env.py')
    with open(f'{d}/demo.sh', 'w') as f:
        f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\n'
                'd=$(cd "$(dirname "$0")" && pwd)\nexec timeout 200 /opt/venv/bin/python "$d/demo.py"\n')
    os.chmod(f'{d}/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    assert not sh(f'git -C {R} status --short').stdout.strip(), 'repo dirty'
    demo = f'bash {d}/demo.sh'
    a = sh(demo, cwd=R)
    if a.returncode:
        return print(s['id'], 'BAD: demo fails on the clean tree', (a.stdout + a.stderr)[-1500:])
    try:
        for f, old, new in s['edits']:
            t = open(f'{R}/{f}').read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(f'{R}/{f}', 'w').write(t.replace(old, new))
        diff = sh(f'git -C {R} diff').stdout
        open(f'{d}/patch.diff', 'w').write(diff)
        b = sh('bash /opt/vp/build.sh')
        if b.returncode:
            return print(s['id'], 'BAD: does not build', b.stderr[-800:])
        sh('bash /opt/vp/test.sh /tmp/plant.json')
        got = json.load(open('/tmp/plant.json'))
        miss = [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in got['passed']]
        if miss:
            return print(s['id'], 'BAD: tests fail', miss)
        a = sh(demo, cwd=R)
        if a.returncode == 0:
            return print(s['id'], 'BAD: demo passes with the change')
        why = (a.stdout + a.stderr).strip().split('\n')[-1][:200]
        if check:
            c = sh(f'python3-vt check.py {s["prop"]}', cwd=V)
            print(s['id'], 'ok;', why, '| check exit', c.returncode)
            print('   ', '\n    '.join(x[:260] for x in c.stdout.strip().split('\n') if 'proved]' not in x)[-1100:])
    finally:
        undo()


if __name__ == '__main__':
    for x in sys.argv[1:]:
        try:
            one(x)
        except AssertionError as e:
            undo()
            print(x, 'BAD', e)
