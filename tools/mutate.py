"""Development aid: run checks against variants of /repo in scratch copies.
   mutate.py FILE...   each FILE is a python file with MUTANTS = [(prop, file, old, new) or (prop, (file, old, new), ...), ...];
   prints what contracts (C) and harness (H) say.  With --refactor nothing may be reported."""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor


def one(m, i):
    prop, *edits = m
    if isinstance(edits[0], str):
        edits = [edits[:3]]
    new = edits[0][2]
    d = tempfile.mkdtemp(prefix='vmut-')
    try:
        shutil.copytree('/repo', d + '/repo', symlinks=True, ignore=shutil.ignore_patterns('.git', '.venv', 'build'))
        for f, old, new_ in edits:
            p = f'{d}/repo/augpathlib/{f}.py'
            s = open(p).read()
            if s.count(old) != 1:
                return f'{i} {prop}: pattern occurs {s.count(old)} times: {old!r}'
            open(p, 'w').write(s.replace(old, new_))
        env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_EVIDENCE=d, PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run(['python3-vt', '/verif/check.py', prop], capture_output=True, text=True, env=env, timeout=1500, cwd='/verif')
        ls = (r.stdout + r.stderr).splitlines()
        hf = [x for x in ls if 'cases,' in x]
        return (f'{i} {prop} rc={r.returncode} ref={sum("[refuted" in x for x in ls)} und={sum("[undecided" in x for x in ls)} '
                f'harness: {hf[0].split(":")[-1].strip() if hf else "?"}{" NFIF" if any("no-failing-input-found" in x for x in ls) else ""} {new.strip()[:90]!r}'
                + ''.join('\n      ' + x.strip()[:200] for x in ls if ('Error' in x or os.environ.get('SHOW') and 'undecided' in x) and 'violated' not in x and ('undecided' not in x or os.environ.get('SHOW')))[:900])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ms = []
    for f in sys.argv[1:]:
        g = {}
        exec(open(f).read(), g)
        ms += g['MUTANTS']
    with ThreadPoolExecutor(4) as ex:
        for out in ex.map(lambda x: one(x[1], x[0]), enumerate(ms)):
            print(out, flush=True)


main()
