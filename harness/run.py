"""Run the executable contract of one property on the real code.
   run.py PROP --out FILE [--tier T --seed N --budget S] [--cases FILE]
   run.py PROP --replay FILE     (prints what fails)"""
import argparse
import importlib
import json
import os
import random
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.realpath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))

CASE_CPU_S = 30      # processor time of one case (clean cases: below 2 s)


class Endless(BaseException):
    """ a case that does not end """


def _endless(signum, frame):
    raise Endless(f'does not end: {CASE_CPU_S} s of processor time used')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--budget', type=float, default=20)
    ap.add_argument('--out')
    ap.add_argument('--base')
    ap.add_argument('--cases')
    ap.add_argument('--replay')
    a = ap.parse_args()
    base = a.base or tempfile.mkdtemp(prefix='vh-')
    scratch = os.path.join(base, 'scratch')
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    import logging
    logging.disable(logging.CRITICAL)
    import guard
    sys.breakpointhook = lambda *a, **k: None
    import augpathlib  # noqa  (before the guard: imports may read caches)
    mod = importlib.import_module(a.prop)
    if hasattr(mod, 'setup'):
        mod.setup()
    guard.install(base)
    rng = random.Random(a.seed)
    if a.replay:
        with open(a.replay) as f:
            cases = json.load(f)['cases']
    elif a.cases:
        with open(a.cases) as f:
            cases = json.load(f)
    else:
        cases = mod.cases(rng, a.tier)
    failures, seen, samples, n = [], set(), [], 0
    t0 = time.time()
    err = None
    real_stdout = sys.stdout
    it = iter(cases)
    signal.signal(signal.SIGPROF, _endless)
    while True:
        try:
            case = next(it)
        except StopIteration:
            break
        if time.time() - t0 > a.budget:
            break
        n += 1
        key = json.dumps(case, sort_keys=True, default=str)
        if key not in seen:
            seen.add(key)
            if len(samples) < 3:
                samples.append(case)
        d = os.path.join(scratch, f'c{n}')
        os.mkdir(d)
        os.chdir(d)
        guard.escapes.clear()
        try:
            sys.stdout = open(os.devnull, 'w')
            try:
                signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S, 2)
                what = mod.run(case)
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
                sys.stdout.close()
                sys.stdout = real_stdout
            if guard.escapes and not what:
                what = f'touched a path outside its scratch directory: {guard.escapes[:2]}'
        except NotApplicable:
            what = None
        except Endless as e:
            what = str(e) + '; ' + '|'.join(x.strip().replace('\n', ' ') for x in traceback.format_tb(e.__traceback__)[-3:])
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, MemoryError)) and not e.args:
                raise
            what = f'unexpected {type(e).__name__}: {e}; ' + '|'.join(
                x.strip().replace('\n', ' ') for x in traceback.format_tb(e.__traceback__)[-3:])
        if what:
            failures.append({'case': case, 'what': str(what)[:1500]})
            if len(failures) >= 5 or 'does not end' in str(what):
                break
        os.chdir(scratch)
        guard.rmtree(d)
    res = {'failures': failures, 'evaluations': n, 'distinct': len(seen), 'samples': samples,
           'rule': getattr(mod, 'RULE', (mod.__doc__ or '').strip()), 'wall_s': time.time() - t0}
    if a.out:
        with open(a.out, 'w') as f:
            json.dump(res, f, default=str)
    else:
        print(json.dumps(res, indent=1, default=str))
    if a.base is None:
        os.chdir('/')
        guard.rmtree(base)
    return 1 if failures else 0


class NotApplicable(Exception):
    """ the case does not exist on the real code (spurious witness) """


if __name__ == '__main__':
    import run as _r          # one module identity for NotApplicable
    sys.exit(_r.main())
