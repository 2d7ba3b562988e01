#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] : decide one property.

1. Every contract of contracts/PROP.py is verified against /repo's current
   source (PyVC generates the obligations, z3 discharges them, cvc5 is asked
   where z3 gives up, and for every obligation in the thorough tier).
2. The same contract, executable, is run on the real code under CPython
   (harness/PROP.py): this replays the verifier's counterexamples, cross-checks
   the assumed contracts, and is the labelled bounded stand-in for anything the
   verifier could not decide.
"""
import importlib
import json
import multiprocessing as mp
import os
import resource
import subprocess
import sys
import time
import tempfile
import shutil
import hashlib

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.realpath(__file__))
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'


def load(prop):
    return importlib.import_module(f'contracts.{prop}')


def one(prop, index, tier, seed, q):
    """ verify one contract (in its own process) """
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from pyvc.engine import VC
    mod = load(prop)
    c = mod.CONTRACTS[index]
    o = dict(c.opts)
    scale = 4 if tier == 'thorough' else 1
    o['budget_s'] = o.get('budget_s', 100) * scale
    o['timeout_ms'] = o.get('timeout_ms', 10000) * scale
    vc = VC(c.name, c.fn, seed=seed, second=('cvc5' if tier == 'thorough' else None), **o)
    try:
        r = vc.run()
    except BaseException as e:
        import traceback
        q.put((index, {'name': c.name, 'status': 'undecided', 'why': [f'engine: {type(e).__name__}: {e}',
              traceback.format_exc()[-600:]], 'obligations': 0, 'discharged': 0, 'refuted': [], 'functions': [],
              'assumed': [], 'paths': 0, 'solver_s': 0, 'wall_s': 0, 'loops': {}, 'second': {}, 'names': []}))
        return
    confirm(r, c, o, seed, tier)
    second = {}
    if tier == 'thorough':
        second = cvc5_all(r, time.time() + 200)
    names = {}
    for ob in r.obligations:
        k = (ob.name, ob.status, ob.solver)
        names[k] = names.get(k, 0) + 1
    q.put((index, {
        'name': c.name, 'status': r.status,
        'why': sorted(set(r.unsupported))[:8] + r.errors[:2] + [
            f'undecided: {x.name}: {x.detail}' for x in r.obligations if x.status == 'undecided'][:5] + (
            [f'uncovered: {k}' for k, v in r.covers.items() if not v]),
        'obligations': len(r.obligations),
        'discharged': sum(x.status == 'discharged' for x in r.obligations),
        'refuted': dedupe(r.obligations),
        'functions': sorted(r.functions), 'assumed': sorted(r.assumed),
        'paths': r.paths, 'solver_s': round(r.solver_s, 2), 'wall_s': round(r.wall, 2),
        'loops': r.loops, 'second': second,
        'names': [dict(obligation=k[0], status=k[1], solver=k[2], count=v) for k, v in sorted(names.items())],
    }))


def confirm(r, c, o, seed, tier):
    """ A refutation found only after a loop was replaced by its invariants may
        come from invariants that are too weak, not from the code.  It counts
        when the code also fails it with the loop running as it is (up to k
        iterations); otherwise the contract is undecided. """
    from pyvc.engine import VC
    bad = [x for x in r.obligations if x.status == 'refuted']
    if not bad or not all(x.cut for x in bad):
        return
    t0 = time.time()
    done = 0
    for k in (1, 2) if tier == 'quick' else (1, 2, 4):
        left = o['budget_s'] / 2 - (time.time() - t0)
        if done and left < 5:
            break
        try:
            r2 = VC(c.name, c.fn, seed=seed, unroll=k, **dict(o, budget_s=max(left, 5), max_paths=10**6)).run()
            real = [x for x in r2.obligations if x.status == 'refuted']
        except BaseException as e:
            return
        if real:
            r.obligations = [x for x in r.obligations if x.status != 'refuted'] + real
            return
        if r2.errors or any(not u.startswith('exploration budget') for u in r2.unsupported):
            # the confirmation met something outside the models: the refutation stands
            return
        if not r2.complete:
            break
        done = k
    if not done:
        return
    for x in bad:
        x.status = 'undecided'
        x.detail = f'fails after arbitrarily many iterations, holds in every execution with up to {done}: invariants too weak'


def dedupe(obs):
    out = {}
    for x in obs:
        if x.status == 'refuted':
            l = out.setdefault(x.name, [])
            if len(l) < 3:
                l.append({'obligation': x.name, 'model': x.detail, 'witness': jsonable(x.witness), 'path': x.path})
    return [y for l in out.values() for y in l][:12]


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except (TypeError, ValueError):
        return None


def cvc5_all(r, deadline):
    """ thorough: the second back end on every obligation that has a formula """
    out = {'unsat': 0, 'sat': 0, 'unknown': 0, 'not-asked': 0, 'sat_names': []}
    for ob in r.obligations:
        if ob.smt is None:
            continue
        if time.time() > deadline:
            out['not-asked'] += 1
            continue
        try:
            p = subprocess.run(['cvc5', '--lang', 'smt2', '--tlimit=5000', '--strings-exp'],
                               input='(set-logic ALL)\n' + ob.smt, capture_output=True, text=True, timeout=8)
            a = (p.stdout.strip().split('\n') or [''])[0]
        except subprocess.TimeoutExpired:
            a = 'unknown'
        if a == 'sat':
            out['sat_names'].append(ob.name)
        out[a if a in out else 'unknown'] += 1
    return out


def verify(prop, tier, seed, jobs):
    mod = load(prop)
    n = len(mod.CONTRACTS)
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    todo = list(range(n))
    running = {}
    results = {}
    hard = (170 if tier == 'quick' else 620)
    t0 = time.time()
    while todo or running:
        while todo and len(running) < jobs:
            i = todo.pop(0)
            p = ctx.Process(target=one, args=(prop, i, tier, seed, q))
            p.start()
            running[i] = (p, time.time())
        try:
            i, res = q.get(timeout=0.2)
            results[i] = res
            running.pop(i)[0].join(5)
            continue
        except Exception:
            pass
        for i, (p, s) in list(running.items()):
            dead = not p.is_alive()
            if dead or time.time() - s > hard or time.time() - t0 > hard * 2:
                try:
                    j, res = q.get(timeout=1.0)
                    results[j] = res
                    running.pop(j)[0].join(5)
                    break
                except Exception:
                    pass
                p.kill()
                running.pop(i)
                results[i] = {'name': mod.CONTRACTS[i].name, 'status': 'undecided',
                              'why': ['verifier process ended' if dead else 'verifier time limit'], 'obligations': 0,
                              'discharged': 0, 'refuted': [], 'functions': [], 'assumed': [], 'paths': 0,
                              'solver_s': 0, 'wall_s': round(time.time() - s, 1), 'loops': {}, 'second': {}, 'names': []}
    return [results[i] for i in range(n)]


def harness(prop, tier, seed, cases=None, budget=None):
    """ the executable contract on the real code, in its own process and
        scratch directory """
    if not os.path.exists(os.path.join(HERE, 'harness', f'{prop}.py')):
        return None
    budget = budget or (20 if tier == 'quick' else 240)
    base = tempfile.mkdtemp(prefix=f'vh-{prop}-', dir='/tmp')
    try:
        out = os.path.join(base, 'out.json')
        cmd = [PY, '-B', os.path.join(HERE, 'harness', 'run.py'), prop, '--tier', tier, '--seed', str(seed),
               '--budget', str(budget), '--out', out, '--base', base]
        if cases is not None:
            cf = os.path.join(base, 'cases.json')
            with open(cf, 'w') as f:
                json.dump(cases, f)
            cmd += ['--cases', cf]
        env = dict(os.environ, HOME=base, PYTHONDONTWRITEBYTECODE='1', GIT_CONFIG_NOSYSTEM='1',
                   PYTHONHASHSEED='0', GIT_AUTHOR_NAME='v', GIT_AUTHOR_EMAIL='v@v', GIT_COMMITTER_NAME='v',
                   GIT_COMMITTER_EMAIL='v@v')
        try:
            p = subprocess.run(cmd, cwd=base, env=env, capture_output=True, text=True, timeout=budget * 2 + 60)
        except subprocess.TimeoutExpired as e:
            return {'error': 'harness time limit', 'failures': [], 'evaluations': 0, 'distinct': 0, 'samples': []}
        if os.path.exists(out):
            with open(out) as f:
                return json.load(f)
        return {'error': f'harness ended {p.returncode}: {(p.stderr or "")[-1500:]}', 'failures': [], 'evaluations': 0,
                'distinct': 0, 'samples': []}
    finally:
        shutil.rmtree(base, ignore_errors=True)


def known_findings(prop):
    f = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(f):
        return []
    with open(f) as fh:
        return [k for k in json.load(fh)['findings'] if k['property'] == prop and k['status'] == 'known']


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    jobs = min(6, os.cpu_count() or 2)
    mod = load(prop)

    import threading
    hres = {}
    th = threading.Thread(target=lambda: hres.setdefault('r', harness(prop, tier, seed)))
    # contracts are forked before the harness thread does anything that matters
    th.start()
    res = verify(prop, tier, seed, jobs)
    th.join()
    h = hres.get('r')
    known = known_findings(prop)

    violations = []     # (kind, text, data, reproduced)
    knownhit = []

    def is_known(case, what):
        for k in known:
            if k.get('match') and k['match'] in json.dumps(case, sort_keys=True) + ' ' + what:
                return k
        return None

    if h:
        for f in h['failures']:
            k = is_known(f['case'], f['what'])
            if k:
                knownhit.append(k['what'])
                continue
            violations.append({'by': 'executable contract on the real code', 'what': f['what'], 'case': f['case'],
                               'reproduced': True})
    # replay the verifier's counterexamples
    refuted = [(r['name'], x) for r in res for x in r['refuted']]
    wit = [x['witness'] for _, x in refuted if x['witness'] is not None]
    rep = None
    if wit and h is not None:
        rep = harness(prop, tier, seed, cases=wit, budget=30)
        for f in rep['failures']:
            k = is_known(f['case'], f['what'])
            if k:
                knownhit.append(k['what'])
                continue
            violations.append({'by': 'verifier counterexample replayed on the real code', 'what': f['what'],
                               'case': f['case'], 'reproduced': True})
    if refuted:
        for name, x in refuted:
            if any(k.get('obligation') == x['obligation'] for k in known):
                knownhit.append(next(k['what'] for k in known if k.get('obligation') == x['obligation']))
                continue
            violations.append({'by': 'verifier', 'what': f'obligation fails: {name}: {x["obligation"]}',
                               'contract': name, 'obligation': x['obligation'], 'model': x['model'],
                               'witness': x['witness'], 'path': x['path'], 'reproduced': False})
    # evidence
    os.makedirs(EVID, exist_ok=True)
    nob = sum(r['obligations'] for r in res)
    ndis = sum(r['discharged'] for r in res)
    und = [dict(contract=r['name'], why=r['why']) for r in res if r['status'] in ('undecided', 'vacuous')]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other' if und else 'proof',
        'coverage': {
            'explanation': ('not proved on this run: some contracts are undecided, the bounded executable contract stands in'
                            if und else 'every contract is discharged on this run'),
            'obligations': nob, 'discharged': ndis,
            'checker_cmd': f'python3-vt check.py {prop} --tier {tier}',
            'trusted_base': ['PyVC (verif/pyvc): extraction, path exploration, value models', 'z3 (and cvc5 in the thorough tier)',
                             'CPython 3.12 semantics of the constructs the extracted code uses'] + sorted(
                set(a for r in res for a in r['assumed'])) + list(getattr(mod, 'ASSUMES', [])),
            'contracts': [{k: r[k] for k in ('name', 'status', 'obligations', 'discharged', 'paths', 'solver_s', 'wall_s',
                                             'loops', 'second', 'names')} for r in res],
            'functions_under_contract': sorted(set(f for r in res for f in r['functions'])),
            'solver_s': round(sum(r['solver_s'] for r in res), 2),
            'undecided_contracts': und,
            'bounded_standin': None if h is None else {
                'label': 'bounded: executable contract on the real code, never counted as proved',
                'evaluations': h['evaluations'], 'distinct_nontrivial': h['distinct'], 'rule': h.get('rule', ''),
                'samples': h['samples'], 'error': h.get('error')},
        },
        'assumptions': list(getattr(mod, 'ASSUMES', [])),
        'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
    }
    with open(os.path.join(EVID, f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in sorted(set(knownhit)):
        print(f'KNOWN-FINDING: property={prop} {k}')
    for r in res:
        print(f'  [{r["status"]}] {r["name"]}: {r["discharged"]}/{r["obligations"]} obligations, {r["paths"]} paths, '
              f'{r["wall_s"]}s')
        if r['status'] in ('undecided', 'vacuous'):
            for w in r['why'][:4]:
                print(f'      undecided (not a violation): {str(w)[:300]}')
    if h:
        print(f'  [bounded] executable contract on the real code: {h["evaluations"]} cases, '
              f'{len(h["failures"])} failures{", " + h["error"] if h.get("error") else ""}')
    print(f'  {ndis}/{nob} obligations discharged, {time.time()-t0:.1f}s')
    if violations:
        repro = [v for v in violations if v['reproduced']]
        rdir = os.path.join(EVID, 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{prop}.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, 'replay': f'{PY} harness/run.py {prop} --replay {path}',
                       'cases': [v['case'] for v in repro], 'violations': violations[:20]}, f, indent=1)
        for v in (repro + [v for v in violations if not v['reproduced']])[:5]:
            print(f'  violated: {v["what"]}'[:600])
        tail = '' if repro else ' no-failing-input-found'
        print(f'VIOLATION property={prop} replay={path}{tail}')
        return 1
    if h and h.get('error') and und:
        # neither the verifier nor the stand-in decided
        print(f'error: {h["error"]}', file=sys.stderr)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
