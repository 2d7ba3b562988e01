"""Bootstrap of remote trees, partly cached already, with other things around, filtered or not."""
import os
import signal
from augpathlib import PathMeta
from augpathlib import exceptions as exc
import env
RULE = 'trees of up to 12 objects; cached, gone from the remote, and untracked directories; any target; only, skip, sparse from the ids; recursive or not'


class Hang(BaseException):
    pass


def alarm(*a):
    raise Hang()


def cases(rng, tier):
    base = {'tree': [[0, 1, 0], [1, 0, 0], [1, 0, 1], [0, 1, 0], [4, 0, 0]], 'cached': [], 'gone': [], 'stray': [], 'bare': [], 'target': 0, 'only': [],
            'skip': [], 'sparse': [], 'recursive': True, 'id': True, 'renamed': [], 'changed': [], 'mem': False}
    yield base
    yield dict(base, cached=[1, 2, 3], renamed=[2])
    yield dict(base, cached=[1, 2, 3], changed=[2])
    yield dict(base, cached=[1, 2, 3], changed=[2], renamed=[2], mem=True)
    yield dict(base, stray=[0])
    yield dict(base, stray=[1, 0], cached=[1, 4])
    yield dict(base, bare=[1])
    yield dict(base, cached=[1, 2, 4], gone=[1])
    yield dict(base, id=False)
    yield dict(base, recursive=False)
    yield dict(base, tree=base['tree'] + [[1, 1, 0], [6, 0, 1], [6, 0, 0]], cached=[1], target=1, sparse=['self'])
    for t in (0, 1, 4):
        for only in ([], ['self'], ['i9'], ['self', 'i9']):
            for skip in ([], ['self'], ['i9']):
                for sparse in ([], ['self']):
                    for rec in (True, False):
                        yield dict(base, cached=[1, 4], target=t, only=only, skip=skip, sparse=sparse if t else [], recursive=rec)
    while True:
        n = rng.randint(1, 12)
        pick = lambda p: [i for i in range(1, n + 1) if rng.random() < p]
        f = lambda: rng.choice([[], [], ['self'], ['i9'], ['self', 'i9'], ['root-id']])
        yield {'tree': [[rng.randint(0, i), int(rng.random() < .6), int(rng.random() < .5)] for i in range(n)], 'cached': pick(.5),
               'gone': pick(rng.choice([0, 0, .3])), 'stray': [rng.randint(0, n) for _ in range(rng.choice([0, 0, 1, 3]))], 'bare': pick(.1),
               'target': rng.choice([0, 0, rng.randint(0, n)]), 'only': f(), 'skip': f(), 'sparse': rng.choice([[], ['self']]),
               'recursive': rng.random() < .8, 'id': rng.random() < .95,
               'renamed': pick(rng.choice([0, .3])), 'changed': pick(rng.choice([0, .3])), 'mem': rng.random() < .2}


def run(c):
    w = env.World()
    w.RemoteT.__hash__ = lambda s: hash((s.__class__, s.id))
    w.LocalT.cache_id = property(lambda s: s.cache.id if s.cache is not None else None)
    w.anchor()
    ids, path, isdir, ups = ['root-id'], [()], [True], [None]
    for i, (up, d, inc) in enumerate(c['tree'], 1):
        while not isdir[up]:
            up -= 1
        ids.append(f'i{i}' if i < 9 else f'j{i}')
        path.append(path[up] + ('ab'[i % 2] * (i // 2 + 1),))
        isdir.append(bool(d))
        ups.append(up)
        w.add(ids[-1], path[-1][-1], parent=ids[up], dir=bool(d), data=b'x%d' % i, sparse=None)
        w.nodes[ids[-1]]['sparse'] = bool(inc)
        w.nodes[ids[-1]]['kw'].pop('sparse', None)
    base = os.path.join(w.base, 'root')
    real = lambda i: os.path.join(base, *path[i])
    cached = {0: w.root}
    for i in range(1, len(ids)):
        if ups[i] in cached and i in c['cached']:
            cached[i] = w.RemoteT(ids[i]).cache_init()
    for i in c['bare']:
        if isdir[i] and os.path.isdir(os.path.dirname(real(i))) and not os.path.lexists(real(i)):
            os.mkdir(real(i))
    strays = []
    for k, i in enumerate(c['stray']):
        if isdir[i] and i in cached:
            strays.append(os.path.join(real(i), f'stray{k}'))
            os.mkdir(strays[-1])
    gone = set()
    for i in range(1, len(ids)):
        if (i in c['gone'] and i != c['target']) or ups[i] in gone:
            gone.add(i)
    t = c['target']
    if t not in cached or t in gone:
        return None
    for i in gone:
        del w.nodes[ids[i]]
    cache = cached[t]
    sub = lambda l: tuple(ids[t] if x == 'self' else x for x in l)
    only, skip, sparse = sub(c['only']), sub(c['skip']), sub(c['sparse'])
    if t == 0 or not isdir[t]:
        sparse = ()         # what a sparse root of everything means is up to the remote
    both = set()
    for i in range(1, len(ids)):
        if i not in gone and not isdir[i] and i in cached and i != t:
            if i in c['changed']:
                kw = w.nodes[ids[i]]['kw']
                kw.update(size=77 if i % 2 else kw['size'], checksum=w.sum(b'changed'))
                if i in c['renamed']:
                    both.add(i)     # a second cache, the first is to be refreshed
            if i in c['renamed']:
                w.nodes[ids[i]]['name'] = f'renamed{i}'
    if c['mem']:
        cache._meta = w.meta(ids[t])
    meta = w.meta(ids[t]) if c['id'] else PathMeta(name='x', size=3)
    before = env.tree(base)
    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(20)
    try:
        got = cache.bootstrap(meta, recursive=c['recursive'], only=only, skip=skip, sparse=sparse)
        err = None
    except Hang:
        return 'bootstrap does not end'
    except Exception as e:
        got, err = None, e
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    for a in ('_in_bootstrap', '_meta', '_is_sparse_root'):
        if a in cache.__dict__:
            return f'{a} is left on the cache'
    out = t and (ids[t] in skip or (only and ids[t] not in only))
    refused = not c['id'] or (not c['recursive'] and not out)
    if refused or out:
        if refused and not isinstance(err, exc.BootstrappingError):
            return f'not refused: {got} {err!r}'
        if not refused and (err is not None or got != []):
            return f'left out, but {got} {err!r}'
        now = env.tree(base)
        if ids[t] in sparse and refused:
            now = before        # marked or not: not specified
        return None if now == before else f'touched: {set(before.items()) ^ set(now.items())}'
    if err is not None:
        return f'bootstrap fails: {err!r}'
    if not got or got[-1] is not cache:
        return f'the cache is not the last of {got}'
    below = [i for i in range(len(ids)) if i not in gone and i != t and path[i][:len(path[t])] == path[t]]
    want = [i for i in below if not sparse or isdir[i] or c['tree'][i - 1][2]]
    if sorted(x.id for x in got[:-1]) != sorted(ids[i] for i in want):
        return f'caches for {[x.id for x in got]}, not {[ids[i] for i in want]}'
    for i in want:
        if not os.path.lexists(real(i)):
            return f'nothing at {path[i]}'
        if i in both:
            x = w.local(*path[i][:-1], f'renamed{i}')
            if not os.path.lexists(x):
                return f'{path[i]} has changed, and nothing is at its new name'
            if x.cache.meta.checksum != w.sum(b'changed') and x.cache.id == ids[i]:
                return f'the cache at the new name of {path[i]} has the old metadata'
            continue
        x = w.local(*path[i]).cache
        if os.path.lexists(os.path.join(os.path.dirname(real(i)), f'renamed{i}')):
            return f'a second cache for {path[i]}'
        if i in c['changed'] and i in cached and not isdir[i] and i != t and x.meta.checksum != w.sum(b'changed'):
            return f'{path[i]} changed'
        if x is None or x.id != ids[i] or x.meta.id != ids[i] or os.path.isdir(real(i)) != isdir[i]:
            return f'not the cache of {ids[i]} at {path[i]}: {x}'
    for i in below:
        if i not in want and i not in cached and os.path.lexists(real(i)):
            return f'{path[i]} is not to be included'
    for i in range(1, len(ids)):
        if i in gone and isdir[i] and i in cached and path[i][:len(path[t])] == path[t] and os.path.lexists(real(i)):
            return f'{path[i]} is gone from the remote and still here'
    for s in strays:
        if not any(os.path.commonpath([s, real(i)]) == real(i) for i in gone) and (not os.path.isdir(s) or os.listxattr(s)):
            return f'{s} is not ours'
    if t:
        mark = any('sparse' in k for k in os.listxattr(real(t))) if isdir[t] else None
        if mark is not None and mark != bool(ids[t] in sparse):
            return f'sparse mark: {mark}'
    return None
