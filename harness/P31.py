"""Remote trees with repeated names, partly or fully cached, against the names from the anchor down."""
import os
import pathlib
from augpathlib import RemotePath, PathMeta
import env
RULE = 'trees of up to 14 objects, names from a small set that includes the name of the root, each object cached or not, top to bottom'
NAMES = ['root', 'a', 'b', 'a.b', 'ä', '%', 'root.', '-x', ' ']


def cases(rng, tier):
    for names in (['a', 'b', 'a', 'b'], ['root', 'root', 'root'], ['a', 'root', 'b', 'root', 'a'], ['a'] * 6):
        for k in range(len(names) + 1):
            yield {'tree': [[i, n, True] for i, n in enumerate(names)], 'cached': list(range(k)), 'sparse': []}
    while True:
        n = rng.randint(2, 14)
        few = NAMES[:rng.choice([2, 3, len(NAMES)])]
        tree = [[rng.randint(max(0, i - 3), i), rng.choice(few), rng.random() < .7] for i in range(n)]
        yield {'tree': tree, 'cached': [i for i in range(n) if rng.random() < .7], 'sparse': [i for i in range(n) if rng.random() < .1]}


def run(c):
    w = env.World()
    if 'as_path' in w.RemoteT.__dict__:
        del w.RemoteT.as_path
    w.anchor()
    ids, path, isdir = ['root-id'], [()], [True]
    used = set()
    for up, name, d in c['tree']:
        while not isdir[up]:
            up -= 1
        p = path[up] + (name,)
        while p in used:
            p = path[up] + (p[-1] + 'x',)
        used.add(p)
        ids.append(f'i{len(ids)}')
        path.append(p)
        isdir.append(d)
        w.add(ids[-1], p[-1], parent=ids[up], dir=d, data=b'x')
    caches = {0: w.root}
    base = os.path.join(w.base, 'root')
    if w.RemoteT('root-id').parts != ():
        return f'parts of the anchor are {w.RemoteT("root-id").parts}'
    for i in range(1, len(ids)):
        local = os.path.join(base, *path[i])
        if i - 1 in c['cached'] and os.path.isdir(os.path.dirname(local)) and not os.path.lexists(local):
            if i - 1 in c['sparse'] and isdir[i]:
                os.mkdir(local)         # a directory without metadata
            else:
                r = w.RemoteT(ids[i])
                cc = r.cache_init()
                if str(cc) != local:
                    return f'the cache of {path[i]} is {cc}'
                if not os.path.lexists(local) or cc.meta is None or cc.meta.id != ids[i] or cc.id != ids[i]:
                    return f'the cache of {path[i]} has metadata {cc.meta}'
                caches[i] = cc
    expect = {'.'} | {os.path.relpath(os.path.join(base, *p), base) for i, p in enumerate(path)}
    for d, ds, fs in os.walk(base):
        for n in ds + fs:
            rel = os.path.relpath(os.path.join(d, n), base)
            if rel not in expect and not rel.startswith(w.CacheT._local_data_dir):
                return f'{rel} was made'
    for i in range(1, len(ids)):
        want = path[i]
        r = w.RemoteT(ids[i])
        for k in range(2):
            if r.parts != want:
                return f'parts of {want} without a cache are {r.parts}'
        if r.as_path() != pathlib.PurePath(*want):
            return f'{want} as a path is {r.as_path()}'
        if i in caches:
            r = w.RemoteT(ids[i], cache=caches[i])
            if r.parts != want:
                return f'parts of {want} with a cache are {r.parts}'
            r = caches[i].local.cache.remote
            if r.parts != want or r.as_path() != pathlib.PurePath(*want):
                return f'parts of {want} from its local file are {r.parts}'
