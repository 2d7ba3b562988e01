"""Trees with names like those of the cache's own directories, listed from every place."""
import os
import env
RULE = 'trees of up to 15 entries named like the ignored directories, with and without more; listed from the anchor and everywhere below, absolute and relative'
NAMES = ['.git', '.operations', '.sparse', '.git.bak', '.operations.old', '.sparse.py', '.gitignore', '.sparsex', 'git', 'a', 'b', 'a.b', '..a', ' ', 'root', '.sparse.git', 'x.git', 'x.sparse', 'x.operations', '.GIT', '.git ']


def cases(rng, tier):
    # kind: local file, local directory, remote directory that is cached, remote directory that is not, remote file, broken link, link to a directory, link to a file
    yield {'tree': [[0, n, k] for n, k in zip(NAMES, [5, 6, 7] * 9)], 'relative': False}
    yield {'tree': [[0, n, k] for n, k in zip(NAMES, [6, 7, 5] * 9)] + [[0, 'dd', 1]] + [[22, n, k] for n, k in zip(NAMES, [6, 7, 5] * 9)], 'relative': False}
    yield {'tree': [[0, n, 5] for n in NAMES] + [[0, 'dd', 1]] + [[22, n, 5] for n in NAMES], 'relative': False}
    yield {'tree': [[0, n, 1] for n in NAMES] + [[1, n, 0] for n in NAMES] + [[10, n, 1] for n in NAMES], 'relative': False}
    yield {'tree': [[0, '.git.bak', 0], [0, '.git', 0]], 'relative': True}
    yield {'tree': [[0, 'a', 2], [1, 'b', 2], [2, 'c', 4]], 'relative': True}
    yield {'tree': [[0, 'a', 2], [1, 'root', 2], [2, '.git', 1], [2, '.sparse', 0], [2, 'x', 3], [5, 'y', 4], [0, 'root', 2], [7, '.git', 2]], 'relative': True}
    while True:
        n = rng.randint(1, 15)
        yield {'tree': [[rng.randint(0, i), rng.choice(NAMES), rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 7])] for i in range(n)], 'relative': rng.random() < .3}


def listing(it):
    out = [str(p) for p in it]
    return sorted(out), len(out) != len(set(out))


def run(c):
    w = env.World()
    w.anchor()
    base = os.path.join(w.base, 'root')
    nodes = [('root-id', (), 2)]
    dirs = [base]
    target = os.path.join(w.base, 'elsewhere')
    for i, (up, name, kind) in enumerate(c['tree'], 1):
        up = nodes[up % len(nodes)]
        while up[2] in (0, 4, 5, 6, 7) or (up[2] == 1 and 5 > kind > 1) or (up[2] == 3 and (kind < 3 or kind > 4)):
            up = nodes[0]
        if 5 > kind > 1 and up[0] == 'root-id' and name in w.CacheT.cache_ignore:
            kind = 1
        p = up[1] + (name,)
        if any(n[1] == p for n in nodes):
            continue
        local = os.path.join(base, *p)
        if os.path.lexists(local):
            continue
        nodes.append((f'i{i}', p, kind))
        if 5 > kind > 1:
            w.add(f'i{i}', name, parent=up[0], dir=kind < 4)
        if kind == 0:
            open(local, 'w').close()
        elif kind == 1:
            os.mkdir(local)
        elif kind > 4:
            if not os.path.exists(target + '/td'):
                os.makedirs(target + '/td/.git/y')
                open(target + '/td/x', 'w').close()
            os.symlink(target + {5: '/none', 6: '/td', 7: '/td/x'}[kind], local)
        elif kind == 2:
            w.RemoteT(f'i{i}').cache_init()
        if kind in (1, 2):
            dirs.append(local)
    ign = w.CacheT.cache_ignore
    every = [os.path.join(d, n) for d, ds, fs in os.walk(base) for n in ds + fs]
    below = ['td', 'td/x', 'td/.git', 'td/.git/y']
    for p in [base] + every:
        root = p == base
        want = sorted(os.path.join(p, n) for n in os.listdir(p) if not (root and n in ign)) if os.path.isdir(p) else []
        lp = w.LocalT(p)
        got, dup = listing(lp.children)
        if got != want or dup:
            return f'children of {p}: {set(got) ^ set(want)} {dup}'
        under = [q for q in every if q.startswith(p + '/')]
        if os.path.islink(p):
            under = [p + x[2:] for x in below[1:]]
        if root:
            # links to directories right below the anchor are listed like directories
            under = under + [q + x[2:] for q in every if os.path.islink(q) and os.path.isdir(q) and os.path.dirname(q) == base for x in below[1:]]
        want = sorted(q for q in under if not (root and os.path.relpath(q, base).split('/')[0] in ign))
        got, dup = listing(lp.rchildren)
        if os.path.isdir(p) and (got != want or dup):
            return f'rchildren of {p}: {set(got) ^ set(want)} {dup}'
        if not root and not (os.path.islink(p) and not os.path.exists(p)):
            skip = lp.skip_cache
            kind = next((n[2] for n in nodes if os.path.join(base, *n[1]) == p), 1)
            if (kind < 2 or kind > 4) and bool(skip) != (os.path.relpath(p, base).split('/')[0] in ign):
                return f'skip_cache of {p}: {skip}'
    if c['relative']:
        os.chdir(os.path.dirname(base))
        for d in dirs[1:4]:
            rel = os.path.relpath(d)
            got, dup = listing(w.LocalT(rel).children)
            if got != sorted(os.path.join(rel, n) for n in os.listdir(d)) or dup:
                return f'children of {rel}: {got}'
    ids = [n[0] for n in nodes if 5 > n[2] > 1]
    path = [n[1] for n in nodes if 5 > n[2] > 1]
    for what in ('children', 'rchildren'):
        want = sorted(os.path.join(base, *p) for p in path[1:] if what == 'rchildren' or len(p) == 1)
        if what == 'rchildren':
            w.RemoteT.rchildren = property(lambda s: s._rchildren())
        got = list(getattr(w.root, what))
        if sorted(str(x) for x in got) != want:
            return f'{what} of the cache of the root: {got}'
        for x in got:
            i = path.index(tuple(os.path.relpath(str(x), base).split('/')))
            if x.id != ids[i] or x.remote.id != ids[i]:
                return f'the cache at {path[i]} is of {x.id}'
    return None
