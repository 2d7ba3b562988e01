"""Trees with and without metadata, anchored or not: the root found from every path in and out of them, however it is written."""
import os
import env
from augpathlib import exceptions as exc
RULE = 'trees of up to 6 levels with metadata on any of them, files, links into, out of and within the tree, broken links; paths absolute, relative, with dots, from every directory'


def cases(rng, tier):
    yield {'meta': [1, 1, 1, 1], 'links': [], 'anchored': 1, 'lost': None}
    yield {'meta': [1, 0, 1, 0], 'links': [['out', 2], ['in', 1]], 'anchored': 1, 'lost': None}
    yield {'meta': [0, 0, 0, 0], 'links': [['in', 3]], 'anchored': 0, 'lost': None}
    yield {'meta': [0, 1, 1, 0], 'links': [['in', 2], ['broken', 1]], 'anchored': 0, 'lost': 0}
    while True:
        n = rng.randint(1, 6)
        yield {'meta': [int(rng.random() < .6) for _ in range(n)], 'anchored': rng.randrange(2), 'lost': rng.choice([None, None, 0, 1, 2]),
               'links': [[rng.choice(['in', 'out', 'broken', 'meta-broken', 'within']), rng.randrange(n)] for _ in range(rng.randrange(4))]}


def mark(w, p, id):
    for k, v in w.meta(id).as_xattrs('vt').items():
        os.setxattr(p, b'user.' + k, v)


def run(c):
    w = env.World()
    base = w.base
    if c['anchored']:
        w.anchor()
        c['meta'][0] = 1
    dirs, d = [], base
    for i, m in enumerate(c['meta']):
        d = d + ('/root' if i == 0 else f'/d{i}')
        os.makedirs(d, exist_ok=True)
        dirs.append(d)
        w.add(f'id{i}', os.path.basename(d), f'id{i - 1}' if i > 1 else 'root-id', dir=True) if i else None
        if m and not (i == 0 and c['anchored']):
            mark(w, d, f'id{i}' if i else 'root-id')
        open(d + '/file', 'w').close()
    if c['meta'][-1]:
        w.add('fid', 'file', f'id{len(dirs) - 1}' if len(dirs) > 1 else 'root-id')
        mark(w, d + '/file', 'fid')
    os.makedirs(base + '/outside/deep')
    places = list(dirs) + [x + '/file' for x in dirs] + [base + '/outside', base + '/outside/deep', base]
    for j, (k, i) in enumerate(c['links']):
        n, t = {'in': (f'{base}/outside/l{j}', dirs[i]), 'out': (f'{dirs[i]}/l{j}', base + '/outside/deep'), 'within': (f'{dirs[i]}/l{j}', dirs[-1]),
                'broken': (f'{dirs[i]}/l{j}', base + '/nowhere'), 'meta-broken': (f'{dirs[i]}/l{j}', f'l{j}/.meta')}[k]
        os.symlink(t, n)
        places.append(n)
        if k == 'in':
            places.append(n + '/file')
    lost = dirs[c['lost']] if c['lost'] is not None and c['lost'] < len(dirs) else None
    if lost is not None:
        # a directory whose metadata is refused: it is not in the project
        has = w.LocalT.cache.fget

        def cache(self):
            if os.path.abspath(self) == lost:
                raise exc.NotInProjectError('not this one')
            return has(self)
        w.LocalT.cache = property(cache)

    def hasmeta(p):
        try:
            return any(x.startswith('user.vt.') for x in os.listxattr(p))
        except OSError:
            return False

    def climb(p):
        found = None
        while True:
            if os.path.abspath(p) == lost:
                if found:
                    return found
            elif hasmeta(p) and not os.path.islink(p) or os.path.islink(p) and os.path.exists(p) and hasmeta(p):
                found = p
            if p == os.path.dirname(p):
                return found
            p = os.path.dirname(p)
    for p in places:
        q = p
        while os.path.islink(q) and not os.path.exists(q):
            q = os.path.dirname(q)
        for here in (base, dirs[-1], base + '/outside'):
            os.chdir(here)
            for s in {p, os.path.relpath(p), './' + os.path.relpath(p, here)}:
                if '..' in s.split('/') and (c['links'] or lost is not None or not p.startswith(base + '/root')):
                    continue       # (what is above such a path depends on where the links lead)
                want = climb(q) or climb(os.path.realpath(q))
                try:
                    got = w.LocalT(s).find_cache_root()
                except Exception as e:
                    got = e
                if want is None:
                    if '..' not in s.split('/') and got is not None:
                        return f'{c}: {s} in {here[len(base):]}: found {got!r} where there is none'
                    continue
                if isinstance(got, Exception) or got is None or os.path.realpath(got) != os.path.realpath(want):
                    return f'{c}: {s} in {here[len(base):]}: found {got!r}, not {want}'
                if '..' not in s and str(got) != want:
                    return f'{c}: {s} in {here[len(base):]}: found {got!r}, not {want}'
            if lost is not None and '..' not in q and (q + '/').startswith(lost + '/'):
                try:
                    w.LocalT(p).find_cache_root(fail=True)
                    return f'{c}: asked to fail for {p}'
                except exc.NotInProjectError:
                    pass
