"""Local directories for remote trees and remote directories for local ones, partly there, with failing steps."""
import os
import env
import guard
from augpathlib import exceptions as exc
RULE = 'trees of up to 8 directories, any of them there already; directories made for an object, or remotely for a path, with and without what is between; every step failing'
NAMES = ['a', 'b', 'c d', 'ä', 'a.b']


def cases(rng, tier):
    for depth in (1, 2, 3, 4):
        for have in range(depth):
            for n in (None, 1, 2, 3, 4, 5):
                yield {'tree': [[i, 'abcd'[i], 1] for i in range(depth)], 'have': list(range(1, have + 1)), 'ops': [['cache', depth, n], ['cache', depth, None]]}
                for p in (None, True, False):
                    if n is None or p:
                        yield {'tree': [[i, 'abcd'[i], 1] for i in range(have)], 'have': list(range(1, have + 1)),
                               'ops': [['remote', have, ['x', 'y', 'z'][:depth - have], p, n, 0], ['remote', have, ['x', 'y'][:depth - have], p, None, 0]]}
    yield {'tree': [[0, 'a', 1]], 'have': [1], 'ops': [['remote', 1, ['x'], None, None, 1], ['remote', 1, ['x', 'y', 'z'], True, None, 1], ['remote', 1, ['x'], True, None, 0]]}
    yield {'tree': [[0, 'a', 1], [1, 'b', 1], [2, 'c', 1]], 'have': [], 'plain': [1], 'ops': [['cache', 3, None], ['cache', 3, None]]}
    yield {'tree': [], 'have': [], 'ops': [['remote', -1, ['x'], None, None, 0], ['remote', -1, ['x', 'y'], True, None, 0]]}
    while True:
        n = rng.randint(1, 7)
        tree = []
        for i in range(n):
            ds = [0] + [j + 1 for j, t in enumerate(tree) if t[2]]
            tree.append([rng.choice(ds), rng.choice(NAMES) + str(i), rng.choice([0, 1, 1])])
        have = [0]
        for i, t in enumerate(tree):
            if t[2] and t[0] in have and rng.random() < .4:
                have.append(i + 1)
        ops = []
        for _ in range(rng.randint(1, 4)):
            if rng.random() < .5:
                ops.append(['cache', rng.randint(1, n), rng.choice([None, None, 1, 2, 3, 4])])
            else:
                ops.append(['remote', rng.choice(have + [-1] * (rng.random() < .1)), [rng.choice('xyz') for _ in range(rng.randint(1, 3))],
                            rng.choice([None, True, True, False]), rng.choice([None, None, None, 1, 2, 3]), rng.randrange(2)])
        dirs = [i + 1 for i, t in enumerate(tree) if t[2]]
        plain = [rng.choice(dirs)] if dirs and not have[1:] and rng.random() < .3 else []
        if plain:
            ops = [o for o in ops if o[0] == 'cache'] or [['cache', n, None]]
        yield {'tree': tree, 'have': have[1:], 'plain': plain, 'ops': ops}


def run(c):
    w = env.World()
    w.anchor()
    w.RemoteT.__hash__ = lambda s: hash(s.id)
    ids = ['root-id'] + [f'i:{i + 1}' for i in range(len(c['tree']))]
    for i, (p, name, d) in enumerate(c['tree']):
        w.add(ids[i + 1], name, ids[p], bool(d), data=b'' if d else b'data')
    made = []

    def rel(i):
        out = []
        while i != 'root-id':
            out.insert(0, w.nodes[i]['name'])
            i = w.nodes[i]['parent']
        return '/'.join(out)

    def child(self, name):
        if any(n['parent'] == self.id and n['name'] == name for n in w.nodes.values()):
            raise FileExistsError(17, 'remote', name)
        made.append((self.id, str(name)))
        k = f'new:{len(w.nodes)}'
        w.add(k, str(name), self.id, True)
        return w.RemoteT(k)
    w.RemoteT._mkdir_child = child
    w.RemoteT.exists = lambda self: self.id in w.nodes
    root = w.base + '/root/'

    def ident(q):
        try:
            return os.getxattr(root + q, b'user.vt.id').decode()
        except (OSError, KeyboardInterrupt):
            return None
    for k in c.get('plain', ()):
        # a directory without metadata, which stays one
        os.makedirs(root + rel(ids[k]), exist_ok=True)
    for k in c['have']:
        os.makedirs(root + rel(ids[k]), exist_ok=True)
        for x, v in w.meta(ids[k]).as_xattrs('vt').items():
            os.setxattr(root + rel(ids[k]), b'user.' + x, v)
    plain = {x for x in ids[1:] if os.path.isdir(root + rel(x)) and not ident(rel(x))}
    skip = (w.CacheT._local_data_dir,)
    for op in c['ops']:
        before = env.tree(w.base)
        n = op[2] if op[0] == 'cache' else op[4]
        nodes = dict(w.nodes)
        made.clear()
        err = got = None
        if op[0] == 'cache':
            i = ids[op[1]]
            with guard.fault(n) as inj:
                try:
                    got = w.local('anything').mkdir_cache(w.RemoteT(i))
                except BaseException as e:
                    err = e
            want = []
            p = w.nodes[i]['parent']
            while p and p != 'root-id':
                want.insert(0, p)
                p = w.nodes[p]['parent']
        else:
            _, k, names, parents, n, pre = op
            at = ('' if k == 0 else rel(ids[k])) if k >= 0 else None
            p = os.path.join(root, at, *names) if k >= 0 else os.path.join(w.base, 'outside', *names)
            if pre and k >= 0:
                os.makedirs(os.path.dirname(p) if len(names) > 1 else p, exist_ok=True)
                before = env.tree(w.base)
            if k >= 0 and any(w.nodes[q]['name'] == names[0] and w.nodes[q]['parent'] == ids[k] for q in w.nodes) and not ident((at + '/' if at else '') + names[0]):
                continue    # (made remotely by a failed attempt: that is for _mkdir_child to decide)
            has = ident(os.path.relpath(p, root)) if k >= 0 else None
            up = ident(os.path.dirname(os.path.relpath(p, root)) or '.') if k >= 0 else None
            near = 0
            if k >= 0:
                for j in range(len(names)):
                    if ident(os.path.join(at, *names[:j]) or '.'):
                        near = j
            with guard.fault(n) as inj:
                try:
                    got = w.LocalT(p).mkdir_remote(**({} if parents is None else {'parents': parents}))
                except BaseException as e:
                    err = e
        after = env.tree(w.base)
        hit = n is not None and inj['count'] >= n
        for q, v in before.items():
            # (a directory that was there may be given metadata)
            if after.get(q) != v and not (q in after and op[0] == 'remote' and after[q][:1] == v[:1] and not v[-1]):
                return f'{c}: {op}: {q} was {v}, is {after.get(q)}'
        new = sorted(set(after) - set(before))
        if op[0] == 'cache':
            lost = [q for q in new if q not in {'root/' + rel(x) for x in want} and not any(s in q for s in skip)]
            if lost:
                return f'{c}: {op}: made {lost}'
            if err is not None:
                if not hit:
                    return f'{c}: {op}: {err!r}'
                break       # (what a failing step leaves is not claimed)
            if hit and new and not plain and not all(ident(rel(x)) == x for x in want):
                return f'{c}: {op}: a failing step was not raised'
            for x in want:
                fresh = 'root/' + rel(x) in new
                if ident(rel(x)) != (x if fresh or x not in plain else None):
                    return f'{c}: {op}: {rel(x)} has the metadata of {ident(rel(x))}'
                if fresh:
                    have, m = w.LocalT(root + rel(x)).cache.meta, w.meta(x)
                    for f in ('id', 'size', 'created', 'updated', 'file_id', 'user_id', 'mode'):
                        if getattr(have, f) != getattr(m, f):
                            return f'{c}: {op}: {rel(x)}: {f} is {getattr(have, f)}, not {getattr(m, f)}'
            continue
        if err is not None:
            if has:
                ok = isinstance(err, exc.RemotePathExistsError)
            elif up is None and not parents or k < 0:
                ok = isinstance(err, FileNotFoundError)
            else:
                ok = hit
            if not ok:
                return f'{c}: {op}: {err!r}'
            if not hit and (new or made):
                return f'{c}: {op}: refused, but made {new} {made}'
            if hit:
                break
            continue
        if has or k < 0 or (up is None and not parents):
            return f'{c}: {op}: not refused, {got!r}'
        mk = names[near:]
        if [x for _, x in made] != mk:
            return f'{c}: {op}: made {made} remotely, not {mk}'
        par = ident(os.path.join(at, *names[:near]) or '.')
        for j, x in enumerate(mk):
            q = os.path.join(at, *names[:near + j + 1])
            if w.nodes.get(ident(q), {}).get('name') != x or w.nodes[ident(q)]['parent'] != par:
                return f'{c}: {op}: {q} has the metadata of {ident(q)} {w.nodes.get(ident(q))}, below {par}'
            par = ident(q)
        if not isinstance(got, w.RemoteT) or got.id != par:
            return f'{c}: {op}: answered {got!r}'
        if got.cache is None or str(got.cache) != p or got.cache.id != par:
            return f'{c}: {op}: bound to {got.cache!r}'
