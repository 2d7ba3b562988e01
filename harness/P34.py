"""Remote trees and their caches: made, bound, updated after every kind of change of the remote, with failing steps."""
import os
import errno
from augpathlib import PathMeta, RemotePath, LocalPath
from augpathlib import exceptions as exc
import itertools
import env
import guard
import run as R
RULE = 'trees of up to 8 objects; made with and without what is above; renamed, moved, changed in the remote; caches given, wrong or second; failing updates and moves'
NAMES = ['a', 'b', 'c', 'a.b', 'ä']


def cases(rng, tier):
    for p in (False, True, None):
        for k in (1, 2, 3, 4):
            yield {'tree': [[0, 'a', 1], [1, 'b', 1], [2, 'c', 0], [2, 'd', 1]], 'ops': [['init', k, p], ['init', k, p], ['init', 4, True]]}
    base = [[0, 'a', 1], [1, 'f', 0], [0, 'g', 0], [0, 'e', 1]]
    for k in (2, 3):
        for ch in ([['rename', k, 'x']], [['reparent', k, 4]], [['rename', k, 'x'], ['reparent', k, 4]], [['content', k]], [['content', k], ['rename', k, 'x']], [['content', k], ['reparent', k, 4]], []):
            for fetched in (False, True):
                for fail in ([], ['upd'], ['move'], ['why'], ['nofetch'], ['handled']):
                    yield {'tree': base, 'ops': [['init', k, True], ['init', 4, True]] + ([['fetch', k]] if fetched else []) + ch + [['update', k] + fail, ['update', k]]}
    for k in (2, 3):
        for ch in ([], [['rename', k, 'x']], [['reparent', k, 4]]):
            yield {'tree': base, 'ops': [['init', 2, True], ['init', 3, True], ['init', 4, True]] + ch + [['given', k, True], ['given', k, False]]}
    while True:
        n = rng.randint(1, 7)
        tree = []
        for i in range(n):
            ds = [0] + [j + 1 for j, t in enumerate(tree) if t[2]]
            tree.append([rng.choice(ds), rng.choice(NAMES) + str(i) * (rng.random() < .7), rng.choice([0, 1])])
        if len({(t[0], t[1]) for t in tree}) < n:
            continue
        ops = []
        for _ in range(rng.randint(2, 8)):
            k = rng.randint(1, n)
            o = rng.choice(['init', 'init', 'init', 'update', 'update', 'rename', 'content', 'given', 'fetch', 'reparent', 'bind', 'new'])
            ops.append([o, k] + {'init': lambda: [rng.choice([True, True, False, None])], 'rename': lambda: [rng.choice(NAMES) + str(rng.randint(0, 9)) + 'n'],
                                 'given': lambda: [rng.random() < .3], 'reparent': lambda: [rng.randint(0, n)],
                                 'update': lambda: rng.choice([[], [], ['upd'], ['move'], ['why'], ['nofetch'], ['handled']])}.get(o, lambda: [])())
        yield {'tree': tree, 'ops': ops}


KINDS = [type('Boom' + b.__name__, (b,), {}) for b in (
    BaseException, Exception, exc.AugPathlibError, OSError, ValueError, TypeError, NotImplementedError)]
count = itertools.count()


def Boom():
    """ in turn, so that no handler can be for the one that occurs """
    return KINDS[next(count) % len(KINDS)]('injected')


def run(c):
    w = env.World()
    w.anchor()
    w.RemoteT.__hash__ = lambda s: hash(s.id)
    ids = ['root-id'] + [f'i:{i + 1}' for i in range(len(c['tree']))]
    for i, (p, name, d) in enumerate(c['tree']):
        w.add(ids[i + 1], name, ids[p], bool(d), data=b'' if d else b'data of %d' % i)

    def rel(i):
        out = []
        while i != 'root-id':
            out.insert(0, w.nodes[i]['name'])
            i = w.nodes[i]['parent']
        return '/'.join(out)

    def above(i):
        out = []
        i = 'root-id' if i == 'root-id' else w.nodes[i]['parent']
        while i != 'root-id':
            out.append(i)
            i = w.nodes[i]['parent']
        return out

    def snap():
        return env.tree(w.base)
    place = {}       # id -> relative path of its cache
    remotes = {}

    def ident(q):
        return w.LocalT(os.path.join(w.base, 'root', q)).cache

    for op in c['ops']:
        k, i = op[0], ids[op[1]]
        node = w.nodes[i]
        before = snap()
        err = r = None
        if k == 'init':
            rem = w.RemoteT(i)
            missing = [a for a in above(i) if a not in place]
            if not node['dir'] and missing and op[2] is not True:
                continue        # the directory of a file is made without being asked
            if not node['dir'] and missing[:1] == [node['parent']] and len(missing) == 1:
                continue
            stale = any(rel(a) != place[a] for a in above(i) if a in place) or i in place and place[i] != rel(i)
            if stale:
                continue        # not what cache_init is for
            kw = {} if op[2] is None else {'parents': op[2]}
            try:
                r = rem.cache_init(**kw)
            except BaseException as e:
                err = e
            if missing and not op[2]:
                if not isinstance(err, (FileNotFoundError, exc.NoCachedMetadataError)):
                    return f'{i}: no directory for it, and {err!r}'
                if rem.cache is not None:
                    return f'{i}: a cache is bound though making it failed'
                continue
            if err is not None:
                return f'{i}: cache_init({kw}) with {len(missing)} directories missing raised {err!r}'
            for a in missing + [i]:
                place[a] = rel(a)
            if str(r) != os.path.join(w.base, 'root', rel(i)):
                return f'{i}: its cache is at {r}'
            if rem.cache is not r or r.remote is not rem or r.id != i:
                return f'{i}: not bound both ways'
            for a in missing + [i]:
                m = ident(rel(a))
                if m is None or m.id != a or m.meta.name != w.nodes[a]['name'] or m.meta.parent_id != w.nodes[a]['parent']:
                    return f'{a}: its metadata is {m!r}'
            more = {q for q in set(snap()) - set(before) if not q.startswith('trash/')} - {'root/' + rel(a) for a in missing + [i]}
            if more:
                return f'{i}: made {more}'
            remotes[i] = rem
        elif k == 'bind':
            if i in place and place[i] == rel(i):
                cache = ident(place[i])
                r2 = w.RemoteT(i, cache=cache)
                if r2.cache is not cache or cache.remote is not r2:
                    return f'{i}: made with a cache, but the two do not know each other'
                rem, boom, real = w.RemoteT(i), Boom(), w.CacheT._meta_updater

                def upd(s, m, *a, **kw):
                    raise boom
                w.CacheT._meta_updater = upd
                try:
                    rem._cache_setter(cache)
                    err = None
                except BaseException as e:
                    err = e
                finally:
                    w.CacheT._meta_updater = real
                if err is not boom or rem.cache is not None:
                    return f'{i}: bound to {rem.cache} though updating failed, {err!r}'
            rem = w.RemoteT(i)
            for x in (LocalPath('x'), 'x', 1):
                try:
                    rem._cache_setter(x)
                    return f'{x!r} was accepted as a cache'
                except (exc.NotACacheClassError, AttributeError):
                    pass
                if rem.cache is not None:
                    return 'a refused cache is kept'
        elif k == 'new':
            m = w.RemoteT(PathMeta(id=i))
            if m.id != i or w.RemoteT(m).id != i or w.RemoteT(i).id != i or w.RemoteT(i) != m or m == w.RemoteT('root-id') or m.cache is not None:
                return f'{i}: made with another id'
            for x in (1, None, b'x', LocalPath('x')):
                try:
                    w.RemoteT(x)
                    return f'a remote object was made from {x!r}'
                except TypeError:
                    pass
        elif k == 'fetch':
            if i in place and not node['dir'] and place[i] == rel(i):
                q = ident(place[i])
                if q.meta.checksum == node['kw']['checksum']:
                    q.fetch(size_limit_mb=None)
        elif k == 'rename':
            if not any(n['parent'] == node['parent'] and n['name'] == op[2] for n in w.nodes.values()):
                node['name'] = op[2]
        elif k == 'reparent':
            p = ids[op[2]]
            if w.nodes[p]['dir'] and p != i and i not in above(p) and not any(n['parent'] == p and n['name'] == node['name'] for n in w.nodes.values()):
                node['parent'] = p
        elif k == 'content':
            if not node['dir']:
                node['data'] += b'!'
                node['kw']['size'] = len(node['data'])
                node['kw']['checksum'] = w.sum(node['data'])
        elif k in ('update', 'given'):
            if i not in place or any(place.get(a) != rel(a) for a in above(i)):
                continue        # what is above comes first
            was = place[i]
            # children of a directory that moves go along
            cache = ident(was)
            if cache is None:
                return f'{i}: no cache at {was}'
            wasparent = cache.parent.id
            same = os.path.basename(was) == node['name'] and wasparent == node['parent']
            if k == 'given':
                rem = w.RemoteT(i)
                if op[2]:
                    rem._cache_setter(cache, update_meta=False)
                try:
                    r = rem.update_cache(cache=cache)
                except BaseException as e:
                    err = e
                if op[2]:
                    if not isinstance(err, TypeError) or snap() != before:
                        return f'{i}: a second cache was given and {err!r}'
                elif not same:
                    if not isinstance(err, ValueError) or snap() != before:
                        return f'{i}: a cache of another name or parent was given and {err!r}'
                elif err:
                    return f'{i}: {err!r}'
                continue
            rem = w.RemoteT(i)
            rem._cache_setter(cache, update_meta=False)
            fail = op[2] if len(op) > 2 else None
            real = w.CacheT._meta_updater, w.CacheT.move
            calls = []
            boom = Boom() if fail not in ('why', 'handled') else exc.WhyDidntThisGetMovedBeforeError('x')

            def upd(s, m, *a, **kw):
                calls.append('upd')
                if fail == 'upd':
                    raise boom
                return real[0](s, m, *a, **kw)

            def mv(s, *a, **kw):
                calls.append('move')
                if fail in ('move', 'why', 'handled'):
                    raise boom
                return real[1](s, *a, **kw)
            w.CacheT._meta_updater, w.CacheT.move = upd, mv
            new_content = not node['dir'] and node['kw'].get('checksum') != cache.meta.checksum
            if fail == 'handled':
                w.RemoteT._on_cache_move_error = lambda s, e, cache: None
            w.fetched.clear()
            try:
                r = rem.update_cache(**({'fetch': False} if fail == 'nofetch' else {}))
            except BaseException as e:
                err = e
            finally:
                w.CacheT._meta_updater, w.CacheT.move = real
                if fail == 'handled':
                    del w.RemoteT._on_cache_move_error
            if fail == 'nofetch':
                if w.fetched:
                    return f'{i}: data was fetched though it should not'
                fail = None
            if fail == 'handled':
                if err or bool(r) != new_content:
                    return f'{i}: told {r!r}, {err!r} though the content is {"different" if new_content else "the same"}'
                if same:
                    fail = None
                else:
                    continue
            if 'move' in calls and calls.index('upd') > calls.index('move'):
                return f'{i}: moved before its metadata was updated'
            if fail == 'upd' or fail and not same:
                if err is not boom:
                    return f'{i}: {fail} failed and {err!r} was raised'
                if fail == 'upd' and snap() != before:
                    return f'{i}: the metadata could not be updated but something changed'
                if not os.path.lexists(os.path.join(w.base, 'root', was)):
                    return f'{i}: it was moved though that failed'
                continue
            if err:
                return f'{i}: {err!r}'
            now = rel(i)
            q = ident(now)
            if q is None or q.id != i:
                return f'{i}: it should be at {now} now'
            if now != was and os.path.lexists(os.path.join(w.base, 'root', was)):
                return f'{i}: it is at {was} still'
            if q.meta.name != node['name'] or q.meta.parent_id != node['parent'] or not node['dir'] and q.meta.checksum != node['kw']['checksum']:
                return f'{i}: its metadata is {q.meta!r}'
            if bool(r) != new_content:
                return f'{i}: told {r!r} though the content is {"different" if new_content else "the same"}'
            for a in list(place):
                if a == i or place[a].startswith(was + '/'):
                    place[a] = now + place[a][len(was):]
