"""Histories of storing and reading metadata on files, directories and what is not there, with and without a backup."""
import errno
import os
import xattr
from augpathlib import PathMeta, SqliteCache
from augpathlib import exceptions as exc
import env
import gens
import guard
RULE = 'files, directories, absent files and directories, links to files; stored with every way there is, several times, other fields each time; attributes wiped, foreign ones, failing reads and writes; with and without backup'
ALPH = [x for x in gens.SAFE if x not in ('\n', '%')]
THINGS = {'f': ('i:f', False), 'd': ('i:d', True), 'nf': ('i:nf', False), 'nd': ('i:nd', True), 'd/g': ('i:g', False)}
OPT = [f for f in gens.FIELDS if f not in ('id', 'name', 'size', 'parent_id')]


def fields(rng):
    d = gens.gmeta(rng, ALPH, rng.choice([0, .3, .6, 1]), need=())
    d.pop('id', None)
    d['size'] = abs(d.get('size', 3)) % 10 ** 6
    return d


def cases(rng, tier):
    full = {f: gens.gval(rng, f, ALPH) for f in gens.FIELDS if f != 'id'}
    full['size'] = 12
    for backup in (False, True):
        for t in THINGS:
            yield {'backup': backup, 'ops': [['set', t, full], ['read', t], ['set', t, {'size': 3}], ['read', t], ['set', t, {}], ['read', t],
                                             ['wipe', t], ['read', t], ['read', t]]}
            yield {'backup': backup, 'ops': [['init', t, {'size': 5}], ['read', t], ['empty', t], ['read', t], ['eio', t], ['read', t]]}
            for n in (1, 2, 3, 4, 7):
                yield {'backup': backup, 'ops': [['set', t, {'size': 9, 'mode': 'x'}], ['fail', t, full, n], ['read', t], ['set', t, {'size': 2}], ['read', t]]}
        yield {'backup': backup, 'ops': [['lnk', 'f', full], ['read', 'f'], ['read', 'nf'], ['read', 'nd']]}
    while True:
        ops = []
        for _ in range(rng.randint(2, 10)):
            t = rng.choice(list(THINGS))
            k = rng.choice(['set', 'set', 'set', 'read', 'init', 'wipe', 'empty', 'eio', 'fail', 'lnk', 'kept', 'foreign'])
            ops.append([k, t] + ([fields(rng)] if k in ('set', 'init', 'fail', 'lnk', 'kept') else []) + ([rng.randint(1, 9)] if k == 'fail' else []))
            if k != 'read':
                ops.append(['read', t])
        yield {'backup': rng.random() < .5, 'ops': ops}


def run(c):
    saved = {}

    class Backup(SqliteCache):
        def __init__(self, path, meta=None):
            object.__setattr__(self, 'key', str(path))
            if meta is not None:
                saved[str(path)] = meta

        def __new__(cls, *a, **k):
            return object.__new__(cls)

        @property
        def meta(self):
            return saved.get(self.key)
    w = env.World(backup=Backup if c['backup'] else None)
    w.anchor()
    for n, (i, d) in THINGS.items():
        w.add(i, n.split('/')[-1], 'root-id' if '/' not in n else 'i:d', d)
    open(w.local('f'), 'w').write('data')
    os.mkdir(w.local('d'))
    open(w.local('d', 'g'), 'w').write('more')
    model = {}                # what is stored where the path is
    kept = {}

    def base(t):
        return os.path.join(w.base, 'root', t)

    def cache(t):
        """ a cache object made without reading """
        import pathlib
        q = w.CacheT.__new__(w.CacheT, w.local(*t.split('/')))
        pathlib.PurePath.__init__(q, w.local(*t.split('/')))
        return q

    for op in c['ops']:
        k, t = op[:2]
        i, isdir = THINGS[t]
        p = base(t)
        there = os.path.lexists(p)
        if k in ('set', 'init', 'fail', 'kept', 'lnk'):
            desc = dict(op[2], id=i)
            if not there and not isdir:
                desc.setdefault('size', 4)
            if os.path.islink(p):
                desc['size'] = desc.get('size', 4)
            other = k == 'kept' and there and not os.path.islink(p) and len(desc) % 2
            if other:
                desc['id'] = i + str(len(desc))
            m = gens.meta(desc)
        before = env.tree(w.base)
        bsaved = dict(saved)
        err = None
        if k == 'foreign':
            if there and not os.path.islink(p):
                os.setxattr(p, b'user.size', b'77')
                os.setxattr(p, b'user.vtx.mode', b'zz')
            continue
        if k == 'wipe':
            if there and not os.path.islink(p):
                for a in os.listxattr(p):
                    os.removexattr(p, a)
                model.pop(t, None)
            continue
        if k == 'eio':
            if t not in model:
                continue
            link = os.path.islink(p)
            real = os.readlink if link else xattr.get_all
            e0 = OSError(errno.EIO, 'io')

            def bad(*a, **kw):
                raise e0
            setattr(*((os, 'readlink') if link else (xattr, 'get_all')), bad)
            try:
                got = cache(t).meta
                return f'{t}: metadata that cannot be read was {got!r}'
            except (OSError, KeyboardInterrupt) as e:
                if e is not e0:
                    return f'{t}: reading raised {e!r} instead of the error that happened'
            finally:
                setattr(*((os, 'readlink') if link else (xattr, 'get_all')), real)
            if env.tree(w.base) != before or saved != bsaved:
                return f'{t}: a failing read changed something'
            continue
        if k == 'empty':
            cache(t)._meta_setter(PathMeta())
            if env.tree(w.base) != before or saved != bsaved:
                return f'{t}: an empty record changed something'
            continue
        if k == 'lnk':
            q = w.local('alink')
            if os.path.lexists(q):
                continue
            os.symlink(base('f'), q)
            z = w.CacheT.__new__(w.CacheT, q)
            import pathlib
            pathlib.PurePath.__init__(z, q)
            b2 = env.tree(w.base)
            try:
                z._meta_setter(m)
                return 'metadata was written through a link to a file'
            except (TypeError, AttributeError, exc.AugPathlibError):
                pass
            if env.tree(w.base) != b2 or saved != bsaved:
                return 'a refused write through a link changed something'
            os.unlink(q)
            continue
        if k == 'read':
            o = w.LocalT(p).cache
            got = None if o is None else o.meta
            want = model.get(t) or saved.get(p)
            if got != want:
                return f'{t}: read {got!r} instead of {want!r}'
            if want is not None:
                if o.id != want.id:
                    return f'{t}: the id is {o.id!r}'
                if c['backup'] and t not in model:
                    model[t] = want
                if os.path.lexists(p) and not os.path.islink(p):
                    raw = {a[5:].encode(): os.getxattr(p, a) for a in os.listxattr(p) if a.startswith('user.')}
                    if PathMeta.from_xattrs(raw, 'vt') != want:
                        return f'{t}: the attributes are {raw} instead of those of {want!r}'
                elif os.path.islink(p):
                    if PathMeta.from_symlink(w.LocalT(p)) != want:
                        return f'{t}: the link is {os.readlink(p)!r} instead of that of {want!r}'
                else:
                    return f'{t}: metadata is stored where there is nothing'
            elif env.tree(w.base) != before:
                return f'{t}: reading what is not there changed something'
            continue
        # storing
        if k == 'init':
            if t in model or p in saved or not there:
                try:
                    w.LocalT(p).cache_init(m)
                    return f'{t}: cache_init made a second cache, or one of nothing'
                except (exc.CacheExistsError, ValueError):
                    pass
                if t in model and (env.tree(w.base) != before or saved != bsaved):
                    return f'{t}: a refused cache_init changed something'
                if p in saved:
                    model.setdefault(t, saved[p])
                continue
        n = op[3] if k == 'fail' else None
        boom = None
        real = xattr.set, os.symlink
        try:
            with guard.fault(n):
                if k == 'init':
                    w.LocalT(p).cache_init(m)
                elif k == 'kept':
                    o = kept.setdefault(t, cache(t))
                    if t in model:
                        o.id        # what is remembered
                    o._meta_setter(m)
                    if o.id != m.id or o.meta != m:
                        return f'{t}: the cache that stored {m!r} has {o.id!r} and {o.meta!r}'
                else:
                    count = [0]

                    def cnt(f):
                        def g(*a, **kw):
                            count[0] += 1
                            if n is not None and count[0] == n:
                                raise OSError(errno.ENOSPC, 'injected')
                            return f(*a, **kw)
                        return g
                    xattr.set = cnt(real[0])
                    cache(t)._meta_setter(m)
        except (OSError, KeyboardInterrupt) as e:
            boom = e
            if n is None:
                return f'{t}: storing raised {e!r}'
        finally:
            xattr.set = real[0]
        if boom is None:
            model[t] = m
            if c['backup'] and saved.get(p) != m:
                return f'{t}: the backup has {saved.get(p)!r} instead of {m!r}'
        else:
            if saved != bsaved:
                return f'{t}: what could not be stored is in the backup'
            now = cache(t).meta if os.path.lexists(p) else None
            if os.path.lexists(p) and not os.path.islink(p):
                model[t] = now
                if not now:
                    model.pop(t)
            elif os.path.islink(p):
                if now not in (m, model.get(t)):
                    return f'{t}: after a failure the link has {now!r}'
                model[t] = now
            else:
                # a link being replaced is in the trash
                model.pop(t, None)
                if p in saved:
                    model[t] = saved[p]
            if now and not os.path.islink(p) and c['backup'] and p in saved and not model.get(t):
                model[t] = saved[p]
    ref = {b'user.size': b'77', b'user.vtx.mode': b'zz'}
    for t in THINGS:
        p = base(t)
        if os.path.lexists(p) and not os.path.islink(p):
            f = [os.getxattr(p, a) for a in ref if a.decode() in os.listxattr(p)]
            if f and (f != list(ref.values())) and not any(o[0] == 'wipe' and o[1] == t for o in c['ops']):
                return f'{t}: foreign attributes are {f}'
