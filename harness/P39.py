"""From local paths to their caches and remote objects and back, caches initialised, refreshed, asked for children."""
import os
from augpathlib import PathMeta, LocalPath, AugmentedPath, RemotePath, PrimaryCache, EatCache, SymlinkCache
from augpathlib import exceptions as exc
import env
RULE = 'trees of up to 6 paths: directories, files, links, with and without metadata, missing; absolute and relative; ids of any printable kind'
IDS = ['N:package:%d', 'i%d', 'a/b%d', 'a b*c>%d', '<%d>', "q'\"?%d", 'tab\t%d', 'ü:%d']
KINDS = ['dir', 'file', 'link', 'plaindir', 'plainfile', 'plainlink', 'missing']


def cases(rng, tier):
    for kind in KINDS:
        for op in ('chain', 'init-id', 'init-meta', 'refresh', 'gone', 'child', 'none'):
            for rel in (False, True):
                yield {'tree': [[-1, 'd', 'dir', 0], [0, 'x', kind, 1]], 'ops': [[op, 1], ['chain', 1], [op, 1]], 'rel': rel}
                yield {'tree': [[-1, 'x', kind, 2]], 'ops': [['chain', 0], [op, 0], ['chain', 0]], 'rel': rel}
    for i in range(len(IDS)):
        for kind in ('file', 'dir', 'link'):
            yield {'tree': [[-1, 'x', kind, i]], 'ops': [['chain', 0], ['gone', 0], ['chain', 0]], 'rel': False}
    for kind in ('dir', 'file'):
        for rel in (False, True):
            for first in ('remote', 'helper', 'class', 'anchor', 'below'):
                yield {'first': first, 'kind': kind, 'rel': rel}
    while True:
        n = rng.randint(1, 6)
        tree = []
        for k in range(n):
            ds = [-1] + [j for j, t in enumerate(tree) if t[2] == 'dir']
            tree.append([rng.choice(ds), rng.choice(['a', 'b.c', 'ä', 'A']) + str(k), rng.choice(KINDS[:3] + KINDS), rng.randrange(len(IDS))])
        yield {'tree': tree, 'rel': rng.random() < .4,
               'ops': [[rng.choice(['chain', 'chain', 'init-id', 'init-meta', 'refresh', 'gone', 'child', 'none']), rng.randrange(n)] for _ in range(rng.randint(1, 7))]}


def safe(i):
    return ''.join('-' if ch in ' \n\t*|:\\/<>\'"?' else ch for ch in i)



class Stop(BaseException):
    pass


def classes():
    class Local(LocalPath):
        sysid = 'x'

    class Cache(PrimaryCache, EatCache):
        xattr_prefix = 'vt'
        _not_exists_cache = SymlinkCache
        anchor = property(lambda self: getattr(self, '_anchor', None))

    class Api:
        def __init__(self, id):
            self.root = id

    class Rem(RemotePath):
        _api_class = Api
        name = 'x'
    Local._bind_flavours()
    Cache._bind_flavours()
    return Local, Cache, Rem._new(Local, Cache)


def first(c):
    """ before there is an anchor, and caches made for caches """
    base = os.getcwd()
    Local, Cache, Rem = classes()
    full = os.path.join(base, 'x')
    if c['kind'] == 'dir':
        os.mkdir(full)
    else:
        open(full, 'w').close()
    for k, v in PathMeta(id='the id', name='x').as_xattrs('vt').items():
        os.setxattr(full, b'user.' + k, v)
    p = Local('x' if c['rel'] else full)
    what = c['first']
    if what == 'remote':
        x = p.cache
        r = x.remote
        if r is None or r.id != 'the id' or not isinstance(r, Rem):
            return f'{what}: the first remote is {r!r}'
        if Rem.root != 'the id' or str(Rem._cache_anchor) != full or str(r.cache) != full or r.cache.remote is not r:
            return f'{what}: bound to {Rem.root!r}, anchored at {Rem._cache_anchor!r}, its cache {r.cache!r}'
    elif what == 'below':
        if c['kind'] == 'file':
            return
        os.mkdir(os.path.join(full, 'y'))
        for k, v in PathMeta(id='another', name='y').as_xattrs('vt').items():
            os.setxattr(os.path.join(full, 'y'), b'user.' + k, v)
        Cache._anchor = p.cache
        y = (p / 'y').cache
        r = y.remote
        if r.id != 'another' or r.cache is not y or Rem.root != 'the id' or Rem._cache_anchor is not Cache._anchor:
            return f'below the anchor: {r!r} of {r.cache!r}, anchored at {Rem._cache_anchor!r} for {Rem.root!r}'
    elif what == 'helper':
        x = p.cache
        r = Cache(x)
        Rem.anchorToCache(x)
        Cache._anchor = x

        class Other(Local):
            pass
        Other._bind_flavours()
        x._local_class = Other
        if r.remote is not x.remote or x.remote.id != 'the id' or x.remote.cache is not x:
            return f'a cache made for a cache has the remote {r.remote!r} of {r.remote.cache!r}'
        if r.local.cache is not x or str(r.local) != str(p) or type(r.local) is not type(x.local):
            return f'a cache made for a cache leads to {r.local!r} of {r.local.cache!r}'
    elif what == 'anchor':
        before = env.tree(base)
        for kw in ({'anchor': True}, {'anchor': False}, {}):
            for arg in ('other', PathMeta(id='other')):
                try:
                    x = p.cache_init(arg, **kw)
                    return f'initialised over what is there: {x!r}'
                except exc.CacheExistsError:
                    pass
        if getattr(Cache, '_anchor', None) is not None or hasattr(Rem, '_cache_anchor') or env.tree(base) != before:
            return 'refused but anchored or changed'
    else:
        for e in (TypeError('x'), exc.AugPathlibError('x'), OSError('x'), ValueError('x'), Stop('x'), AttributeError('x'), exc.CacheNotFoundError('x')):
            class Bad(Cache):
                def __init__(self, *args, **kw):
                    raise e
            Bad._bind_flavours()
            Local._cache_class = Bad
            try:
                x = Local(str(p)).cache
                return f'making its cache raised {e!r} and it is {x!r}'
            except BaseException as got:
                if got is not e:
                    return f'making its cache raised {e!r}, it was told {got!r}'


def run(c):
    if 'first' in c:
        return first(c)
    w = env.World()
    w.anchor()
    w.RemoteT.__hash__ = lambda s: hash(s.id)
    os.chdir(w.base)
    rels, ids, kinds, paths = [], [], [], []
    for k, (up, name, kind, i) in enumerate(c['tree']):
        rel = name if up < 0 else rels[up] + '/' + name
        ident = IDS[i] % k
        rels.append(rel)
        ids.append(ident)
        kinds.append(kind)
        w.add(ident, name, 'root-id' if up < 0 else ids[up], kind in ('dir', 'plaindir'), data=b'data %d' % k)
        p = os.path.join(w.base, 'root', rel)
        m = w.meta(ident)
        if kind in ('dir', 'plaindir'):
            os.mkdir(p)
        elif kind in ('file', 'plainfile'):
            with open(p, 'wb') as f:
                f.write(b'data %d' % k)
        elif kind == 'link':
            os.symlink(m.as_symlink(local_name=name), p)
        elif kind == 'plainlink':
            os.symlink('/nowhere' if False else 'nowhere-here', p)
        if kind in ('dir', 'file'):
            for a, v in m.as_xattrs('vt').items():
                os.setxattr(p, b'user.' + a, v)
        paths.append(w.LocalT(os.path.join('root', rel) if c['rel'] else p))

    def chain(k, p, ident):
        x = p.cache
        if x is None:
            return 'no cache'
        if str(x) != str(p) or not isinstance(x, w.CacheT):
            return f'its cache is {x!r}'
        if p.cache is not x:
            return 'another cache the second time'
        if x.id != ident or x.id != ident or x.meta.id != ident:
            return f'its id is {x.id!r}'
        l = x.local
        if not isinstance(l, w.LocalT) or str(l) != str(p) or l.cache is not x:
            return f'its cache is local at {l!r} with {l.cache!r}'
        r = x.remote
        if r.id != ident or not isinstance(r, w.RemoteT):
            return f'its remote is {r!r}'
        if r.cache is not x or x.remote is not r or p.remote is not r:
            return f'its remote leads to {r.cache!r}, {x.remote!r}, {p.remote!r}'
        if str(r.local) != str(p):
            return f'its remote is local at {r.local}'
        fresh = w.LocalT(str(p))
        if fresh.cache is x or fresh.cache.id != ident or fresh.remote.id != ident or fresh.remote.cache is not fresh.cache:
            return 'another path object for the same does not lead there'

    def snap():
        return env.tree(w.base)

    gone = set()
    for op, k in c['ops']:
        p, kind, ident, rel = paths[k], kinds[k], ids[k], rels[k]
        if any(rel == rels[g] or rel.startswith(rels[g] + '/') for g in gone):
            continue
        node = w.nodes.get(ident)
        before = snap()
        what = f'{op} of the {kind} {rel!r} ({ident!r}): '
        if kind == 'plainlink':
            continue        # what it would be is not claimed
        if op == 'none':
            class NoCache(LocalPath):
                sysid = 'x'
            NoCache._bind_flavours()
            NoCache._cache_class = None
            x = NoCache(str(p))
            if x.cache is not None:
                return what + f'no class of caches, and {x.cache!r}'
            continue
        if op == 'chain':
            if kind in KINDS[:3]:
                e = chain(k, p, ident)
                if e:
                    return what + e
            else:
                for q in (p, w.LocalT(str(p))):
                    if q.cache is not None or q.cache is not None:
                        return what + f'it has no metadata, and its cache is {q.cache!r}'
        elif op.startswith('init'):
            arg = ident if op == 'init-id' else w.meta(ident)
            try:
                r = p.cache_init(arg)
                err = None
            except Exception as e:
                err = e
            if kind in KINDS[:3]:
                if not isinstance(err, exc.CacheExistsError):
                    return what + f'it has metadata, and {err!r}'
            elif kind == 'missing':
                if type(err) is not ValueError:
                    return what + f'there is nothing, and {err!r}'
            else:
                if err is not None:
                    return what + repr(err)
                m = PathMeta.from_xattrs({a[5:].encode(): os.getxattr(p, a) for a in os.listxattr(p)}, 'vt')
                want = PathMeta(id=ident) if op == 'init-id' else w.meta(ident)
                if m != want or r.id != ident or str(r) != str(p) or r.meta != want:
                    return what + f'{r!r}, and stored is {m}'
                kinds[k] = 'dir' if 'dir' in kind else 'file'
                if w.CacheT.anchor is not w.root:
                    return what + 'anchored'
                e = chain(k, p, ident)
                if e:
                    return what + e
                a, b = snap(), before
                for d in (a, b):
                    d.pop('root/' + rel)
                if a != b:
                    return what + 'more than that changed'
                before = snap()
        elif op == 'refresh':
            if kind not in KINDS[:3]:
                continue
            # the parents in the remote have to be those here
            n = len(w.refreshed)
            ups = [w.LocalT(x).cache for x in [os.path.dirname(os.path.join(w.base, 'root', rel))]]
            if ups[0] is None or ups[0].id != node['parent']:
                continue
            r = p.cache.refresh()
            if r is not p.remote or r.id != ident:
                return what + f'gave {r!r}'
            if w.refreshed[n:] != [(ident, False)]:
                return what + f'asked {w.refreshed[n:]}'
            before = snap()
        elif op == 'gone':
            if kind not in KINDS[:3]:
                continue
            kept = w.nodes.pop(ident)
            try:
                x = p.cache
                r = x.refresh()
            except Exception as e:
                return what + repr(e)
            w.nodes[ident] = kept
            after = snap()
            t = 'trash/' + safe(ident)
            if r is not None:
                return what + f'gave {r!r}'
            for q, v in before.items():
                if q == 'root/' + rel or q.startswith('root/' + rel + '/'):
                    q = t + q[len('root/' + rel):]
                if after.pop(q, None) != v:
                    return what + f'{q} is not what there was'
            if after:
                return what + f'more is there: {sorted(after)}'
            before = snap()
            gone.add(k)
        elif op == 'child':
            up = w.LocalT(os.path.dirname(str(p))).cache
            if up is None:
                continue
            name = c['tree'][k][1]
            if kind in KINDS[:3]:
                x = up / name
                if x is None or x.id != ident or str(x) != str(p):
                    return what + f'asked of what is above: {x!r}'
                x = w.root / w.RemoteT(ident)
                if x.id != ident or str(x) != os.path.join(w.base, 'root', rel) or x.remote.cache is not x:
                    return what + f'asked of the anchor: {x!r}'
            elif kind == 'missing':
                try:
                    x = up / name
                    return what + f'there is nothing, and {x!r}'
                except FileNotFoundError:
                    pass
            elif (up / name) is not None:
                return what + 'it has no metadata'
            for bad in (p, AugmentedPath('x'), 3, None, b'x'):
                try:
                    x = up / bad
                    return what + f'{bad!r} is no name and gives {x!r}'
                except TypeError:
                    pass
            before = snap()
        if snap() != before:
            return what + 'something changed'
