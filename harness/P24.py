"""Random histories of anchoring and weighing against a model of the two classes and the directories."""
import os
import shutil
from augpathlib import RemotePath, LocalPath, PrimaryCache, EatCache, SymlinkCache, PathMeta
from augpathlib import exceptions as exc
import guard
import run as R
RULE = 'histories of up to 10 operations over 3 places x directories absent, empty, full, with a cache of this or another root'
PLACES = ['a', 'b', '']


def cases(rng, tier):
    for op in ('drop', 'smart', 'to', 'tocreate', 'tocache'):
        for state in ('none', 'empty', 'full', 'full-hidden', 'full-dir', 'mine', 'mine-full', 'other', 'other-full'):
            for pre in ([], [['drop', 'b']], [['drop', 'b'], ['weighR']], [['drop', 'b'], ['weighR'], ['weighC']], [['drop', 'b'], ['weighC']]):
                for root in ('str', 'obj'):
                    yield {'dirs': {'a': state}, 'ops': pre + [[op, 'a'], [op, 'a'], ['smart', 'a']], 'root': root, 'here': root == 'obj'}
    for op in ('drop', 'smart', 'to', 'tocreate', 'tocache', 'here'):
        for first in ('drop', 'here'):
            yield {'dirs': {'a': 'mine', 'b': 'mine' if first == 'here' else 'none'}, 'root': 'str',
                   'ops': [[first, 'b'], ['gone', 'b'], [op, 'a'], ['weighR'], [op, 'a'], ['weighC'], [op, 'a']]}
    for k in ('file', 'neither'):
        for op in ('drop', 'smart', 'tocreate'):
            yield {'dirs': {}, 'ops': [[op, 'a'], [op, '']], 'root': 'str', 'kind': k}
    for op in ('drop', 'smart', 'here', 'tocreate', 'data', 'init'):
        for kind in ('os', 'base', 'value'):
            for n in range(0, 10):
                yield {'fault': op, 'kind': kind, 'n': n}
    for ids in (['x', 'x'], ['x', 'y']):
        for alt in (None, 'x', 'y'):
            for init in (None, True, False):
                for api in (True, False):
                    yield {'cacheto': ids, 'alt': alt, 'init': init, 'api': api}
    states = ['none', 'empty', 'full', 'full-hidden', 'full-dir', 'mine', 'mine-full', 'other', 'other-full']
    while True:
        yield {'dirs': {p: rng.choice(states) for p in PLACES}, 'root': rng.choice(['str', 'obj']), 'here': rng.random() < .3,
               'ops': [[rng.choice(['drop', 'smart', 'to', 'tocreate', 'tocache', 'here', 'weighR', 'weighC', 'weighR', 'gone']), rng.choice(PLACES)]
                       for _ in range(rng.randint(1, 10))]}


def classes(kind='dir'):
    class Local(LocalPath):
        sysid = 'x'

    class Cache(PrimaryCache, EatCache):
        xattr_prefix = 'vt'
        _not_exists_cache = SymlinkCache

        @property
        def anchor(self):
            return getattr(self, '_anchor', None)

        def _meta_is_root(self, m):
            return True

    class Api:
        def __init__(self, id):
            self.root = id

    class Rem(RemotePath):
        _api_class = Api
        name = 'root'

        def is_dir(self):
            return kind == 'dir'

        def is_file(self):
            return kind == 'file'

        @property
        def meta(self):
            return PathMeta(id=self.id, name='root')
    Local._bind_flavours()
    Cache._bind_flavours()
    return Local, Cache, Rem


def cacheto(c):
    Local, Cache, Rem = classes()
    Re = Rem._new(Local, Cache)
    mine, root = c['cacheto']
    if c['api']:
        Re.init(root)
    if c['alt']:
        Re._remote_root = c['alt']
    os.mkdir('root')
    put('root', mine, Local, Cache)
    cc = Local('root').cache
    kw = {} if c['init'] is None else {'init': c['init']}
    ok = mine == root or not c['api'] or c['alt'] == mine
    try:
        r = Re.anchorToCache(cc, **kw)
        if not ok:
            return f'{c}: anchored to the cache of another root'
        if r is not cc or Re._cache_anchor is not cc:
            return f'{c}: anchored to {r!r}'
    except ValueError:
        if ok:
            return f'{c}: refused the right cache'
        if hasattr(Re, '_cache_anchor'):
            return f'{c}: refused but anchored'
        return
    try:
        Re.anchorToCache(cc, **kw)
        return 'anchored twice'
    except ValueError:
        pass
    if Re._cache_anchor is not cc:
        return 'the anchor changed'
    Re.weighAnchor()
    if hasattr(Re, '_cache_anchor'):
        return 'still anchored'


class Stop(BaseException):
    pass


def fault(c):
    Local, Cache, Rem = classes()
    Re = Rem._new(Local, Cache)
    Re.init('root-id')
    base = os.getcwd()
    op = c['fault']
    e = {'os': OSError(28, 'injected'), 'base': Stop(), 'value': ValueError('injected')}[c['kind']]
    d = os.path.join(base, 'root')
    if op in ('here', 'data', 'init'):
        os.mkdir(d)
    if op in ('here', 'data'):
        put(d, 'root-id', Local, Cache)
    if c['n'] == 0 and op in ('drop', 'smart', 'here', 'init', 'tocreate'):
        # the last step: binding the remote class
        del Re._api
        del Re.root

        def init(ident):
            raise e
        Re.init = init
        if op != 'here':
            Re.root = 'root-id'
    elif c['n'] == 0:
        return
    err = None
    with guard.fault(c['n'] or None, exc=lambda *a: e) as inj:
        try:
            if op == 'drop':
                Re.dropAnchor(base)
            elif op == 'smart':
                Re.smartAnchor(base)
            elif op == 'tocreate':
                Re.anchorTo(Local(d), create=True)
            elif op == 'here':
                Local(d).cache.anchorClassHere()
            elif op == 'init':
                Local(d).cache_init('root-id', anchor=True)
            else:
                Local(d).cache.local_data_dir_init()
        except BaseException as x:
            err = x
    hit = c['n'] == 0 or inj['count'] >= c['n']
    if not hit:
        return
    if err is None:
        return f'{op}: a failure at {inj["log"][-1:] if c["n"] else "init"} was not raised'
    if op == 'data':
        return
    nra = getattr(Re, '_cache_anchor', None)
    nca = getattr(Cache, '_anchor', None)
    if nra is not None or nca is not None:
        return f'{op} failed with {type(err).__name__} at {inj["log"][-1:]} and a class is anchored: remote {nra is not None}, cache {nca is not None}'


def put(p, id, Local, Cache):
    for k, v in PathMeta(id=id, name='root').as_xattrs('vt').items():
        os.setxattr(p, b'user.' + (k.encode() if isinstance(k, str) else k), v)


def run(c):
    if 'fault' in c:
        return fault(c)
    if 'cacheto' in c:
        return cacheto(c)
    base = os.getcwd()
    kind = c.get('kind', 'dir')
    Local, Cache, Rem = classes(kind)
    if len(c['ops']) % 2:
        Cache._anchor = 'an old anchor'
    Re = Rem._new(Local, Cache)
    if (Re._local_class, Re._cache_class, Local._remote_class, Local._cache_class, Cache._remote_class, Cache._local_class) != (
            Local, Cache, Re, Cache, Re, Local) or hasattr(Re, '_cache_anchor') or hasattr(Cache, '_anchor') or not issubclass(Re, Rem):
        return 'the classes are not bound to each other, or anchored'
    Re.init('root-id')
    try:
        Re.init('another')
        return 'bound twice'
    except ValueError:
        if Re.root != 'root-id' or Re._api.root != 'root-id':
            return 'refused but bound again'
    if c['root'] == 'obj':
        Re.root = Re('root-id')
    state = {}
    for p in PLACES:
        s = c['dirs'].get(p, 'none')
        os.makedirs(os.path.join(base, p), exist_ok=True)
        d = os.path.join(base, p, 'root')
        state[p] = dict(exists=s != 'none', full='full' in s, id={'mine': 'root-id', 'other': 'else-id'}.get(s.split('-')[0]), file=s == 'file')
        if s == 'file':
            open(d, 'w').close()
        elif s != 'none':
            os.mkdir(d)
            if 'full' in s:
                if 'dir' in s:
                    os.mkdir(os.path.join(d, '.x' if kind == 'dir' else 'x'))
                else:
                    open(os.path.join(d, '.x' if 'hidden' in s else 'x'), 'w').close()
            if state[p]['id']:
                put(d, state[p]['id'], Local, Cache)
    ra = ca = None

    def where(x):
        return None if x is None else os.path.abspath(x)

    def full(x):
        return None if x is None else os.path.join(base, x, 'root')

    for op, p in [(o + [''])[:2] for o in c['ops']]:
        d = os.path.join(base, p, 'root')
        s = state[p]
        if s['file']:
            continue
        parent = os.path.join(base, p)
        err = r = None
        if op == 'gone':
            shutil.rmtree(d, ignore_errors=True)
            s.update(exists=False, full=False, id=None)
            continue
        if op in ('tocache', 'here') and not s['id']:
            continue
        made = False
        # what should happen
        want = None

        def drop(smart):
            if ra is not None:
                return ('ok' if smart and ra == p and s['exists'] else exc.RemoteAlreadyAnchoredError), ra, ca, False
            if s['exists'] and s['full']:
                if smart and s['id']:
                    return ('ok', p, ca, False) if s['id'] == 'root-id' else (ValueError, None, ca, False)
                return exc.DirectoryNotEmptyError, None, ca, False
            if s['exists'] and s['id']:
                if smart:
                    return ('ok', p, ca, False) if s['id'] == 'root-id' else (ValueError, None, ca, False)
                return exc.CacheExistsError, None, ca, False
            if not s['exists'] and kind != 'dir':
                return NotImplementedError, None, ca, False
            if ca is not None:
                return ValueError, None, ca, True       # the cache class is anchored elsewhere
            return 'ok', p, p, True
        if op in ('drop', 'smart'):
            want = drop(op == 'smart')
        elif op in ('to', 'tocreate', 'tocache'):
            if s['id']:
                want = (ValueError, ra, ca, False) if ra is not None or s['id'] != 'root-id' else ('ok', p, ca, False)
            elif op == 'to':
                want = (ValueError, ra, ca, False)
            else:
                want = drop(False)
        elif op == 'here':
            if ca is not None or ra is not None or s['id'] != 'root-id':
                want = ValueError, ra, ca, False
            else:
                want = 'ok', p, p, False
        elif op == 'weighR':
            want = 'ok', None, ca, False
        else:
            want = 'ok', ra, None, False
        try:
            if op in ('drop', 'smart'):
                call = Re.dropAnchor if op == 'drop' else Re.smartAnchor
                if c.get('here'):
                    # by default it is below the current directory
                    cwd = os.getcwd()
                    os.chdir(parent)
                    try:
                        r = call()
                    finally:
                        os.chdir(cwd)
                else:
                    r = call(parent)
            elif op == 'to':
                r = Re.anchorTo(Local(d))
            elif op == 'tocreate':
                r = Re.anchorTo(Local(d), create=True)
            elif op == 'tocache':
                r = Re.anchorTo(Local(d).cache)
            elif op == 'here':
                Local(d).cache.anchorClassHere()
                r = Re._cache_anchor
            elif op == 'weighR':
                Re.weighAnchor()
            else:
                Cache.weighAnchor()
        except Exception as e:
            err = e
        w, wra, wca, made = want
        if w == 'ok' and err is not None:
            return f'{op} {p!r} of {s}: {err!r} with anchors {ra!r}, {ca!r}'
        if w in (exc.CacheExistsError, exc.DirectoryNotEmptyError) and os.path.isdir(os.path.join(d, Cache._local_data_dir)):
            w = exc.CacheExistsError, exc.DirectoryNotEmptyError
        if w != 'ok' and not isinstance(err, w):
            return f'{op} {p!r} of {s} with anchors {ra!r}, {ca!r}: {err!r} {r!r} instead of {w}'
        nra = getattr(Re, '_cache_anchor', None)
        nca = getattr(Cache, '_anchor', None)

        if where(nra) != full(wra):
            return f'after {op} {p!r} of {s}: the remote class is anchored to {nra and str(nra)}, not {full(wra)}'
        if where(nca) != full(wca):
            return f'after {op} {p!r} of {s}: the cache class is anchored to {nca and str(nca)}, not {full(wca)}'
        if w == 'ok' and op in ('drop', 'smart', 'to', 'tocreate', 'tocache', 'here') and (r is not nra or r.id != 'root-id'):
            return f'{op} {p!r} returned {r!r}'
        if made:
            if not os.path.isdir(d):
                return f'{op} made nothing'
            s['exists'] = True
            s['id'] = 'root-id'
        elif os.path.lexists(d) != s['exists']:
            return f'{op} {p!r}: {s}, the directory there now: {os.path.lexists(d)}'
        ra, ca = wra, wca
    for misnamed in ('misnamed', 'ROOT', 'roo', 'root ', 'ROOT.not'):
        other = Local(os.path.join(base, misnamed))
        if not misnamed.endswith('.not'):
            other.mkdir()
        for create in (False, True):
            try:
                Re.anchorTo(other, create=create)
                return f'anchored to a directory of another name, {misnamed}'
            except (ValueError, FileNotFoundError):
                pass
    for x in ('text', None, 3):
        try:
            Re.anchorTo(x)
            return f'anchored to {x!r}'
        except TypeError:
            pass
    if where(getattr(Re, '_cache_anchor', None)) != full(ra):
        return 'refused but the anchor changed'
