"""Bootstrap: the filters, what is set up, termination, nothing left behind."""
import pathlib
from pyvc.api import *
from augpathlib import caches as C
from augpathlib import exceptions as exc

ASSUMES = ['_meta_is_root tells whether a PathMeta is the one of the root; _rchildren yields every object below the remote once',
           'the path of a remote object is the path of the object it is in, a slash, and its name',
           'refreshing a directory takes it, and what is in it, from where it was if it is no longer part of the remote']



class Coll:
    """ the only, skip or sparse that was passed: any collection of ids """
    _vc_model = True

    def __init__(self, vc, name, theid):
        self.some = vc.maybe(name + ' not empty')
        self.has = self.some and vc.maybe('the id is in ' + name)
        self.theid, self.name = theid, name

    def __bool__(self):
        return self.some

    def __contains__(self, x):
        if x is not self.theid:
            unsup('another id')
        return self.has

    def _no(self, *a):
        unsup('use of the ids')
    __iter__ = __len__ = __eq__ = __add__ = __getitem__ = _no
    __hash__ = object.__hash__


@contract('_bootstrap', max_paths=60000)
def bootstrap_one(vc):
    calls = []
    boom = Boom('injected')
    theid = vc.any('id', str)
    state = vc.choose(3, 'the meta: an id, no id, none')
    meta = vc.obj(C.PathMeta, 'meta', stubs={'id': Prop(value=theid if state == 0 else None), '__bool__': lambda s: state == 0 or vc.maybe('other fields')})
    # id None with other fields; no meta at all
    only, skip, sparse = (Coll(vc, n, theid) for n in ('only', 'skip', 'sparse'))
    isroot = vc.maybe('root')
    has = vc.choose(3, 'metadata: none, of this id, of another')
    other = vc.any('another', str)
    vc._assume(other.t != theid.t)
    old = None if not has else vc.obj(C.PathMeta, 'old', stubs={
        'id': Prop(value=theid if has == 1 else other), '__bool__': lambda s: True, 'as_pretty': lambda s, **k: 'pretty'})
    exists = vc.maybe('exists')
    recursive = vc.maybe('recursive')
    failing = vc.choose(4 if recursive else 3, 'fails: nothing, prepare, update, below')
    kids = [vc.obj(C._CachePath, f'kid{i}') for i in range(2 if recursive and vc.maybe('some below') else 0)]
    flags = [vc.any('parents'), vc.any('fetch_data'), vc.any('size_limit_mb')]

    def rec(name, k):
        def f(s, *a, **kw):
            calls.append((name, a, kw, attrs_of(s).get('_bootstrapping_id')))
            if failing == k:
                raise boom
        return f

    def below(s, *a, **kw):
        calls.append(('below', a, kw, None))
        yield from kids
        if failing == 3:
            raise boom
    p = vc.obj(C._CachePath, 'p', stubs={
        '_meta_is_root': lambda s, m: isroot if m is meta else unsup('another meta'), 'meta': Prop(value=old), 'exists': lambda s: exists,
        '_meta_updater': rec('update', 2), '_bootstrap_prepare_filesystem': rec('prepare', 1), '_bootstrap_data': rec('data', 9),
        '_bootstrap_recursive': below, 'local': Prop(value=vc.any('local'))})
    got = []

    def consume():
        for x in vc.call(C._CachePath._bootstrap, p, meta if state < 2 else None, parents=flags[0], fetch_data=flags[1], size_limit_mb=flags[2],
                         recursive=recursive, only=only, skip=skip, sparse=sparse):
            got.append(x)
    r = Call(value=None)
    try:
        consume()
    except (Boom, Exception) as e:
        vc.guard()
        r = Call(exc=e)
    names = [c[0] for c in calls]
    if state:
        vc.prove('without an id there is nothing to set up', r.raised(exc.BootstrappingError) and not calls and not got)
        vc.cover('no id')
        return
    out = not isroot and (skip.has or (only.some and not only.has))
    if out:
        vc.prove('what is in skip, or not in only, is not touched', r.ok and not calls and not got and '_is_sparse_root' not in attrs_of(p))
        vc.cover('left out')
        return
    if has and not recursive:
        vc.prove('what has metadata is not bootstrapped again', r.raised(exc.BootstrappingError) and not calls and not got)
        vc.cover('has metadata')
        return
    vc.prove('sparse exactly when it is named in sparse', ('_is_sparse_root' in attrs_of(p)) is (not isroot and sparse.has))
    if exists and has == 1:
        vc.prove('what is there with the same id has its metadata updated', names[:1] == ['update'] and calls[0][1] == (meta,) and not calls[0][2])
        vc.prove('it is not set up again', 'prepare' not in names and 'data' not in names)
    else:
        vc.prove('what is not there is set up once, for the id', names[:1] == ['prepare'] and names.count('prepare') == 1 and
                 calls[0][3] is theid and 'update' not in names)
        a = dict(zip(('parents', 'fetch_data', 'size_limit_mb', 'sparse'), calls[0][1]), **calls[0][2])
        vc.prove('as asked for', all(a.get(k) is v for k, v in zip(('parents', 'fetch_data', 'size_limit_mb'), flags)))
        if not sparse.some or (sparse.has and not isroot):
            vc.prove('sparse if it is to be', bool(a.get('sparse')) is sparse.some)
    n = names.count('below')
    if r.exc is boom:
        vc.prove('a failure is raised', failing in (1, 2, 3))
        vc.cover('failed')
    else:
        vc.prove('bootstrap ends', r.ok and failing != (2 if exists and has == 1 else 1) and not (failing == 3 and recursive))
        vc.prove('what is below, then itself', len(got) == len(kids) * recursive + 1 and got[-1] is p and all(
            x is y for x, y in zip(got[:-1], kids)))
        vc.cover('done')
    if n or r.ok:
        vc.prove('what is below exactly when asked for', n == int(recursive))
    if n:
        b = next(c for c in calls if c[0] == 'below')
        a = dict(zip(('only', 'skip', 'sparse'), b[1]), **b[2])
        if not sparse.some or (sparse.has and not isroot):
            vc.prove('below it is sparse if it is', bool(a.get('sparse')) is sparse.some)


@contract('_bootstrap, nothing asked for')
def bootstrap_plain(vc):
    """ only itself, without the directories above it and without data """
    calls = []
    theid = vc.any('id', str)
    meta = vc.obj(C.PathMeta, 'meta', stubs={'id': Prop(value=theid), '__bool__': lambda s: True})

    def rec(name):
        return lambda s, *a, **k: calls.append((name, a, k))

    def below(s, *a, **k):
        calls.append(('below', a, k))
        yield p
    p = vc.obj(C._CachePath, 'p', stubs={
        '_meta_is_root': lambda s, m: vc.maybe('root'), 'meta': Prop(value=None), 'exists': lambda s: vc.maybe('exists'), '_meta_updater': rec('update'),
        '_bootstrap_prepare_filesystem': rec('prepare'), '_bootstrap_data': rec('data'), '_bootstrap_recursive': below, 'local': Prop(value=vc.any('local'))})
    r = vc.attempt(lambda: list(vc.call(C._CachePath._bootstrap, p, meta)))
    vc.prove('itself', r.ok and len(r.value) == 1 and r.value[0] is p and [c[0] for c in calls if c[0] != 'data'] == ['prepare'])
    a = dict(zip(('parents', 'fetch_data', 'size_limit_mb', 'sparse'), calls[0][1]), **calls[0][2])
    vc.prove('nothing more than asked for', not a.get('parents') and not a.get('fetch_data') and not a.get('sparse') and '_is_sparse_root' not in attrs_of(p))
    vc.cover('itself')


@contract('bootstrap')
def bootstrap(vc):
    boom = Boom('injected')
    fails = vc.maybe('fails')
    mark = vc.maybe('sparse')
    mem = vc.maybe('metadata in memory')
    kw = {k: vc.any(k) for k in ('parents', 'recursive', 'fetch_data', 'size_limit_mb', 'only', 'skip', 'sparse')}
    given = {k: v for k, v in kw.items() if k in ('only', 'size_limit_mb') or vc.maybe(k + ' given')}
    meta = vc.any('meta')
    items = [vc.obj(C._CachePath, f'kid{i}') for i in range(vc.choose(3, 'yielded'))]
    calls = []

    def one(s, *a, **k):
        calls.append('one')
        vc.prove('the metadata and the options are passed on', a == (meta,) and all(k.get(n) is v for n, v in given.items()))
        vc.prove('no filter that was not asked for', all(not k.get(n) for n in ('only', 'skip', 'sparse', 'recursive') if n not in given))
        vc.prove('nothing more than asked for', all(not k.get(n) for n in ('parents', 'fetch_data') if n not in given))
        for x in items:
            vc.prove('what is made meanwhile can tell', bool(attrs_of(s).get('_in_bootstrap')))
            yield x
        if mark:
            s._is_sparse_root = True
        if mem:
            s._meta = meta
        if fails:
            raise boom
    p = vc.obj(C._CachePath, 'p', stubs={'_bootstrap': one, '_mark_sparse': lambda s: calls.append('mark')})
    r = vc.attempt(C._CachePath.bootstrap, p, meta, **given)
    vc.prove('bootstrapped once', calls.count('one') == 1)
    if fails:
        vc.prove('a failure is raised', r.exc is boom)
        vc.cover('failed')
    else:
        vc.prove('what was bootstrapped, in order', r.ok and len(r.value) == len(items) and all(x is y for x, y in zip(r.value, items)))
        vc.prove('marked exactly when sparse', calls.count('mark') == int(mark))
        vc.cover('done')
    vc.prove('nothing is left of it', not {'_in_bootstrap', '_meta', '_is_sparse_root'} & set(attrs_of(p)))


class Below:
    """ the objects below a remote, in any number """
    _vc_model = True

    def __init__(self, w, f=None, kind=None):
        self.w, self.f, self.kind = w, f, kind
        self.cur = None

    def _vc_map(self, kind, f):
        if kind not in ('gen', 'list'):
            unsup('what is made of the objects below')
        g = self.f
        return Below(self.w, f if g is None else (lambda c: [z for y in g(c) for z in f(y)]))

    def _vc_list(self):
        return self

    def _vc_iter(self):
        return self

    def end_iteration(self):
        if self.cur is not None:
            self.w.judge(self.cur)

    def has_next(self):
        if not self.w.vc.maybe('another'):
            return False
        self.cur = c = self.w.child()
        if self.f is not None:
            out = self.f(c)
            self.w.vc.prove('an object is left out exactly from what is sparse, and exactly a file that is not to be included',
                            len(out) == (0 if self.w.sparse and self.w.isfile and not self.w.included else 1))
            if not out:
                self.w.vc.die(PathCut('left out'))
            if len(out) != 1 or out[0] is not c:
                unsup('something made of the objects below')
        elif self.w.sparse:
            self.w.vc.prove('files that are not to be included are left out', not self.w.isfile or self.w.included)
        return True

    def next(self):
        return self.cur


class Rec:
    def __init__(self, vc):
        self.vc = vc
        w = self
        self.sparse = vc.maybe('sparse')
        self.yielded = []
        self.done = []
        self.files = []
        self.strayid = 'F'
        self.moved = vc.obj(C._CachePath, 'moved', stubs={'meta': Prop(value=vc.any('cmeta'))})
        if vc.maybe('a local file'):
            self.links = vc.maybe('a link')
            f = vc.obj(C.LocalPath, 'f', stubs={'is_file': lambda s: not w.links, 'is_broken_symlink': lambda s: w.links, 'is_dir': lambda s: False,
                                                'cache_id': Prop(value=self.strayid), 'cache': Prop(value=self.moved)})
            self.files.append(f)
        self.different = None
        self.new = vc.obj(C._CachePath, 'new')
        self.cached = vc.obj(C._CachePath, 'cached')

    def update(self, s, a, b):
        self.vc.prove('the metadata of the file is compared with what the remote has', a is self.moved.meta and b is self.rmeta)
        self.different = self.vc.maybe('different')
        return self.different, self.vc.any('merged')

    def child(self):
        vc, w = self.vc, self
        self.isfile = vc.maybe('a file')
        self.included = vc.maybe('to be included')
        self.has = vc.maybe('has a cache')
        self.known = vc.maybe('has the id of the local file')
        self.rmeta = vc.any('rmeta')
        self.different = None
        self.inits = 0
        self.mark = len(self.yielded)

        def init(s, *a, **k):
            vc.prove('a cache is made only where there is none', not w.has and not w.inits)
            w.inits += 1
            return w.new
        return vc.obj(C.remotes.RemotePath, 'child', stubs={
            'is_dir': lambda s: not w.isfile, 'is_file': lambda s: w.isfile, '_sparse_include': lambda s: w.included,
            'cache': Prop(get=lambda s: w.cached if w.has else (w.new if w.inits else None)), 'cache_init': init, 'meta': Prop(value=self.rmeta),
            'id': Prop(value=self.strayid if self.known else 'G')})

    def judge(self, c):
        vc = self.vc
        out = self.yielded[self.mark:]
        vc.prove('one cache for each object', len(out) == 1)
        if self.has:
            vc.prove('what has a cache is kept', not self.inits and out[0] is self.cached)
            vc.cover('cached')
        elif self.inits:
            vc.prove('the cache made for the object', out[0] is self.new)
            vc.prove('no second cache for a file that is here under another name and the same',
                     not (self.isfile and self.known and self.files and not self.different))
            vc.cover('made')
        else:
            vc.prove('a file that is here under another name is kept if it is the same',
                     self.isfile and self.known and bool(self.files) and self.different is False and out[0] is self.moved)
            vc.cover('elsewhere')


class Rel:
    """ a relative path """
    _vc_model = True

    def __init__(self, s):
        self.s = s

    def as_posix(self):
        return self.s
    __str__ = as_posix

    def __eq__(self, o):
        return self.s == o.s

    def __hash__(self):
        return hash(self.s)

    parts = property(lambda s: tuple(s.s.split('/')))
    name = property(lambda s: s.parts[-1])

    def is_relative_to(self, o):
        return self.parts[:len(o.parts)] == o.parts


class Pth:
    """ the path of a remote object, relative to the anchor """
    _vc_model = True

    def __init__(self, t):
        self.t = t

    def as_posix(self):
        return self.t

    __str__ = as_posix


def sorted_below(vc, w, xs, key):
    if key is None:
        unsup('order of the objects')
    up = textmod.text(vc, 'path', nonempty=True)
    name = textmod.text(vc, 'name', nonempty=True)

    def at(t):
        return vc.obj(C.remotes.RemotePath, 'o', stubs={'as_path': lambda s: Pth(t)})
    vc.prove('what contains an object comes before it', vc.call(key, at(up)) < vc.call(key, at(up + '/' + name)))
    return xs


@contract('_bootstrap_recursive', max_paths=20000)
def recursive(vc):
    w = Rec(vc)
    rcs = Below(w)

    def rch(s, create_cache=True, sparse=False):
        vc.prove('looking does not make caches', create_cache is False)
        vc.prove('the remote knows whether it is sparse', bool(sparse) is w.sparse)
        return rcs
    remote = vc.obj(C.remotes.RemotePath, 'remote', stubs={'_rchildren': rch})
    local = vc.obj(C.LocalPath, 'local', stubs={'rchildren': Prop(get=lambda s: iter(w.files))})
    p = vc.obj(C._CachePath, 'p', stubs={'remote': Prop(value=remote), 'local': Prop(value=local), '_update_meta': w.update,
                                         'anchor': Prop(value=vc.any('anchor'))})
    old = vc.builtin_models[sorted]

    def srt(vc_, xs, key=None, reverse=False):
        if type(xs) is Below:
            if reverse:
                unsup('reversed')
            return sorted_below(vc, w, xs, key)
        return old(vc_, xs, key, reverse)
    vc.builtin_models = dict(vc.builtin_models)
    vc.builtin_models[sorted] = srt
    sp = (w.sparse,) if vc.maybe('by position') else ()
    g = vc.call(C._CachePath._bootstrap_recursive, p, (), (), *sp, **({} if sp else {'sparse': w.sparse}))
    for x in g:
        w.yielded.append(x)
    vc.cover('ends')


PLACES = ('a', 'a/b', 'ab', 'c')


@contract('_bootstrap_recursive: local directories (bounded: four paths)', max_paths=20000)
def recursive_dirs(vc):
    """ each of four local directories: not there; remote too; only here, with or without a cache """
    vc.cut_loops = False
    st = {}
    for d in PLACES:
        if '/' in d and not st[d.split('/')[0]]:
            st[d] = 0
            continue
        st[d] = vc.choose(4, d)
        if '/' in d and st[d] == 1 and st[d.split('/')[0]] != 1:
            return
    looks = {}
    anchor = vc.obj(C._CachePath, 'anchor')

    def refresh_of(d):
        def refresh(s, *a, **k):
            vc.prove('what the remote still has, or knows nothing of, is not refreshed', st[d] == 2)
            looks[d] = looks.get(d, 0) + 1
            vc.prove('refreshed once: bootstrap ends', looks[d] == 1)
            if vc.maybe('gone'):
                return None
            return vc.any('new')
        return refresh

    def at(s, d):
        d = str(d)
        looks[d, 'at'] = looks.get((d, 'at'), 0) + 1
        vc.prove('looked at no more than twice: bootstrap ends', looks[d, 'at'] <= 2)
        away = any(u in looks for u in PLACES if d.startswith(u + '/'))
        c = None if st[d] != 2 or away else vc.obj(C._CachePath, 'c' + d, stubs={'refresh': refresh_of(d)})
        return vc.obj(C.LocalPath, 'l' + d, stubs={'cache': Prop(value=c)})
    al = vc.obj(C.LocalPath, 'alocal', stubs={'__truediv__': at})
    al._vc_stubs['joinpath'] = at
    anchor._vc_stubs['local'] = Prop(value=al)

    def loc(d):
        def rel(s, o):
            vc.prove('relative to the anchor', o is anchor or o is al)
            return Rel(d)
        return vc.obj(C.LocalPath, 'p' + d, stubs={'relative_to': rel, 'is_file': lambda s: False, 'is_dir': lambda s: True,
                                                   'is_broken_symlink': lambda s: False})
    cached = {d: vc.obj(C._CachePath, 'cc' + d) for d in PLACES}

    def rem(d):
        return vc.obj(C.remotes.RemotePath, 'r' + d, stubs={
            'is_dir': lambda s: True, 'is_file': lambda s: False, 'as_path': lambda s: Rel(d), 'cache': Prop(value=cached[d]),
            'id': Prop(value='id' + d)})
    rd = [rem(d) for d in PLACES if st[d] == 1]
    remote = vc.obj(C.remotes.RemotePath, 'remote', stubs={'_rchildren': lambda s, **k: iter(rd)})
    here = [loc(d) for d in PLACES if st[d]]
    local = vc.obj(C.LocalPath, 'local', stubs={'rchildren': Prop(get=lambda s: iter(here))})
    p = vc.obj(C._CachePath, 'p', stubs={'remote': Prop(value=remote), 'local': Prop(value=local), 'anchor': Prop(value=anchor)})
    r = vc.attempt(lambda: list(vc.call(C._CachePath._bootstrap_recursive, p, (), (), vc.maybe('sparse'))))
    vc.prove('bootstrap ends', r.ok)
    for d in PLACES:
        if st[d] == 2 and not any(st[u] == 2 for u in PLACES if d.startswith(u + '/')):
            vc.prove('a directory that is no longer part of the remote is refreshed', looks.get(d) == 1)
    vc.prove('the others keep their caches', len(r.value) == len(rd) and {id(x) for x in r.value} == {
        id(cached[d]) for d in PLACES if st[d] == 1})
    vc.cover('done')


@contract('_bootstrap_prepare_filesystem', max_paths=20000)
def prepare(vc):
    calls = []
    kind = vc.choose(3, 'remote: directory, file, neither')
    exists = vc.maybe('exists')
    up = vc.maybe('its directory exists')
    sparse, inc, fetch = vc.maybe('sparse'), vc.maybe('include'), vc.maybe('fetch')
    parents = vc.any('parents')
    small = vc.bool('small')
    limit = vc.any('limit')
    size = None
    if vc.maybe('size known'):
        size = vc.obj(C.PathMeta, 'size')
        size._vc_stubs['mb'] = Prop(value=vc.obj(C.PathMeta, 'mb', stubs={'__lt__': lambda s, o: small if o is limit else unsup('limit')}))
    parent = vc.obj(C.LocalPath, 'parent', stubs={'exists': lambda s: up, 'mkdir': lambda s, **k: calls.append(('up', k.get('parents')))})
    local = vc.obj(C.LocalPath, 'local', stubs={'parent': Prop(value=parent), 'exists': lambda s: exists})
    remote = vc.obj(C.remotes.RemotePath, 'remote', stubs={'is_dir': lambda s: kind == 0, 'is_file': lambda s: kind == 1})
    p = vc.obj(C._CachePath, 'p', stubs={
        'remote': Prop(value=remote), 'local': Prop(value=local), 'exists': lambda s: exists,
        '_sparse_include': lambda s: inc, 'meta': Prop(value=vc.obj(C.PathMeta, 'meta', stubs={'size': Prop(value=size)})),
        'mkdir': lambda s, **k: calls.append(('mkdir', k.get('parents'))), 'touch': lambda s: calls.append(('touch',))})
    r = vc.attempt(C._CachePath._bootstrap_prepare_filesystem, p, parents, fetch, limit, sparse)
    if kind == 2:
        vc.prove('neither a file nor a directory', not r.ok and not calls)
        vc.cover('neither')
    elif kind == 0:
        vc.prove('a directory is made when it is not there and not sparse', r.ok and calls == ([('mkdir', parents)] if not exists and not sparse else []))
        vc.cover('directory')
    else:
        skip = sparse and not inc
        want = [] if skip or up else [('up', parents)]
        vc.prove('the directory of a file is made when it is not there', r.ok and [c for c in calls if c[0] != 'touch'] == want)
        touched = ('touch',) in calls
        vc.prove('the file is made only to fetch it, when it is small enough',
                 small if touched and not skip and fetch and size is not None else not touched and (
                     skip or not fetch or size is None or Not(small)))
        vc.cover('file')
