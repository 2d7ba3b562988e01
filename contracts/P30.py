"""Where metadata is stored and read, and that what was stored is what is read."""
from pyvc.api import *
from augpathlib import caches as C
from augpathlib import core as K
from augpathlib import meta as M
from augpathlib import exceptions as exc

CC = type('CC', (C.PrimaryCache, C.EatCache), {})
ASSUMES = ['records given by the backup store and by links are what was stored there (P01, P02, P06)',
           'extended attributes: what is stored is read back (P23); a record is what its attributes say (P02)']



class Meta:
    """ a record; empty ones are false """
    _vc_model = True

    def __init__(self, name, true=True):
        self.name, self.true, self.id = name, true, 'id of ' + name

    def __bool__(self):
        return self.true


class Store:
    """ a class of caches: calling it reads, or with meta= stores """
    _vc_model = True

    def __init__(self, vc, name, w):
        self.vc, self.name, self.w = vc, name, w
        self.meta = Meta(name)
        self.state = vc.choose(4, f'{name}: has metadata, has none, says so by an error, fails')
        self.reads, self.stored = 0, []

    def __call__(self, path, meta=None, **k):
        self.vc.prove('the stores are asked for this path', path is self.w.p)
        if meta is not None:
            if self.w.fails(self.name):
                raise self.w.boom
            self.stored.append(meta)
            return self
        return Record(self)

    def __bool__(self):
        return True


class Record:
    _vc_model = True

    def __init__(self, store):
        self.store = store

    @property
    def meta(self):
        s = self.store
        s.reads += 1
        if s.state == 3:
            s.w.boom = Boom(s.name)
            raise s.w.boom
        if s.state == 2:
            raise exc.NoCachedMetadataError('none')
        return s.meta if s.state == 0 else (None if s.vc.maybe('None') else s.w.empty)


class World:
    def __init__(self, vc):
        self.vc = vc
        self.boom = None
        self.set = []
        self.prep = []
        self.exists, self.link = vc.maybe('exists'), vc.maybe('link')
        self.empty = Meta('empty', False)
        w = self
        self.new = Meta('new')
        self.failing = vc.choose(4, 'fails: nothing, own, link, backup')
        self.failing = ('', 'own', 'link', 'backup')[self.failing]
        self.p = vc.obj(CC, 'p', stubs={'exists': lambda s: w.exists, 'is_symlink': lambda s: w.link,
                                        'is_broken_symlink': lambda s: w.link and not w.exists,
                                        'exists_not_symlink': lambda s: w.exists and not w.link,
                                        '_bootstrap_prepare_filesystem': self.prepare})

    def fails(self, what):
        if self.failing == what:
            self.boom = Boom(what)
            return True

    def prepare(self, s, parents=None, fetch_data=None, size_limit_mb=None, sparse=False):
        self.prep.append((parents, fetch_data, self.exists))
        if self.vc.maybe('cannot be prepared'):
            self.boom = Boom('prepare')
            raise self.boom
        if not self.exists and not self.link and self.vc.maybe('a directory'):
            self.exists = True


def stores(vc, w):
    w.links = Store(vc, 'link', w) if vc.maybe('there is a class for links') else None
    w.backup = Store(vc, 'backup', w) if vc.maybe('there is a backup') else None
    vc.class_stubs[CC, '_not_exists_cache'] = Prop(value=w.links)
    vc.class_stubs[CC, '_backup_cache'] = Prop(value=w.backup)
    w.p._vc_stubs['_not_exists_cache'] = Prop(value=w.links)
    w.p._vc_stubs['_backup_cache'] = Prop(value=w.backup)


@contract('where metadata is read')
def getter(vc):
    w = World(vc)
    stores(vc, w)
    own = Meta('own')
    has = vc.choose(4, 'own: has metadata, empty, none, fails')

    def own_meta(s):
        vc.prove('its own attributes are read only if it exists', w.exists)
        if has == 3:
            w.boom = Boom('own')
            raise w.boom
        return (own, w.empty, None)[has]
    vc.stubs[C.EatCache.meta.fget] = own_meta

    def setter(s, m, memory_only=False):
        w.set.append(m)
        if w.fails('own'):
            raise w.boom
    w.p._vc_stubs['_meta_setter'] = setter
    r = vc.attempt(C.PrimaryCache.meta.fget, w.p)
    if w.exists and has == 0:
        want, via = own, 'own'
    elif w.exists and has == 3:
        want, via = 'fail', None
    elif not w.exists and w.link and w.links is not None and w.links.state in (0, 1, 3):
        want, via = {0: w.links.meta, 1: 'nothing', 3: 'fail'}[w.links.state], 'link'
    elif w.backup is not None and w.backup.state in (0, 3):
        want, via = {0: w.backup.meta, 3: 'fail'}[w.backup.state], 'backup'
    else:
        want, via = 'nothing', None
    if not r.ok:
        vc.prove('only a failure to read or restore is raised', r.exc is w.boom and (want == 'fail' or w.failing == 'own' and via == 'backup'))
        vc.cover('fails')
        return
    if want == 'nothing':
        vc.prove('what has no metadata anywhere has none', r.value is None or r.value is w.empty)
        vc.prove('nothing is stored', not w.set)
        vc.cover('none')
    else:
        vc.prove('a failing read is not taken for absence', want != 'fail')
        vc.prove('the metadata is that of the path, the link, or the backup', r.value is want)
        if via == 'backup':
            vc.prove('what comes from the backup is stored on the path', len(w.set) == 1 and w.set[0] is want)
        else:
            vc.prove('reading stores nothing', not w.set)
        vc.cover('from ' + via)


@contract('where metadata is stored', max_paths=40000)
def primary_setter(vc):
    w = World(vc)
    stores(vc, w)
    empty = vc.maybe('empty')
    bound = vc.choose(3, 'remote: none yet, None, bound')
    if bound:
        attrs_of(w.p)['_remote'] = None if bound == 1 else vc.any('remote')
    for n in ('_meta', '_id'):
        if vc.maybe('has ' + n):
            attrs_of(w.p)[n] = vc.any('old ' + n)
    vc.class_stubs[CC, 'id'] = Prop(get=lambda s: unsup('id'))
    exists, link = w.exists, w.link

    def own(s, m, memory_only=False):
        vc.prove('attributes are stored on what exists', w.exists)
        if w.fails('own'):
            raise w.boom
        w.set.append(m)
    vc.stubs[C.EatCache._meta_setter] = own
    m = w.empty if empty else w.new
    r = vc.attempt(C.PrimaryCache._meta_setter, w.p, m)
    linked = w.links.stored if w.links is not None else []
    backed = w.backup.stored if w.backup is not None else []
    for x in w.set + linked + backed:
        vc.prove('what is stored is the record given', x is m)
    if empty:
        vc.prove('an empty record changes nothing', r.ok and not (w.set or linked or backed or w.prep))
        vc.cover('empty')
        return
    vc.prove('stored at most once in each place', len(w.set) <= 1 and len(linked) <= 1 and len(backed) <= 1)
    vc.prove('not both on the path and in a link', not (w.set and linked))
    vc.prove('a link is made only where nothing exists', not linked or not w.exists)
    if exists and not link:
        vc.prove('what is there is left as it is', not w.prep)
    for pa, fd, ex in w.prep:
        vc.prove('directories above are not made and no data is fetched', pa is False and fd is False)
    if not r.ok:
        vc.prove('a failure is raised as it is', r.exc is w.boom)
        vc.prove('nothing is backed up that could not be stored', not backed)
        vc.cover('fails')
        return
    vc.prove('no failure is swallowed', w.boom is None)
    if w.exists:
        vc.prove('stored on the path', len(w.set) == 1)
        vc.cover('on the path')
    elif w.links is not None:
        vc.prove('stored as a link', len(linked) == 1)
        vc.cover('as a link')
    if w.backup is not None:
        vc.prove('stored in the backup as well', len(backed) == 1)
    a = attrs_of(w.p)
    vc.prove('nothing remembered hides what was stored', '_meta' not in a and '_id' not in a)
    if not exists and bound != 2:
        vc.prove('the id is known while it is being set up', a.get('_bootstrapping_id') is m.id)


FIELDS = M._PathMetaAsXattrs.fields


@contract('attributes of a record')
def eat_setter(vc):
    prefix = 'vt' if vc.maybe('prefix') else None
    pre = 'vt.' if prefix else ''
    k = vc.choose(len(FIELDS), 'field')
    f = FIELDS[k]
    key = (pre + f).encode()
    idk = (pre + 'id').encode()
    foreign = {b'other.size': b'1', b'vtx.size': b'2', b'vt.unknown': b'3', b'sparse': b'4'}
    if prefix:
        foreign[b'size'] = b'5'
    store = vc.st = dict(foreign)
    new = {idk: b'new id'}
    if vc.maybe('field before'):
        store[key] = b'old value'
    if vc.maybe('field now'):
        new[key] = b'new value'
    exists, link = vc.maybe('exists'), vc.maybe('link')
    boom = OSError(28, 'full')
    failing = vc.choose(3, 'fails: nothing, setting, removing')
    before = dict(store)

    def as_x(s, pfx=None, **kw):
        vc.prove('encoded with the prefix of the class', pfx == prefix)
        return vc.mkdict(dict(new)) if hasattr(vc, 'mkdict') else dict(new)
    m = vc.obj(M.PathMeta, 'new', stubs={'as_xattrs': as_x})

    def bk(x):
        return x.encode() if isinstance(x, str) else x

    def setxattr(s, key, value, **kw):
        if failing == 1:
            raise boom
        store[bk(key)] = value

    def setxattrs(s, d, **kw):
        for a, b in d.items():
            setxattr(s, a, b)

    def delxattr(s, key, fail=False, **kw):
        if failing == 2:
            raise boom
        if bk(key) not in store:
            if fail:
                raise OSError(61, 'no data')
            return
        del store[bk(key)]
    p = vc.obj(CC, 'p', stubs={'exists': lambda s: exists, 'is_symlink': lambda s: link, 'setxattr': setxattr, 'setxattrs': setxattrs,
                               'delxattr': delxattr, 'xattrs': lambda s, **kw: dict(store), 'xattr_prefix': Prop(value=prefix)})
    vc.class_stubs[CC, 'xattr_prefix'] = Prop(value=prefix)
    memory = []

    def inmem(s, mm, memory_only=False):
        memory.append((mm, memory_only))
    vc.stubs[C._CachePath._meta_setter] = inmem
    if vc.maybe('in memory'):
        attrs_of(p)['_meta'] = 'stale'
    r = vc.attempt(C.EatCache._meta_setter, p, m)
    if not exists:
        vc.prove('without a file only memory is left, which is refused unless asked for', store == before and r.ok and memory == [(m, False)])
    elif link:
        vc.prove('nothing is written through a link', isinstance(r.exc, TypeError) and store == before)
    elif not r.ok:
        vc.prove('a failure is raised as it is', r.exc is boom)
        vc.prove('nothing foreign is touched by a failure', {a: b for a, b in store.items() if a in foreign} == foreign)
        vc.cover('fails')
    else:
        vc.prove('exactly the fields of the new record are there, and what is foreign', store == {**foreign, **new})
        vc.prove('nothing in memory hides it', '_meta' not in attrs_of(p))
        vc.cover('set')


@contract('record of the attributes')
def eat_getter(vc):
    exists = vc.maybe('exists')
    boom = OSError(5, 'io')
    fail = vc.maybe('fails')
    at = {b'vt.id': b'x'}
    out = vc.any('record')

    def xattrs(s, **kw):
        if fail:
            raise boom
        return at

    def from_x(cls, x, prefix=None, path_object=None):
        vc.prove('the attributes of this path, by the prefix of its class and its own rules', x is at and prefix == 'vt' and path_object is p)
        return out
    vc.stubs[M.PathMeta.from_xattrs.__func__] = from_x
    p = vc.obj(CC, 'p', stubs={'exists': lambda s: exists, 'xattrs': xattrs, 'xattr_prefix': Prop(value='vt')})
    vc.class_stubs[CC, 'xattr_prefix'] = Prop(value='vt')
    r = vc.attempt(C.EatCache.meta.fget, p)
    if not exists:
        vc.prove('what is not there has no attributes', r.ok and r.value is None)
    elif fail:
        vc.prove('a failing read is raised', r.exc is boom)
    else:
        vc.prove('the record of its attributes', r.ok and r.value is out)


@contract('making a cache')
def init(vc):
    remote = Meta('remote') if vc.maybe('remote') else None
    given = Meta('given') if vc.maybe('meta') else None
    rm = Meta('meta of the remote')
    if remote is not None:
        remote.meta = rm
    have = vc.maybe('has metadata')
    got = []
    boom = Boom('set')
    fail = vc.maybe('fails')

    def act(kind):
        def f(s, m, *a, **k):
            if fail:
                raise boom
            got.append((kind, m))
        return f
    local = vc.obj(K.LocalPath, 'local', stubs={})
    vc.stubs[K.pathlib.PurePath.__init__] = lambda s, *a: None
    vc.stubs[K.pathlib.Path.__init__] = lambda s, *a, **k: None
    p = vc.obj(CC, 'p', stubs={'_meta_setter': act('set'), '_meta_updater': act('update'),
                               'meta': Prop(get=lambda s: 'meta' if have else None), 'local': Prop(value=local)})
    r = vc.attempt(C.CachePath.__init__, p, local, meta=given, remote=remote)
    if remote is not None:
        vc.prove('the metadata of the remote is stored', got == [('set', rm)] if not fail else r.exc is boom)
        vc.prove('the cache is bound to the remote', attrs_of(p).get('_remote') is remote)
    elif given is not None:
        vc.prove('metadata given is merged with what is there', got == [('update', given)] if not fail else r.exc is boom)
    else:
        vc.prove('nothing is stored', not got)
        vc.prove('without metadata there is no cache', r.ok if have else isinstance(r.exc, exc.NoCachedMetadataError))
        if r.ok:
            vc.prove('the path knows its cache', attrs_of(local).get('_cache') is p)
    vc.cover('made', r.ok)


@contract('the id of a cache')
def ident(vc):
    have = vc.choose(3, 'metadata: none, empty, with id')
    the_id, boot = vc.any('id'), vc.any('bootstrapping id')
    m = Meta('meta', have == 2)
    m.id = the_id
    p = vc.obj(CC, 'p', stubs={'meta': Prop(get=lambda s: None if have == 0 else m)})
    setting = vc.maybe('being set up')
    if setting:
        attrs_of(p)['_bootstrapping_id'] = boot
    f = C._CachePath.id.fget
    r1 = vc.attempt(f, p)
    vc.prove('the id is that of the metadata, else the one it is being set up with, else none',
             r1.ok and (r1.value is the_id if have == 2 else r1.value is boot if setting else r1.value is None))
    r2 = vc.attempt(f, p)
    vc.prove('the id it is set up with is given once', r2.ok and (r2.value is the_id if have == 2 else r2.value is None))

