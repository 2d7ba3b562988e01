"""From a local path to its cache, to its remote object, and back."""
from pyvc.api import *
from augpathlib import caches as C
from augpathlib import core as K
from augpathlib import meta as M
from augpathlib import remotes as R
from augpathlib import utils as U
from augpathlib import exceptions as exc

CC = type('CC', (C.PrimaryCache, C.EatCache), {})

ASSUMES = ['making a cache at a path with a record stores that record there and is refused or complete (P30, P34); '
           'without one it raises NoCachedMetadataError exactly if nothing is stored there',
           'making a remote object for an id binds the cache given both ways (P34)']


@contract('cache of a local path')
def local_cache(vc):
    """ asked for several times, the class of caches failing or not each time """
    noclass = vc.maybe('the class has no class of caches')
    boom = Boom()
    none = exc.NoCachedMetadataError('x')
    made, log = [], []
    p = vc.obj(K.LocalPath, 'p')

    def make(s, path, **kw):
        vc.prove('made at this path, with what is stored there', path is p and not kw)
        k = vc.choose(3, 'making it: done, nothing is stored there, fails')
        log.append(k)
        if k:
            raise (none if k == 1 else boom)
        c = vc.obj(CC, 'c')
        made.append(c)
        return c
    cls = vc.obj(CC, 'the class', stubs={'__call__': make})
    p._vc_stubs['_cache_class'] = Prop(value=None if noclass else cls)
    bound = vc.obj(CC, 'bound') if vc.maybe('it has been given one') else None
    if bound is not None:
        attrs_of(p)['_cache'] = bound
    for i in range(3):
        n = len(log)
        r = vc.attempt(K.LocalPath.cache.fget, p)
        known = bound if bound is not None else made[0] if made else None
        if noclass and bound is None:
            vc.prove('no class of caches, no cache', r.ok and r.value is None)
            vc.cover('no class')
        elif len(log) == n:
            vc.prove('the cache that is known', r.ok and known is not None and r.value is known)
            vc.cover('again', i > 0)
        else:
            vc.prove('it is made only if none is known, once', len(log) == n + 1 and bound is None and len(made) - (log[-1] == 0) == 0)
            if log[-1] == 0:
                vc.prove('what was made', r.ok and r.value is made[0])
            elif log[-1] == 1:
                vc.prove('nothing stored, no cache', r.ok and r.value is None)
                vc.cover('nothing stored')
            else:
                vc.prove('any other failure is raised', r.exc is boom)
                vc.cover('fails')


@contract('remote of a local path')
def local_remote(vc):
    rem = vc.any('remote')
    c = vc.obj(CC, 'c', stubs={'remote': Prop(value=rem)})
    p = vc.obj(K.LocalPath, 'p', stubs={'cache': Prop(value=c)})
    r = vc.attempt(K.LocalPath.remote.fget, p)
    vc.prove('that of its cache', r.ok and r.value is rem)
    m = vc.obj(R.RemotePath, 'r', stubs={'cache': Prop(value=vc.obj(CC, 'd', stubs={'local': Prop(value=p)}))})
    r = vc.attempt(R.RemotePath.local.fget, m)
    vc.prove('the local path of its cache', r.ok and r.value is p)


@contract('cache_init of a local path')
def cache_init(vc):
    has, exists = vc.choose(3, 'there is: no cache, a cache without metadata, a cache with metadata'), vc.maybe('exists')
    st = {'made': [], 'anchored': []}
    boom = Boom()
    fail = vc.choose(3, 'fails: nothing, making it, anchoring')
    old = vc.obj(CC, 'old', stubs={'meta': Prop(value=vc.obj(M.PathMeta, 'meta', stubs={'__bool__': lambda s: has == 2}))})
    kind = vc.choose(3, 'given: a record, an id, a number as id')
    mid = vc.any('id', str) if kind < 2 else 0
    given = mid
    if kind == 0:
        given = vc.obj(M.PathMeta, 'record', stubs={'__bool__': lambda s: True})
    records = {}

    def record(*a, **kw):
        vc.prove('a record of the id', not a and list(kw) == ['id'] and (kw['id'] is mid or kind == 2 and kw['id'] == 0))
        m = vc.obj(M.PathMeta, 'made record')
        records[id(m)] = m
        return m
    vc.class_models[M.PathMeta] = model(record)
    p = vc.obj(K.LocalPath, 'p', stubs=dict(fs(vc, 'p', exists=lambda s: exists, cache=Prop(value=old if has else None))))

    def make(s, path, meta=None, **kw):
        vc.prove('a cache of this path with the record given', path is p and not kw and (meta is given if kind == 0 else id(meta) in records))
        if fail == 1:
            raise boom

        def anchor(s, **kw):
            vc.prove('anchored as usual', not kw)
            if fail == 2:
                raise boom
            st['anchored'].append(s)
        c = vc.obj(CC, 'c', stubs={'anchorClassHere': anchor})
        st['made'].append(c)
        return c
    p._vc_stubs['_cache_class'] = Prop(value=vc.obj(CC, 'the class', stubs={'__call__': make}))
    a = vc.choose(3, 'anchor: default, True, False')
    r = vc.attempt(K.LocalPath.cache_init, p, given, **({} if a == 0 else {'anchor': a == 1}))
    if has == 2:
        vc.prove('a path with metadata is refused and nothing is made', r.raised(exc.CacheExistsError) and not st['made'] and not st['anchored'])
        vc.cover('refused')
    elif not exists:
        vc.prove('a path that does not exist is refused and nothing is made',
                 r.raised(ValueError) and not isinstance(r.exc, (Boom, exc.CacheExistsError)) and not st['made'] and not st['anchored'])
        vc.cover('missing')
    elif fail == 1 or fail == 2 and a == 1:
        vc.prove('a failure is raised', r.exc is boom)
    else:
        vc.prove('the cache made', r.ok and len(st['made']) == 1 and r.value is st['made'][0])
        vc.prove('anchored exactly if asked to', st['anchored'] == (st['made'] if a == 1 else []))
        vc.cover('made')


@contract('local path of a cache')
def local(vc):
    parent = vc.obj(CC, 'parent')
    made, log = [], []

    def make(s, path, **kw):
        log.append((s, path))
        p = vc.obj(K.LocalPath, 'p')
        made.append(p)
        return p
    lc = vc.obj(K.LocalPath, 'the class', stubs={'__call__': make})
    lp = vc.obj(K.LocalPath, 'the class of the parent', stubs={'__call__': make})
    c = vc.obj(CC, 'c')
    attrs_of(c)['_local_class'] = lc
    attrs_of(parent)['_local_class'] = lp
    helper = vc.maybe('a cache made for another cache')
    if helper:
        attrs_of(c)['_cache_parent'] = parent
    r = vc.attempt(C._CachePath.local.fget, c)
    vc.prove('a path of the local class, made of the cache', r.ok and len(log) == 1 and r.value is made[0] and log[0][1] is c
             and log[0][0] is (lp if helper else lc))
    vc.prove('it leads back to the cache, or to the one that is made for', attrs_of(made[0]).get('_cache') is (parent if helper else c))
    q = vc.attempt(K.LocalPath.cache.fget, made[0])
    vc.prove('and is asked for it', q.ok and q.value is (parent if helper else c))
    vc.cover('helper', helper)
    vc.cover('own', not helper)


@contract('id of a cache')
def ident(vc):
    c = vc.obj(CC, 'c')
    stored, other = vc.any('stored id', str), vc.any('one more id', str)
    known, boot = vc.maybe('known'), vc.maybe('bootstrapping')
    kid = vc.any('known id', str)
    if known:
        attrs_of(c)['_id'] = kid
    if boot:
        attrs_of(c)['_bootstrapping_id'] = other
    has = vc.choose(3, 'stored: no record, an empty one, a record')
    m = None
    if has:
        m = vc.obj(M.PathMeta, 'm', stubs={'__bool__': lambda s: has == 2})
        attrs_of(m)['id'] = stored
    c._vc_stubs['meta'] = Prop(value=m)
    r = vc.attempt(C._CachePath.id.fget, c)
    r2 = vc.attempt(C._CachePath.id.fget, c)
    if known or has == 2:
        x = kid if known else stored
        vc.prove('the id of the record, always the same', r.ok and r.value is x and r2.ok and r2.value is x)
        vc.cover('of the record', not known)
    elif boot:
        vc.prove('the one it is bootstrapped with, once', r.ok and r.value is other and r2.ok and r2.value is None)
        vc.cover('bootstrapped')
    else:
        vc.prove('none', r.ok and r.value is None and r2.ok and r2.value is None)


@contract('remote of a cache', max_paths=20000)
def remote(vc):
    known, helper = vc.maybe('known'), vc.maybe('a cache made for another cache')
    krem, prem, arem = vc.any('known remote'), vc.any('remote of the parent'), vc.any('remote of the absolute path')
    c = vc.obj(CC, 'c')
    at = attrs_of(c)
    if known:
        at['_remote'] = krem
    if helper:
        at['_cache_parent'] = vc.obj(CC, 'parent', stubs={'remote': Prop(value=prem)})
    has, anchored, absolute = vc.maybe('has an id'), vc.maybe('there is an anchor'), vc.maybe('absolute')
    mid, aid = vc.any('id', str), vc.any('id of the anchor', str)
    log, made, anchors = [], [], []
    boom = Boom()
    fail = vc.choose(3, 'fails: nothing, anchoring, making the remote object')
    if has:
        # the id of what is stored, or the one to bootstrap with, which is there once
        at['_bootstrapping_id' if vc.maybe('bootstrapping') else '_id'] = mid
    c._vc_stubs['meta'] = Prop(value=None)
    anchor = vc.obj(CC, 'anchor', stubs={'id': Prop(value=aid)})
    c._vc_stubs['anchor'] = Prop(value=anchor if anchored else None)
    c._vc_stubs['is_absolute'] = lambda s: absolute
    c._vc_stubs['absolute'] = lambda s: vc.obj(CC, 'absolute', stubs={'remote': Prop(value=arem)})
    needs, api = vc.maybe('its class has an api'), vc.maybe('the api is bound')

    def to(s, x, **kw):
        vc.prove('anchored once, with the api, before it is used', needs and not api and not anchors and not made and not kw)
        if fail == 1:
            raise boom
        if x is c:
            vc.prove('the id of the first cache is there for its api', vc.call(C._CachePath.id.fget, c) is mid)
        anchors.append(x)

    def make(s, x, cache=None, **kw):
        if fail == 2:
            raise boom
        m = vc.obj(R.RemotePath, 'r')
        made.append((m, x, cache))
        if vc.maybe('the cache is bound in making it'):
            attrs_of(cache)['_remote'] = m
        return m
    rcls = vc.obj(R.RemotePath, 'the class', stubs={'__call__': make, 'anchorToCache': to})
    if needs:
        attrs_of(rcls)['_api_class'] = vc.any('api class')
        if api:
            attrs_of(rcls)['_api'] = vc.any('api')
    conf = vc.choose(4, 'remote class: none, bound as None, bound, by a factory')
    lclass = vc.any('local class')
    c._vc_stubs['local_class'] = Prop(value=lclass)

    def factory(s, x, l):
        vc.prove('the class is made for the anchor', x is (anchor if anchored else c) and l is lclass)
        return rcls
    at['_remote_class_factory'] = None
    if conf == 1:
        at['_remote_class'] = None
    elif conf == 2:
        at['_remote_class'] = rcls
    elif conf == 3:
        at['_remote_class_factory'] = vc.obj(R.RemotePath, 'factory', stubs={'__call__': factory})
    r = vc.attempt(C._CachePath.remote.fget, c)
    if known or helper:
        vc.prove('the one that is known, or that of the cache it is made for', r.ok and r.value is (krem if known else prem) and not made)
    elif not has:
        vc.prove('none without an id', r.ok and r.value is None and not made)
        vc.cover('no id')
    elif not anchored and not absolute:
        vc.prove('that of the absolute path', r.ok and r.value is arem and not made)
        vc.cover('relative')
    elif conf < 2:
        vc.prove('none without a remote class', r.ok and r.value is None and not made)
    elif fail == 1 and needs and not api:
        vc.prove('failing to anchor is raised', r.exc is boom and not made)
    elif fail == 2:
        vc.prove('failing to make it is raised', r.exc is boom)
    else:
        vc.prove('a remote object of that id, bound to this cache', r.ok and len(made) == 1 and r.value is made[0][0]
                 and made[0][1] is mid and made[0][2] is c)
        vc.prove('anchored, to the anchor or here, exactly if the api is not bound', anchors == ([anchor if anchored else c] if needs and not api else []))
        r2 = vc.attempt(C._CachePath.remote.fget, c)
        vc.prove('the same when asked again', r2.ok and r2.value is r.value and len(made) == 1)
        vc.cover('made')
        vc.cover('first', not anchored)


@contract('refreshing a cache')
def refresh(vc):
    gone = vc.maybe('the remote object is gone')
    isfile, exists = vc.maybe('a file'), vc.maybe('there')
    if isfile and not exists:
        return
    calls, crumpled = [], []
    new, boom = vc.obj(R.RemotePath, 'new'), Boom()
    fail = vc.choose(3, 'fails: nothing, asking, moving to the trash')
    limit, force, upd = vc.int('limit', 0, 10 ** 6), vc.any('force'), vc.any('update data')

    def ask(s, **kw):
        calls.append(kw)
        if fail == 1:
            raise boom
        return None if gone else new

    def crumple(s):
        if fail == 2:
            raise boom
        crumpled.append(s)
        return vc.any('trashed')
    size = vc.obj(U.FileSize, 'size', stubs={'mb': Prop(value=vc.int('mb', 0, 10 ** 6)), '__bool__': lambda s: True})
    m = vc.obj(M.PathMeta, 'm', stubs={'__bool__': lambda s: True})
    attrs_of(m)['size'] = size if vc.maybe('size known') else None
    c = vc.obj(CC, 'c', stubs={'meta': Prop(value=m), 'remote': Prop(value=vc.obj(R.RemotePath, 'r', stubs={'refresh': ask})),
                               'is_file': lambda s: isfile, 'exists': lambda s: exists, 'crumple': crumple})
    given = vc.maybe('options given')
    kw = dict(update_data=upd, size_limit_mb=limit, force=force) if given else {}
    r = vc.attempt(C._CachePath.refresh, c, **kw)
    vc.prove('the remote object is asked once', len(calls) == 1)
    if len(calls) == 1:
        k = calls[0]
        vc.prove('for the cache, with what was asked for', k.get('update_cache') is True and
                 (k.get('update_data') is upd and k.get('size_limit_mb') is limit and k.get('force') is force if given
                  else not k.get('update_data') and k.get('size_limit_mb') == 2 and not k.get('force')))
        vc.prove('data that is here is kept up to date', bool(k.get('update_data_on_cache')) == (isfile and exists))
    if fail == 1:
        vc.prove('a failure to ask is raised and the path stays', r.exc is boom and not crumpled)
    elif not gone:
        vc.prove('its answer', r.ok and r.value is new and not crumpled)
        vc.cover('there')
    elif fail == 2:
        vc.prove('a failure to move it is raised', r.exc is boom)
    else:
        vc.prove('moved to the trash', r.ok and crumpled == [c])
        vc.cover('gone')


@contract('child of a cache')
def child(vc):
    kind = vc.choose(3, 'key: a remote object, a name, something else')
    update = vc.choose(3, 'update_meta: default, True, False')
    up = vc.choose(3, 'above: metadata, none, raises NoCachedMetadataError')
    boom = Boom()
    fail = vc.choose(3, 'fails: nothing, asking for the parts, making it')
    log = []
    myrem = vc.any('my remote')
    parts = vc.any('parts')
    made = vc.obj(CC, 'made')

    def upmeta(s):
        if up == 2:
            raise exc.NoCachedMetadataError('x')
        return None if up == 1 else vc.any('meta')
    parent = vc.obj(CC, 'parent', stubs={'meta': Prop(get=upmeta)})

    def rel(s, remote, cache_parent=None, **kw):
        vc.prove('the parts of the object from here', remote is myrem and cache_parent is (c if up else parent) and not kw)
        if fail == 1:
            raise boom
        return parts

    def mk(s, p, rem, update_meta=True):
        log.append(s)
        vc.prove('made of these parts, for that object', p is parts and rem is key and bool(update_meta) == (update != 2))
        if fail == 2:
            raise boom
        return made
    exists, broken = vc.maybe('there is something'), vc.maybe('a broken link')
    if exists and broken:
        return
    has = vc.any('its cache')
    at = vc.obj(K.LocalPath, 'at', stubs={'exists': lambda s: exists, 'is_broken_symlink': lambda s: broken, 'cache': Prop(value=has)})
    name = textmod.text(vc, 'name')

    def join(s, o):
        vc.prove('the path of that name', o is name)
        return at
    c = vc.obj(CC, 'c', stubs={'parent': Prop(value=parent), 'remote': Prop(value=myrem), '_make_child': mk,
                               'local': Prop(value=vc.obj(K.LocalPath, 'local', stubs={'__truediv__': join}))})
    key = vc.obj(R.RemotePath, 'key', stubs={'_parts_relative_to': rel}) if kind == 0 else name if kind == 1 else vc.obj(K.LocalPath, 'path')
    r = vc.attempt(C._CachePath.__truediv__, c, key, **({} if update == 0 else {'update_meta': update == 1}))
    if kind == 2:
        vc.prove('anything else is refused', r.raised(TypeError) and not log)
    elif kind == 1:
        if exists or broken:
            vc.prove('the cache of what is there', r.ok and r.value is has)
        else:
            vc.prove('nothing of that name', r.raised(FileNotFoundError) and not log)
        vc.cover('name')
    elif fail:
        vc.prove('a failure is raised', r.exc is boom)
    else:
        vc.prove('the cache made', r.ok and r.value is made and len(log) == 1)
        vc.cover('object')


@contract('where trashed files go')
def trashed(vc):
    ident = textmod.text(vc, 'id', nonempty=True)
    name = textmod.text(vc, 'name', nonempty=True)
    safe = textmod.text(vc, 'safe')
    vc.stubs[U.fs_safe_id] = lambda s: safe if s is ident else vc.unsupported('another id')
    joined = []

    def join(s, o):
        joined.append(o)
        return s
    trash = vc.obj(K.LocalPath, 'trash', stubs={'__truediv__': join})
    c = vc.obj(CC, 'c', stubs={'id': Prop(value=ident), 'name': Prop(value=name), 'trash': Prop(value=trash)})
    r = vc.attempt(C._CachePath._trashed_path.fget, c)
    vc.prove('in the trash, named by the id', r.ok and r.value is trash and len(joined) == 1 and joined[0] is safe)
    r = vc.attempt(C._CachePath._trashed_path_short.fget, c)
    vc.prove('in the trash, by the name', r.ok and r.value is trash and len(joined) == 2 and joined[1] is name)


@contract('names safe for a file system')
def safe_id(vc):
    s = textmod.text(vc, 's')
    r = vc.attempt(U.fs_safe_id, s)
    vc.prove('made', r.ok)
    if r.ok:
        for ch in ' \n\t*|:\\/<>\'"?':
            vc.prove('none of the characters that are not safe is left', Not(r.value._vc_contains(ch)) if hasattr(r.value, '_vc_contains') else ch not in r.value)


@contract('path of a child')
def make_child(vc):
    """ what pathlib parses and prints is taken as it is """
    n, m = vc.choose(3, 'parts of the path') + 1, vc.choose(3, 'parts of the child') + 1
    mine = [vc.any(f'part {i}', str) for i in range(n)]
    parts = tuple(vc.any(f'name {i}', str) for i in range(m))
    drv, root = '', '/' if vc.maybe('absolute') else ''
    boom = Boom()
    kind = vc.choose(2, 'of: a remote object, something else')
    fail = vc.maybe('binding fails')
    update = vc.choose(3, 'update_meta: default, True, False')
    joined, made, bound = {}, [], []

    def fmt(s, d, r, ps):
        vc.prove('only the names are joined', d == '' and r == '' and len(ps) == m and all(a is b for a, b in zip(ps, parts)))
        x = vc.any('joined', str)
        joined[id(x)] = x
        return x

    def parse(s, x):
        vc.prove('the name, or the names joined', m == 1 and x is parts[0] or id(x) in joined)
        return '', '', list(parts)

    def frm(s, d, r, ps):
        made.append((d, r, list(ps)))
        return child
    child = vc.obj(CC, 'child')
    c = vc.obj(CC, 'c', stubs={'_format_parsed_parts': fmt, '_parse_path': parse, '_from_parsed_parts': frm,
                               '_drv': Prop(value=drv), '_root': Prop(value=root), '_tail': Prop(value=mine)})

    def bind(s, x, update_meta=True):
        bound.append((x, update_meta))
        if fail:
            raise boom
    rem = vc.obj(R.RemotePath, 'r', stubs={'_cache_setter': bind}) if kind == 0 else vc.obj(K.LocalPath, 'p')
    r = vc.attempt(C._CachePath._make_child, c, parts, rem, **({} if update == 0 else {'update_meta': update == 1}))
    if kind:
        vc.prove('made for remote objects only', r.raised(ValueError) and not bound)
        return
    vc.prove('at the names below this path', len(made) == 1 and made[0][:2] == (drv, root) and len(made[0][2]) == n + m
             and all(a is b for a, b in zip(made[0][2], mine + list(parts))))
    vc.prove('bound once to the object, its metadata stored unless told otherwise', len(bound) == 1 and bound[0][0] is child
             and bool(bound[0][1]) == (update != 2))
    vc.prove('a failure is raised, otherwise that child', r.exc is boom if fail else r.ok and r.value is child)
    vc.prove('what the path is made of stays', len(mine) == n)
    vc.cover('made', not fail)


@contract('a cache with a record')
def with_record(vc):
    cls = (C.SymlinkCache, C.SqliteCache)[vc.choose(2, 'class')]
    boom = Boom()
    got = []
    fail = vc.maybe('storing fails')
    m = vc.obj(M.PathMeta, 'm', stubs={'__bool__': lambda s: True}) if vc.maybe('a record is given') else None

    def put(s, v):
        if fail:
            raise boom
        got.append(v)
    c = vc.obj(cls, 'c', stubs={'meta': Prop(set=put)})
    vc.stubs[C.AugmentedPath.__init__] = lambda *a, **k: None
    r = vc.attempt(cls.__init__, c, vc.any('path'), **({} if m is None else {'meta': m}))
    if m is not None and fail:
        vc.prove('a failure is raised', r.exc is boom)
    else:
        vc.prove('the record is stored', r.ok and got == ([] if m is None else [m]))
        vc.cover('stored', m is not None)
