"""Anchoring: at most one anchor, of the right root, and failing to anchor leaves things as they were."""
from pyvc.api import *
from augpathlib import remotes as R
from augpathlib import caches as C
from augpathlib import core as K
from augpathlib import exceptions as exc

CC = type('CC', (C.PrimaryCache, C.EatCache), {})

ASSUMES = ['init binds the root that belongs to the identifier it is given or raises',
           'cache_init makes the cache for the id given, anchors it if asked to, or raises (CacheExistsError exactly when there is a cache already)']



class World:
    """ a remote class, and the directory it could be anchored at """

    def __init__(self, vc, anchored=None):
        self.vc = vc
        w = self
        self.boom = None
        self.made = []
        self.rootid = vc.any('root id', str)
        self.cls = c = vc.obj(R.RemotePath, 'cls', stubs={})
        for k in R.RemotePath.__mro__:
            for n, v in k.__dict__.items():
                if isinstance(v, classmethod) and n not in c._vc_stubs:
                    c._vc_stubs[n] = (lambda f: lambda s, *a, **kw: vc.call(f, s, *a, **kw))(v.__func__)
        c._vc_stubs['init'] = self.init
        self.isfile = vc.choose(3, 'root: directory, file, neither')
        self.root = vc.obj(R.RemotePath, 'root', stubs={
            'name': Prop(value=textmod.text(vc, 'root name', nonempty=True)), 'id': Prop(value=self.rootid),
            'is_dir': lambda s: w.isfile == 0, 'is_file': lambda s: w.isfile == 1})
        c._vc_stubs['__instancecheck__'] = lambda s, x: x is w.root
        c._vc_stubs['__call__'] = lambda s, x, **k: w.root if w.same(x) else unsup('another remote')
        attrs_of(c)['root'] = self.root if vc.maybe('root is bound as an object') else self.rootid
        if vc.maybe('api'):
            attrs_of(c)['_api'] = vc.any('api')
        self.other = vc.obj(CC, 'other', stubs={'id': Prop(value=self.rootid), '__eq__': lambda s, o: s is o or w.is_it and o is w.cache})
        self.anchored = vc.maybe('anchored') if anchored is None else anchored
        if self.anchored:
            attrs_of(c)['_cache_anchor'] = self.other

    def same(self, x):
        return x is self.rootid or x is self.root

    def init(self, s, ident):
        self.vc.prove('the api is bound for the id of the anchor', ident is self.cache.id)
        if self.vc.maybe('init fails'):
            self.boom = Boom('init')
            raise self.boom
        attrs_of(s)['_api'] = 'api'
        attrs_of(s)['root'] = self.cache.id

    def now(self):
        return attrs_of(self.cls).get('_cache_anchor')

    def may_fail(self, what):
        if self.vc.maybe(what + ' fails'):
            self.boom = Boom(what)
            raise self.boom

    def disk(self):
        """ what is where the root would go: nothing, a directory: empty or not, with a cache of this root, of another, without """
        vc, w = self.vc, self
        self.exists = vc.maybe('there is a directory')
        self.full = self.exists and vc.maybe('it has children')
        self.has = self.exists and vc.maybe('it has a cache')
        self.right = vc.maybe('of this root') if self.has else True
        self.cid = self.rootid if self.right else vc.any('another id', str)
        if not self.right:
            vc._assume(self.cid.t != self.rootid.t)
        self.meta = self.has and vc.any('meta')
        self.cache = vc.obj(CC, 'cache', stubs={'id': Prop(value=self.cid), 'meta': Prop(value=vc.any('meta')),
                                                        '__eq__': lambda s, o: s is o or w.is_it and o is w.other})
        self.is_it = self.anchored and self.has and self.right and vc.maybe('it is the anchor')

        def mkdir(s, **k):
            w.may_fail('mkdir')
            w.made.append('dir')
            w.exists = True

        def cache_init(s, ident, anchor=False):
            vc.prove('the directory is there when its cache is made', w.exists)
            vc.prove('a cache of the root, anchored', w.same(ident) and anchor is True)
            if w.has:
                raise exc.CacheExistsError('exists')
            w.may_fail('cache_init')
            w.made.append('cache')
            w.has = True
            if not attrs_of(w.cls).get('_cache_anchor'):
                attrs_of(w.cls)['_cache_anchor'] = w.cache
            return w.cache
        self.path = p = vc.obj(K.LocalPath, 'path', stubs={
            'exists': lambda s: w.exists, 'children': Prop(get=lambda s: [1] if w.full else []), 'mkdir': mkdir, 'cache_init': cache_init,
            'cache': Prop(get=lambda s: w.cache if w.has else None), 'is_dir': lambda s: w.exists})
        self.up = up = vc.obj(K.LocalPath, 'up', stubs={})

        def join(s, n):
            vc.prove('the directory has the name of the root', n is w.root.name)
            return p
        up._vc_stubs['__truediv__'] = join
        up._vc_stubs['joinpath'] = join
        p._vc_stubs['parent'] = Prop(value=up)
        self.given = vc.any('somewhere')
        local = vc.obj(K.LocalPath, 'localclass', stubs={'cwd': lambda s: up})
        local._vc_stubs['__call__'] = lambda s, x=None: up if x is w.given or x is up else unsup('another path')
        attrs_of(self.cls)['_local_class'] = local


def unchanged(vc, w, what):
    vc.prove(f'{what}: the anchor is as it was', w.now() is (w.other if w.anchored else None))


@contract('anchorToCache')
def anchor_to_cache(vc):
    w = World(vc)
    cls = w.cls
    at = attrs_of(cls)
    w.cache = vc.obj(CC, 'cache', stubs={'id': Prop(value=vc.any('cache id', str))})
    root = w.rootid
    if not vc.maybe('root known'):
        root = None
        del at['root']
    alt = vc.maybe('another id of the root')
    altid = vc.any('alt', str)
    if alt:
        at['_remote_root'] = altid
    api = '_api' in at
    init = (None, True, False)[vc.choose(3, 'init')]
    r = vc.attempt(R.RemotePath.anchorToCache.__func__, cls, w.cache, **({} if init is None else {'init': init}))
    if w.anchored:
        vc.prove('what is anchored stays anchored where it is', r.raised(ValueError) and w.now() is w.other)
        vc.cover('anchored')
        return
    if w.boom:
        vc.prove('a failing init is raised', r.exc is w.boom)
        unchanged(vc, w, 'failing init')
        return
    did = init is not False and not api
    eff = w.cache.id if did else root
    ok = True if eff is None else (eff == w.cache.id if not alt else Or(eff == w.cache.id, altid == w.cache.id))
    if r.ok:
        vc.prove('only a cache of the root becomes the anchor', ok)
        vc.prove('anchored to it', r.value is w.cache and w.now() is w.cache)
        vc.cover('ok')
    else:
        vc.prove('only what is not a cache of the root is refused', And(r.raised(ValueError), Not(ok)))
        unchanged(vc, w, 'refused')
        vc.cover('refused')


def drop(vc, fn, given, smart=False):
    w = World(vc)
    w.disk()
    full, exists, has, right = w.full, w.exists, w.has, w.right
    call = getattr(R.RemotePath, fn).__func__
    how = vc.choose(3, 'parent path: none, given, by keyword')
    r = vc.attempt(call, w.cls, *((w.given,) if how == 1 else ()), **({'parent_path': w.given} if how == 2 else {}))
    judge(vc, w, r, smart, full, exists, has, right)


def judge(vc, w, r, smart, full, exists, has, right):
    if w.boom is not None:
        vc.prove('a failure is raised', r.exc is w.boom)
        vc.prove('a failure does not anchor', not w.anchored)
        unchanged(vc, w, 'failure')
        return
    if w.anchored:
        unchanged(vc, w, 'already anchored')
        vc.prove('already anchored: nothing is made', not w.made)
        if smart and w.is_it:
            vc.prove('anchored to the same place', r.ok and r.value is w.other)
            vc.cover('same')
        else:
            vc.prove('already anchored: refused', r.raised(exc.RemoteAlreadyAnchoredError))
            vc.cover('anchored')
        return
    if r.ok:
        vc.prove('the anchor is returned', r.value is w.cache and w.now() is w.cache)
        vc.cover('ok')
        if exists and has:
            vc.prove('only a cache of this root becomes the anchor, and only when it may exist already', smart and right)
            vc.prove('nothing is made over it', not w.made)
        elif exists:
            vc.prove('an empty directory gets a cache', not full and w.made == ['cache'])
        else:
            vc.prove('a directory and its cache are made for the root', w.isfile == 0 and w.made == ['dir', 'cache'])
        return
    unchanged(vc, w, 'refused')
    vc.prove('refused: nothing is made', not w.made)
    if exists and has and (smart or not full):
        if smart:
            vc.prove('a cache of this root can be anchored to', not right)
            vc.prove('the cache of another root is refused', r.raised(ValueError))
            vc.cover('another')
        else:
            vc.prove('an existing cache is reported', r.raised(exc.CacheExistsError))
    elif exists:
        vc.prove('a directory with something in it is refused', full and r.raised(exc.DirectoryNotEmptyError))
        vc.cover('full')
    else:
        vc.prove('a root that is not a directory is refused', w.isfile != 0 and r.raised(NotImplementedError))
        vc.cover('no directory')


@contract('dropAnchor', max_paths=20000)
def drop_anchor(vc):
    drop(vc, 'dropAnchor', True)


@contract('smartAnchor', max_paths=20000)
def smart_anchor(vc):
    drop(vc, 'smartAnchor', True, True)


@contract('anchorTo', max_paths=20000)
def anchor_to(vc):
    w = World(vc)
    w.disk()
    kind = vc.choose(3, 'a local path, a cache, something else')
    at = attrs_of(w.cls)
    if kind == 2:
        r = vc.attempt(R.RemotePath.anchorTo.__func__, w.cls, ('text', 1, None)[vc.choose(3, 'what')])
        vc.prove('what is not a path is refused', r.raised(TypeError))
        unchanged(vc, w, 'no path')
        return
    if kind == 1 or w.has:
        # as anchorToCache of that cache
        if not w.exists:
            return
        got = []
        res = vc.choose(2, 'anchorToCache')
        bad = ValueError('refused')

        def a2c(s, c, **k):
            got.append(c)
            vc.prove('with the api', k.get('init', True) is True)
            if res:
                raise bad
            return c
        w.cls._vc_stubs['anchorToCache'] = a2c
        r = vc.attempt(R.RemotePath.anchorTo.__func__, w.cls, w.cache if kind else w.path, **({'create': True} if vc.maybe('create') else {}))
        vc.prove('anchored to the cache itself, or refused as it would be', len(got) == 1 and got[0] is w.cache and
                 (r.exc is bad if res else r.ok and r.value is w.cache))
        return
    samename = vc.maybe('it has the name of the root')
    w.path._vc_stubs['name'] = Prop(value=w.root.name if samename else 'other name')
    vc.assume(w.root.name != 'other name')
    create = vc.maybe('create')
    full, exists, has, right = w.full, w.exists, w.has, w.right
    r = vc.attempt(R.RemotePath.anchorTo.__func__, w.cls, w.path, **({'create': True} if create else {}))
    if not samename or not create:
        vc.prove('another name, or nothing to be created: refused', r.raised(ValueError) and not w.made)
        unchanged(vc, w, 'refused')
        return
    judge(vc, w, r, False, full, exists, has, right)


@contract('weighAnchor')
def weigh(vc):
    w = World(vc)
    r = vc.attempt(R.RemotePath.weighAnchor.__func__, w.cls)
    vc.prove('not anchored any more', r.ok and w.now() is None)


@contract('anchorClassHere')
def class_here(vc):
    T = type('T', (C.EatCache,), {})
    T._bind_flavours()
    H = type('TX', (T, K.XattrHelper), {}) if vc.maybe('the class has a helper class') else T
    other = vc.obj(H, 'other')
    anchored = vc.maybe('anchored')
    if anchored:
        T._anchor = other
    boom = Boom('injected')
    fail = vc.choose(3, 'fails: nothing, the data directory, the remote')
    calls = []

    def ldi(s, **k):
        vc.prove('the data directory of the anchor', s is me)
        calls.append('dir')
        if fail == 1:
            raise boom

    def a2c(s, c, init=True):
        vc.prove('the remote class is anchored to the same cache', c is me and init is want)
        calls.append('remote')
        if fail == 2:
            raise boom
        return c
    rc = vc.obj(R.RemotePath, 'remoteclass', stubs={'anchorToCache': a2c})
    me = vc.obj(H, 'me', stubs={'local_data_dir_init': ldi, '_remote_class': Prop(value=rc)})
    ri = (None, True, False)[vc.choose(3, 'remote_init')]
    want = True if ri is None else ri
    r = vc.attempt(C.CachePath.anchorClassHere, me, **({} if ri is None else {'remote_init': ri}))
    now = T.__dict__.get('_anchor')
    vc.prove('the anchor is common to the class', '_anchor' not in H.__dict__ or H is T)
    if anchored:
        vc.prove('what is anchored stays anchored where it is', r.raised(ValueError) and now is other and not calls)
        vc.cover('anchored')
    elif fail:
        vc.prove('a failure is raised and leaves the class without anchor', r.exc is boom and now is None)
    else:
        vc.prove('anchored, and the remote class too', r.ok and now is me and sorted(calls) == ['dir', 'remote'])
        vc.cover('ok')
    # and the anchor can be taken up again
    x = vc.attempt(C.CachePath.weighAnchor.__func__, H)
    vc.prove('weighed', x.ok and '_anchor' not in T.__dict__)


@contract('_new')
def new(vc):
    """ a class of remote objects for a class of local paths and one of caches """
    made = []

    def mk(name):
        weighed = []
        o = vc.obj(R.RemotePath, name, stubs={'weighAnchor': lambda s: weighed.append(1)})
        o_weighed[name] = weighed
        return o
    o_weighed = {}
    cls = mk('cls')
    attrs_of(cls)['__name__'] = 'Rem'

    def typ(*a, **k):
        vc.prove('a subclass of the class', len(a) == 3 and not k and tuple(a[1]) == (cls,))
        n = mk('new')
        attrs_of(n).update(a[2])
        made.append(n)
        return n
    vc.class_models[type] = model(typ)
    local = vc.obj(K.LocalPath, 'local class')
    if vc.maybe('the local class had others'):
        attrs_of(local).update(_remote_class=vc.any('old remote class'), _cache_class=vc.any('old cache class'))
    cc = vc.obj(CC, 'cache class', stubs={'weighAnchor': lambda s: cw.append(1)})
    cw = []
    if vc.maybe('the cache class had others'):
        attrs_of(cc).update(_remote_class=vc.any('old remote class'), _local_class=vc.any('old local class'))
    r = vc.attempt(R.RemotePath._new.__func__, cls, local, cc)
    vc.prove('one new class', r.ok and len(made) == 1 and r.value is made[0])
    if r.ok:
        n, a, b, c = r.value, attrs_of(r.value), attrs_of(local), attrs_of(cc)
        vc.prove('each of the three classes knows the other two', a.get('_local_class') is local and a.get('_cache_class') is cc
                 and b.get('_remote_class') is n and b.get('_cache_class') is cc and c.get('_remote_class') is n and c.get('_local_class') is local)
        vc.prove('neither is anchored', bool(o_weighed['new']) and bool(cw))
        vc.cover('made')


@contract('init')
def bind_api(vc):
    ident, root, boom = vc.any('identifier'), vc.any('root'), Boom()
    old = vc.any('old api')
    bound, fail = vc.maybe('bound already'), vc.maybe('making the api fails')
    api = vc.obj(R.RemotePath, 'api', stubs={'root': Prop(value=root)})
    made = []

    def make(s, x, **k):
        vc.prove('made for the identifier', x is ident and not k)
        if fail:
            raise boom
        made.append(x)
        return api
    cls = vc.obj(R.RemotePath, 'cls', stubs={'_api_class': Prop(value=vc.obj(R.RemotePath, 'api class', stubs={'__call__': make}))})
    if bound:
        attrs_of(cls).update(_api=old, root=root)
    r = vc.attempt(R.RemotePath.init.__func__, cls, ident)
    a = attrs_of(cls)
    if bound:
        vc.prove('it is bound once', r.raised(ValueError) and not isinstance(r.exc, Boom) and a['_api'] is old and a['root'] is root and not made)
    elif fail:
        vc.prove('a failure is raised and nothing is bound', r.exc is boom and '_api' not in a and 'root' not in a)
    else:
        vc.prove('the api and its root', r.ok and a.get('_api') is api and a.get('root') is root and len(made) == 1)
        vc.cover('bound')
