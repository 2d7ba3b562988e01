"""Directories made for remote objects, and remote directories made for local ones, correspond level by level."""
from pyvc.api import *
from augpathlib import core as K
from augpathlib import caches as C
from augpathlib import remotes as R
from augpathlib import exceptions as exc

ASSUMES = ['the parents of a remote object are those above it up to the root, nearest first, as_path the path of each from the anchor on',
           '_mkdir_child (given by the user of the package) makes one remote directory of that name or raises; mkdir, cache_init and the constructors of '
           'caches and remote objects are as contracted elsewhere (P24, P34)',
           'relative_path_from of a directory above a path has the names between as its parts']
LX = type(K.LocalPath('x'))


class Ups:
    """ the remote objects above one, nearest first """
    _vc_model = True

    def __init__(self, w, top_first=False):
        self.w, self.top_first = w, top_first
        self.cur = None

    def _vc_tuple(self):
        return self
    _vc_list = _vc_tuple

    def _vc_reversed(self):
        return Ups(self.w, not self.top_first)

    def reverse(self):
        self.top_first = not self.top_first
    reverse._vc_stub = True

    def __getitem__(self, i):
        if isinstance(i, slice) and (i.start, i.stop, i.step) == (None, None, -1):
            return self._vc_reversed()
        unsup('one of the objects above')

    def _vc_iter(self):
        self.w.vc.prove('the highest comes first', self.top_first)
        return self

    def end_iteration(self):
        if self.cur is not None:
            self.w.judge(self.cur)

    def has_next(self):
        if not self.w.vc.maybe('one more'):
            return False
        self.cur = self.w.level()
        return True

    def next(self):
        return self.cur[0]


class Down:
    """ the local directories for the objects above a remote object """

    def __init__(self, vc):
        self.vc, w = vc, self
        self.log = []
        self.boom = None
        anchorlocal = vc.obj(LX, 'anchorlocal', stubs={'__truediv__': self.local})
        anchor = vc.obj(C.PrimaryCache, 'anchor', stubs={'local': Prop(value=anchorlocal)})
        self.remote = vc.obj(R.RemotePath, 'remote', stubs={'parents': Prop(get=lambda s: Ups(w))})
        rc = vc.obj(type('RC', (), {}), 'rc', stubs={'__call__': self.mkremote})
        cc = vc.obj(type('CC', (), {}), 'cc', stubs={'__call__': self.mkcache, 'anchor': Prop(value=anchor), '_remote_class': Prop(value=rc)})
        self.p = vc.obj(LX, 'p', stubs={'_cache_class': Prop(value=cc)})

    def level(self):
        vc, w = self.vc, self
        there = vc.maybe('exists')
        known = vc.obj(C.PrimaryCache, 'known')
        meta, path = vc.any('meta'), vc.obj(Ghost, 'aspath')
        par = vc.obj(R.RemotePath, 'above', stubs={'as_path': lambda s: path, 'meta': Prop(value=meta)})
        x = {'par': par, 'there': there, 'meta': meta, 'path': path, 'mark': len(w.log)}

        def mkdir(s, *a, **k):
            w.step('mkdir', s, k.get('parents', False))
        x['local'] = vc.obj(LX, 'local', stubs={'exists': lambda s: there, 'is_dir': lambda s: there, 'mkdir': mkdir,
                                     'cache': Prop(get=lambda s: known if there and vc.maybe('has a cache') else None)})
        self.cur = x
        return par, x

    def step(self, *what):
        if self.vc.maybe(f'{what[0]} fails'):
            self.boom = Boom('injected')
            raise self.boom
        self.log.append(what)

    def local(self, s, path):
        self.vc.prove('the place of this object below the anchor', path is self.cur['path'])
        return self.cur['local']

    def mkcache(self, s, path, *a, remote=None, meta=None, **k):
        if a or k:
            unsup('how caches are made')
        c = self.vc.obj(C.PrimaryCache, 'cache')
        self.step('cache', path, remote, meta, c)
        return c

    def mkremote(self, s, thing, *a, cache=None, **k):
        if a or k:
            unsup('how remote objects are made')
        self.step('remote', thing, cache)
        return self.vc.obj(R.RemotePath, 'rem')

    def judge(self, cur):
        x = cur[1]
        vc, log = self.vc, self.log[x['mark']:]
        if x['there']:
            vc.prove('what is there stays as it is', log == [])
            vc.cover('there')
            return
        vc.prove('made, then its cache, then bound to the remote object', [l[0] for l in log] == ['mkdir', 'cache', 'remote'])
        if len(log) == 3:
            vc.prove('the directory itself', log[0][1] is x['local'])
            vc.prove('its metadata is that of the object', log[1][1] is x['local'] and log[1][2] is x['par'] and log[1][3] is x['meta'])
            vc.prove('the object and its cache are bound', log[2][1] is x['par'] and log[2][2] is log[1][4])
            vc.cover('made')


@contract('mkdir_cache')
def mkdir_cache(vc):
    w = Down(vc)
    vc.cut_loops = True
    vc.builtin_models = dict(vc.builtin_models)
    vc.builtin_models[reversed] = lambda vc, x: x._vc_reversed() if type(x) is Ups else reversed(x)
    r = vc.attempt(K.LocalPath.mkdir_cache, w.p, w.remote)
    if not r.ok:
        vc.prove('a failure is raised as it is', w.boom is not None and r.exc is w.boom)
        vc.cover('fails')
    else:
        vc.prove('no failure is hidden', w.boom is None)


class Name:
    """ the name of level i """
    _vc_model = True

    def __init__(self, i):
        self.i = z3.simplify(i)


class Meta:
    _vc_model = True

    def __init__(self, k):
        self.k = k


class Loc:
    """ the local path k levels below the nearest directory with a cache """
    _vc_model = True

    def __init__(self, w, k):
        self.w, self.k = w, z3.simplify(k)

    def _vc_kind(self):
        return ('loc',)

    @staticmethod
    def _vc_same(a, b):
        return a.k.eq(b.k)

    def __truediv__(self, n):
        if type(n) is not Name:
            unsup('below a directory')
        self.w.vc.prove('the next name is that of the next level', SBool(n.i == self.k + 1))
        return Loc(self.w, self.k + 1)

    @property
    def cache(self):
        w = self.w
        return CacheOf(w, self.k) if w.vc.branch(self.k <= w.g.cached.t) else None

    @property
    def remote(self):
        return self.cache.remote

    def mkdir(self, *a, **k):
        w = self.w
        if a or set(k) - {'exist_ok', 'parents'}:
            unsup('mkdir')
        w.vc.prove('local directories may exist', k.get('exist_ok') is True)
        w.vc.prove('the remote directory is made first', SBool(w.g.remote.t == self.k))
        w.step(lambda: setattr(w.g, 'local', SInt(self.k)))
    mkdir._vc_stub = True

    def exists(self):
        return self.w.vc.maybe('exists')

    def cache_init(self, meta, *a, **k):
        w = self.w
        w.vc.prove('with the metadata of the remote directory of this level', type(meta) is Meta and SBool(meta.k == self.k))
        w.vc.prove('after the directory is made', SBool(w.g.local.t == self.k))
        w.step(lambda: setattr(w.g, 'cached', SInt(self.k)))
    cache_init._vc_stub = True

    def __bool__(self):
        return True


class CacheOf:
    _vc_model = True

    def __init__(self, w, k):
        self.w, self.k = w, k

    @property
    def remote(self):
        return Rem(self.w, self.k)

    @property
    def local(self):
        return Loc(self.w, self.k)

    def __bool__(self):
        return True


class Rem:
    """ the remote directory of level k """
    _vc_model = True

    def __init__(self, w, k, bound=False):
        self.w, self.k = w, z3.simplify(k)

    def _vc_kind(self):
        return ('rem',)

    @staticmethod
    def _vc_same(a, b):
        return a.k.eq(b.k)

    def _mkdir_child(self, n):
        w = self.w
        if type(n) is not Name:
            unsup('a remote child')
        w.vc.prove('a child is made where it belongs', SBool(n.i == self.k + 1))
        w.vc.prove('each level is made once, in order', SBool(w.g.remote.t == self.k))
        w.step(lambda: setattr(w.g, 'remote', SInt(self.k + 1)))
        return Rem(w, self.k + 1)
    _mkdir_child._vc_stub = True

    @property
    def meta(self):
        return Meta(self.k)

    def __setattr__(self, n, v):
        if n == '_cache':
            self.w.vc.prove('bound to the cache of its own level', type(v) is CacheOf and SBool(v.k == self.k))
            self.w.bound = self
            return
        object.__setattr__(self, n, v)

    def __bool__(self):
        return True


class Names:
    """ the names of the levels, in order """
    _vc_model = True

    def __init__(self, w):
        self.w = w
        self.g = w.vc.obj(Ghost, gname(w.vc, 'names'), k=SInt(z3.IntVal(0)))

    def _vc_iter(self):
        return self

    def has_next(self):
        return self.w.vc.branch(self.g.k.t < self.w.N.t)

    def next(self):
        self.g.k = SInt(z3.simplify(self.g.k.t + 1))
        return Name(self.g.k.t)


class UpLocal:
    """ the directories above a local path, nearest first: none but the last has a cache """
    _vc_model = True

    def __init__(self, w):
        self.w = w
        self.g = w.vc.obj(Ghost, gname(w.vc, 'uplocal'), k=w.N)      # levels below the one with the cache; N for the path itself

    def _vc_iter(self):
        return self

    def has_next(self):
        return self.w.vc.branch(self.g.k.t > (0 if self.w.any else 1))

    def next(self):
        self.g.k = SInt(z3.simplify(self.g.k.t - 1))
        return Loc(self.w, self.g.k.t)


class Levels:
    def __init__(self, vc, n):
        self.vc, w = vc, self
        self.N = n
        self.boom = None
        self.bound = None
        self.any = True
        self.g = vc.obj(Ghost, 'g', remote=SInt(z3.IntVal(0)), local=SInt(z3.IntVal(0)), cached=SInt(z3.IntVal(0)))

    def step(self, do):
        if self.vc.maybe('fails'):
            self.boom = Boom('injected')
            raise self.boom
        do()

    def candidates(self, vc, lid, env):
        out = []
        g = attrs_of(self.g)
        for o in vc.objs:
            n = object.__getattribute__(o, '_vc_name')
            if n.startswith('names'):
                k = attrs_of(o)['k'].t
                out.append((f'{n} in range', SBool(z3.And(k >= 0, k <= self.N.t))))
                for a in ('remote', 'local', 'cached'):
                    out.append((f'{a} is made up to {n}', SBool(g[a].t == k)))
                for x, v in env.items():
                    if type(v) in (Loc, Rem):
                        out.append((f'{x} is of {n}', SBool(v.k == k)))
                    if v is UNBOUND or v is None:
                        out.append((f'{x} is of {n}', SBool(k == 0)))
            if n.startswith('uplocal'):
                k = attrs_of(o)['k'].t
                out.append((f'{n} in range', SBool(z3.And(k >= (0 if self.any else 1), k <= self.N.t))))
                out.append((f'{n} passed only what has no cache', SBool(k > 0)))
        for a in ('remote', 'local', 'cached'):
            out.append((f'{a} not made', SBool(g[a].t == 0)))
        return out


@contract('mkdir_remote, one level')
def one(vc):
    w = Levels(vc, vc.int('one', 1, 1))
    has = vc.maybe('has a cache')
    up = vc.maybe('the parent has a cache')
    parents = vc.choose(3, 'parents: default, False, True') if up else vc.choose(2, 'parents: default, False')
    remote_there = has and vc.maybe('the remote is there')
    old = vc.obj(R.RemotePath, 'old', stubs={'exists': lambda s: remote_there, '__bool__': lambda s: True})
    mine = vc.obj(C.PrimaryCache, 'mine', stubs={'remote': Prop(value=old), '__bool__': lambda s: True})
    made = []
    log = []
    known = vc.maybe('the new remote object has a cache already')
    kc = vc.obj(C.PrimaryCache, 'known', stubs={'__bool__': lambda s: True})
    meta = vc.any('meta')
    bound = []
    new = vc.obj(R.RemotePath, 'new', stubs={'meta': Prop(value=meta), 'cache': Prop(get=lambda s: bound[-1] if bound else kc if known else None),
                                                '_cache': Prop(get=lambda s: bound[-1] if bound else None, set=lambda s, c: bound.append(c)), '__bool__': lambda s: True})
    name = textmod.text(vc, 'name', nonempty=True)

    def step(n):
        if vc.maybe(f'{n} fails'):
            w.boom = Boom('injected')
            raise w.boom
        log.append(n)

    def mk(s, n):
        vc.prove('the remote directory has the name', SText.of(n) is not None and bool(SText.of(n)._vc_same(name)))
        step('remote')
        return new
    pr = vc.obj(R.RemotePath, 'parentremote', stubs={'_mkdir_child': mk})
    pc = vc.obj(C.PrimaryCache, 'parentcache', stubs={'remote': Prop(value=pr), '__bool__': lambda s: True}) if up else None
    par = vc.obj(LX, 'parent', stubs={'cache': Prop(value=pc), 'remote': Prop(get=lambda s: pr if up else unsup('the remote of the parent'))})
    fresh = vc.obj(C.PrimaryCache, 'fresh', stubs={'__bool__': lambda s: True})

    def mkdir(s, *a, **k):
        vc.prove('the local directory may exist', k.get('exist_ok') is True)
        step('local')

    def init(s, m, *a, **k):
        vc.prove('with the metadata of the remote directory', m is meta)
        step('cache')
        made.append(fresh)
        return fresh
    p = vc.obj(LX, 'p', stubs={'cache': Prop(get=lambda s: made[-1] if made else mine if has else None), 'remote': Prop(get=lambda s: old if has else unsup('no cache')),
                               'parent': Prop(value=par), 'name': Prop(value=name), 'mkdir': mkdir, 'cache_init': init, '__str__': lambda s: 'p'})
    r = vc.attempt(K.LocalPath.mkdir_remote, p, **({} if parents == 0 else {'parents': parents == 2}))
    if w.boom is not None:
        vc.prove('a failure is raised as it is', r.exc is w.boom)
        return
    if remote_there:
        vc.prove('refused if the remote is there', isinstance(r.exc, exc.RemotePathExistsError) and not log)
        vc.cover('there')
    elif not up:
        vc.prove('refused without a cache to put it in', isinstance(r.exc, FileNotFoundError) and not log)
        vc.cover('no parent')
    else:
        vc.prove('the new remote directory', r.ok and r.value is new)
        vc.prove('made remotely, then locally, then given metadata, once', log == ['remote', 'local'] + ([] if known else ['cache']))
        vc.prove('and bound', bound == [] if known else bound == [fresh])
        vc.cover('made')


@contract('mkdir_remote, several levels')
def several(vc):
    w = Levels(vc, vc.int('levels', 2))
    vc.cut_loops = True
    vc.candidates = w.candidates
    vc.eager_locals = True
    vc.kind_makers = dict(getattr(vc, 'kind_makers', None) or {})
    vc.kind_makers['loc'] = lambda vc, k, nm, cur: Loc(w, z3.Int(vc._n(nm)))
    vc.kind_makers['rem'] = lambda vc, k, nm, cur: Rem(w, z3.Int(vc._n(nm)))
    w.any = vc.maybe('one above has a cache')
    rel = vc.obj(Ghost, 'rel', parts=None)

    def from_(s, o):
        vc.prove('from the nearest directory with a cache on', type(o) is Loc and SBool(o.k == 0))
        return rel
    rel._vc_stubs['parts'] = Prop(get=lambda s: Names(w))
    par = vc.obj(LX, 'parent', stubs={'cache': Prop(value=None)})
    p = vc.obj(LX, 'p', stubs={'cache': Prop(value=None), 'remote': Prop(get=lambda s: unsup('no cache')), 'parent': Prop(value=par),
                               'parents': Prop(get=lambda s: UpLocal(w)), 'relative_path_from': from_, 'relative_to': from_, '__str__': lambda s: 'p'})
    vc.builtin_models = dict(vc.builtin_models)
    vc.builtin_models[print] = lambda vc, *a, **k: None
    r = vc.attempt(K.LocalPath.mkdir_remote, p, parents=True)
    g = w.g
    if w.boom is not None:
        vc.prove('a failure is raised as it is', r.exc is w.boom)
        vc.cover('fails')
    elif not w.any:
        vc.prove('nothing is made', SBool(z3.And(g.remote.t == 0, g.local.t == 0, g.cached.t == 0)))
        vc.prove('refused without a cache to put it in', isinstance(r.exc, FileNotFoundError))
        vc.cover('none')
    else:
        vc.prove('the remote directory of the path', r.ok and type(r.value) is Rem and SBool(r.value.k == w.N.t))
        vc.prove('every level is made, remotely, locally and with metadata', SBool(z3.And(g.remote.t == w.N.t, g.local.t == w.N.t, g.cached.t == w.N.t)))
        vc.prove('and bound', w.bound is not None and SBool(w.bound.k == w.N.t))
        vc.cover('made')
