"""What is in a directory: everything, once, except what is the cache's own at the anchor."""
from pyvc.api import *
from augpathlib import core as K
from augpathlib import caches as C
from augpathlib import exceptions as exc

ASSUMES = ['iterdir yields the entries of a directory once, rglob("*") what is below it once, without following links to directories below it']
LX = type(K.LocalPath('x'))
IGN = C._CachePath.cache_ignore


def find(cls, name):
    return next(k.__dict__[name] for k in cls.__mro__ if name in k.__dict__)


class Entries:
    _vc_oncelist = True
    """ the entries of a directory, any number """
    _vc_model = True

    def __init__(self, w, make):
        self.w, self.make = w, make
        self.cur = None

    def _vc_iter(self):
        return self

    def _vc_map(self, kind, f):
        if kind != 'gen':
            unsup('what is made of the entries')
        return Mapped(self, f)

    def __iter__(self):
        yield self          # all of them as they come

    def end_iteration(self):
        if self.cur is not None:
            self.w.judge(self.cur)

    def has_next(self):
        if not self.w.vc.maybe('another'):
            return False
        self.cur = self.make()
        return True

    def next(self):
        return self.cur


class Mapped(Entries):
    def __init__(self, e, f):
        self.e, self.f, self.w = e, f, e.w
        self.cur = None

    def has_next(self):
        if not self.e.has_next():
            return False
        c = self.e.next()
        out = self.f(c)
        if not out:
            self.w.judge(c)
            self.w.vc.die(PathCut('left out'))
        self.cur = out[0]
        self.src = c
        return True

    def next(self):
        return self.cur

    def end_iteration(self):
        self.e.end_iteration()


class Dir:
    """ a local path: a directory or not, with a cache or not, anchored or not, the anchor or not """

    def __init__(self, vc):
        w = self
        self.vc = vc
        self.dir = vc.maybe('a directory')
        self.has = vc.maybe('has a cache')
        self.anchored = self.has and vc.maybe('anchored')
        self.isroot = self.anchored and vc.maybe('the anchor')
        self.got = []
        al = vc.obj(LX, 'alocal')
        anchor = None
        if self.anchored:
            anchor = vc.obj(C.PrimaryCache, 'anchor', stubs={'local': Prop(value=al), '__bool__': lambda s: True})
        cache = None
        if self.has:
            cache = vc.obj(C.PrimaryCache, 'cache', stubs={'anchor': Prop(value=anchor), '__bool__': lambda s: True})
        self.p = p = vc.obj(LX, 'p', stubs={'is_dir': lambda s: w.dir, 'cache': Prop(value=cache), 'iterdir': lambda s: w.entries(),
                                           '__eq__': lambda s, o: s is o or (o is al and w.isroot),
                                           '__ne__': lambda s, o: not (s is o or (o is al and w.isroot))})
        al._vc_stubs['__eq__'] = lambda s, o: s is o or (o is p and w.isroot)
        if anchor is not None:
            anchor._vc_stubs['__eq__'] = lambda s, o: s is o or (o is cache and w.isroot)
        cc = type('CC', (C.PrimaryCache,), {})
        self.cc = vc.obj(cc, 'cacheclass')
        attrs_of(p)['_cache_class'] = C._CachePath

    def entries(self):
        self.vc.prove('only a directory is listed', self.dir)
        return Entries(self, self.entry)

    def entry(self):
        vc, w = self.vc, self
        # the name: one of the ignored, one with an ignored stem, one that begins with it, any other
        self.ign = vc.choose(4, 'name: ignored, ignored and a suffix, ignored and more, other')
        base = IGN[vc.choose(len(IGN), 'which')] if self.ign < 3 else None
        name = base if self.ign == 0 else base + '.bak' if self.ign == 1 else base + 'x' if self.ign == 2 else textmod.text(vc, 'name', nonempty=True)
        if self.ign == 3:
            for i in IGN:
                vc._assume(bt(Not(name == i)))
        stem = {0: name, 1: base, 2: name}.get(self.ign)
        self.mark = len(self.got)
        self.below = None
        x = vc.obj(LX, 'entry', stubs={'name': Prop(value=name), 'stem': Prop(get=lambda s: stem if stem is not None else textmod.text(vc, 'stem', nonempty=True)),
                                       'rchildren': Prop(get=lambda s: w.deep(s))})
        return x

    def deep(self, x):
        self.below = self.vc.any('everything below')
        yield self.below

    def ignored(self):
        return self.isroot and self.ign == 0


class Children(Dir):
    def judge(self, x):
        out = self.got[self.mark:]
        if self.ignored():
            self.vc.prove('what is the cache\'s own is left out at the anchor', not out)
            self.vc.cover('ignored')
        else:
            self.vc.prove('every other entry once', len(out) == 1 and out[0] is x)
            self.vc.cover('listed')


@contract('LocalPath.children', max_paths=20000)
def children(vc):
    w = Children(vc)

    def consume():
        for x in vc.call(find(LX, 'children').fget, w.p):
            if type(x) is Entries:
                vc.prove('what is the cache\'s own is left out at the anchor', not w.isroot)
                vc.prove('every entry once', not w.got)
                vc.cover('all')
            w.got.append(x)
    r = vc.attempt(consume)
    vc.prove('listing does not fail', r.ok)
    vc.prove('something that is not a directory has no children', w.dir or not w.got)
    vc.cover('end')


class RChildren(Dir):
    def judge(self, x):
        out = self.got[self.mark:]
        self.vc.prove('every child, and then everything below it', len(out) == 2 and out[0] is x and out[1] is self.below)
        self.vc.cover('below')


@contract('LocalPath.rchildren', max_paths=20000)
def rchildren(vc):
    w = RChildren(vc)
    asked = []
    all_ = vc.any('all below')

    def rglob(s, pat):
        vc.prove('everything is asked for', pat == '*')
        asked.append(pat)
        yield all_
    w.p._vc_stubs['rglob'] = rglob

    def plain():
        w.isroot_entries = True
        return Entries(w, w.entry)
    w.p._vc_stubs['children'] = Prop(get=lambda s: plain())

    def consume():
        for x in vc.call(find(LX, 'rchildren').fget, w.p):
            w.got.append(x)
    r = vc.attempt(consume)
    vc.prove('listing does not fail', r.ok)
    if w.dir and w.isroot:
        vc.prove('at the anchor what is the cache\'s own is not descended into', not asked)
        vc.cover('anchor')
    else:
        vc.prove('elsewhere everything below', len(asked) == 1 and len(w.got) == 1 and w.got[0] is all_)
        vc.cover('elsewhere')


@contract('skip_cache')
def skip_cache(vc):
    has = vc.maybe('has a cache')
    uphas = vc.maybe('the directory has a cache')
    first = (*IGN, '.git.bak', 'x')[vc.choose(len(IGN) + 2, 'first part')]
    more = ('a', '.git')[:vc.choose(3, 'more parts')]
    root = vc.obj(LX, 'root')
    anchor = vc.obj(C.PrimaryCache, 'anchor', stubs={'__bool__': lambda s: True, 'local': Prop(value=root)})
    pc = vc.obj(C.PrimaryCache, 'pc', stubs={'anchor': Prop(value=anchor), '__bool__': lambda s: True}) if uphas else None
    up = vc.obj(LX, 'up', stubs={'cache': Prop(value=pc)})
    cache = vc.obj(C.PrimaryCache, 'c', stubs={'__bool__': lambda s: True}) if has else None
    lost = not has and not uphas and vc.maybe('in no cache')
    boom = exc.NotInProjectError('x')

    def root_of(s, fail=False):
        vc.prove('what is in no cache is reported', fail is True)
        if lost:
            raise boom
        return root

    class Rel:
        _vc_model = True
        parts = (first,) + more
        name = parts[-1]
    rel = Rel()

    def relto(s, o):
        vc.prove('relative to the anchor', o is (anchor if uphas else root) or (uphas and o is root))
        return rel
    p = vc.obj(LX, 'p', stubs={'cache': Prop(value=cache), 'parent': Prop(value=up), 'find_cache_root': root_of, 'relative_to': relto})
    attrs_of(p)['_cache_class'] = C._CachePath
    r = vc.attempt(find(LX, 'skip_cache').fget, p)
    if lost:
        vc.prove('what is in no cache is reported', r.exc is boom)
        vc.cover('lost')
    elif has:
        vc.prove('what has a cache needs none', r.ok and r.value is True)
        vc.cover('has')
    else:
        vc.prove('to be skipped exactly when it is in what is the cache\'s own', r.ok and bool(r.value) is (first in IGN))
        vc.cover('decided')


class Remotes:
    def __init__(self, vc, deep):
        self.vc, self.deep = vc, deep
        self.got = []

    def child(self):
        vc, w = self.vc, self
        self.mark = len(self.got)
        self.args = vc.any('parts')

        def rel(s, o):
            vc.prove('the place of an object is relative to where it is listed', o is w.remote)
            return w.args
        self.rc = vc.obj(C.remotes.RemotePath, 'rc', stubs={'_parts_relative_to': rel})
        self.cc = vc.obj(C.PrimaryCache, 'cc')
        self.made = 0
        return self.rc

    def judge(self, x):
        out = self.got[self.mark:]
        self.vc.prove('one cache for each remote object', len(out) == 1 and out[0] is self.cc and self.made == 1)
        self.vc.cover('made')

    def div(self, s, o):
        self.vc.prove('the cache of the child', o is self.rc and not self.deep)
        self.made += 1
        return self.cc

    def make(self, s, args, remote, update_meta=True):
        self.vc.prove('the cache of the object, at its place', args is self.args and remote is self.rc and update_meta is True)
        self.made += 1
        return self.cc


def remote_listing(vc, name):
    w = Remotes(vc, name == 'rchildren')
    w.remote = vc.obj(C.remotes.RemotePath, 'remote', stubs={name: Prop(get=lambda s: Entries(w, w.child))})
    p = vc.obj(C.PrimaryCache, 'p', stubs={'remote': Prop(value=w.remote), '__truediv__': w.div, '_make_child': w.make})
    for x in vc.call(find(C.PrimaryCache, name).fget, p):
        w.got.append(x)


@contract('PrimaryCache.children')
def cache_children(vc):
    remote_listing(vc, 'children')


@contract('PrimaryCache.rchildren')
def cache_rchildren(vc):
    remote_listing(vc, 'rchildren')
