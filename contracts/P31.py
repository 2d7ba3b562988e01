"""The parts of a remote object are the names from the anchor to it."""
import pathlib
from pyvc.api import *
from augpathlib import remotes as R
from augpathlib import caches as C

ASSUMES = ['the remote tree is a tree: above an object come its parents up to the root, which is its own parent',
           'where there is a local cache of the parent of an object, it is below the anchor and the directories between have '
           'the names and ids of the remote objects they stand for (or no metadata)']
Name = z3.DeclareSort('Name')
Names = z3.DeclareSort('Names')
EMPTY = z3.Const('EMPTY', Names)
ADD = z3.Function('ADD', Names, Name, Names)
NAME = z3.Function('nameat', z3.IntSort(), Name)      # of the remote object k levels up
UP = z3.Function('up', z3.IntSort(), Names)           # the names of the objects 1 .. k-1 levels up, nearest first


class NList(list):
    """ a list of names, nearest first """
    _vc_model = True

    def __init__(self, vc, t=None, l=()):
        self.vc = vc
        self.g = vc.obj(Ghost, gname(vc, 'names'), t=SAny(EMPTY if t is None else t, object))
        for x in l:
            self.append(x)

    t = property(lambda s: s.g.t.t)

    def _vc_kind(self):
        return ('nlist',)

    def append(self, x):
        if type(x) is not SAny or x.t.sort() != Name:
            unsup('something else in the list of names')
        self.g.t = SAny(ADD(self.t, x.t), object)
    append._vc_stub = True

    def _no(self, *a, **k):
        unsup('operation on the list of names')
    extend = insert = pop = remove = reverse = clear = sort = index = count = __add__ = __iadd__ = __mul__ = __getitem__ = \
        __setitem__ = __delitem__ = __contains__ = __eq__ = __len__ = _vc_len = _no
    __hash__ = object.__hash__

    def __reversed__(self):
        return Rev(self.t)

    def __iter__(self):
        return iter([Span(self.t, False)])

    def __bool__(self):
        return self.vc.branch(self.t != EMPTY)


class Span:
    """ all the elements of a list of names, in a tuple """
    _vc_model = True

    def __init__(self, t, rev):
        self.t, self.rev = t, rev


class Rev:
    _vc_model = True

    def __init__(self, t):
        self.t = t

    def __iter__(self):
        return iter([Span(self.t, True)])


class World:
    """ a remote object, the objects above it, and the caches of these """

    def __init__(self, vc):
        self.vc = vc
        self.N = vc.int('levels below', 1)            # remote is the parent N levels up: parent 0 is remote iff N == 1 ...
        self.idx = {}
        vc.mklist = lambda l: NList(vc, None, l)
        vc._assume(UP(1) == EMPTY)
        self.self = self.remote_at(z3.IntVal(0))
        self.remote = self.remote_at(self.N.t)
        self.anchor = self.cache_at(self.N.t)

    def step(self, k):
        self.vc._assume(UP(k + 1) == ADD(UP(k), NAME(k)))

    def known(self, o):
        r = self.idx.get(id(o))
        if r is None:
            unsup('comparison with another object')
        return r[0]

    def remote_at(self, k):
        """ the remote object k levels up """
        vc, w = self.vc, self
        k = z3.simplify(k)
        w.step(k)
        o = vc.obj(R.RemotePath, f'remote{len(vc.objs)}', stubs={
            'name': Prop(value=SAny(NAME(k), str)), 'id': Prop(value=SInt(IDR(k), str)),
            'parent': Prop(get=lambda s: w.remote_at(k + 1)), 'parents': Prop(get=lambda s: Above(w, k, w.remote_at)),
            '__eq__': lambda s, x: x is not None and SBool(k == w.known(x)), '__ne__': lambda s, x: not (x is not None and SBool(k == w.known(x))),
            'anchor': Prop(get=lambda s: w.remote), '_cache_anchor': Prop(get=lambda s: w.anchor)})
        w.idx[id(o)] = (k, o)
        return o

    def cache_at(self, k):
        """ the local directory of the object k levels up """
        vc, w = self.vc, self
        w.step(k)
        nometa = vc.bool('no metadata')

        def ident(s):
            vc._assume(z3.Implies(z3.Or(k == w.N.t, k == 1), z3.Not(nometa.t)))
            if nometa:
                return None
            return SInt(IDR(k), str)
        o = vc.obj(C.CachePath, f'cache{len(vc.objs)}', stubs={
            'name': Prop(value=SAny(NAME(k), str)), 'id': Prop(get=ident),
            'parent': Prop(get=lambda s: w.cache_at(k + 1)), 'parents': Prop(get=lambda s: Above(w, k, w.cache_at)),
            '__eq__': lambda s, x: x is not None and SBool(k == w.known(x)), '__ne__': lambda s, x: not (x is not None and SBool(k == w.known(x)))})
        w.idx[id(o)] = (k, o)
        return o

    def candidates(self, vc, lid, env):
        out = []
        for o in vc.objs:
            at = attrs_of(o)
            if 'k' in at:
                for n, v in env.items():
                    if type(v) is NList:
                        for d in (0, 1, 2):
                            out.append((f'{n} are the names below {object.__getattribute__(o, "_vc_name")}.k+{d}', SBool(v.t == UP(at['k'].t + d))))
                out.append((f'{object.__getattribute__(o, "_vc_name")}.k below', SBool(at['k'].t < self.N.t)))
                out.append((f'{object.__getattribute__(o, "_vc_name")}.k from', SBool(at['k'].t >= at['from'].t)))
        return out


IDR = z3.Function('idof', z3.IntSort(), z3.IntSort())


class Above:
    """ the objects above the one k levels up, nearest first, up to the root """
    _vc_model = True

    def __init__(self, w, k, make):
        self.w, self.make = w, make
        self.g = w.vc.obj(Ghost, gname(w.vc, 'above'), k=SInt(z3.simplify(k)), **{'from': SInt(z3.simplify(k))})

    def _vc_iter(self):
        return self

    def has_next(self):
        # the root of the file system or of the remote is at or above the anchor
        k, w = self.g.k.t, self.w
        r = w.vc.maybe('there is something above')
        if not r:
            w.vc._assume(k >= w.N.t)
        return r

    def next(self):
        w = self.w
        k = z3.simplify(self.g.k.t + 1)
        self.g.k = SInt(k)
        # ids are those of different objects
        w.vc._assume(z3.Implies(k != w.N.t, IDR(k) != IDR(w.N.t)))
        return self.make(k)


def world(vc):
    w = World(vc)
    vc.candidates = w.candidates
    vc.kind_makers = dict(getattr(vc, 'kind_makers', None) or {})
    vc.kind_makers['nlist'] = lambda vc, k, nm, cur: NList(vc, z3.Const(vc._n(nm), Names))
    vc.builtin_models = dict(vc.builtin_models)
    vc.builtin_models[reversed] = lambda vc, x: x.__reversed__()
    return w


def check(vc, w, what, parts):
    vc.prove(f'{what}: names, in a tuple', isinstance(parts, tuple) and len(parts) in (1, 2))
    vc.prove(f'{what}: the last is the name of the object itself', type(parts[-1]) is SAny and SBool(parts[-1].t == NAME(0)))
    w.step(z3.IntVal(0))
    if len(parts) == 1:
        vc.prove(f'{what}: only the object itself when it is directly below', w.N == 1)
    else:
        s = parts[0]
        vc.prove(f'{what}: outermost first', type(s) is Span and s.rev)
        vc.prove(f'{what}: exactly the names of the objects in between', SBool(s.t == UP(w.N.t)))




@contract('_parts_relative_to')
def parts_relative(vc):
    w = world(vc)
    how = vc.choose(3, 'no cache, cache of the parent, cache of something else')
    kw = {}
    if how:
        kw['cache_parent'] = w.cache_at(z3.IntVal(1)) if how == 1 else w.cache_at(z3.Int(vc._n('elsewhere')))
        if how == 2:
            i = kw['cache_parent'].id
            if i is not None:
                vc._assume(IDR(1) != i.t)
    r = vc.attempt(R.RemotePath._parts_relative_to, w.self, w.remote, **kw)
    vc.prove('parts', r.ok)
    if not r.ok:
        return
    check(vc, w, 'parts', r.value)
    vc.cover('done')


@contract('parts and as_path')
def parts(vc):
    isanchor = vc.maybe('the anchor itself')
    cached = vc.maybe('has a cache')
    names = (vc.any('name'), vc.any('name'))[:vc.choose(2, 'names') + 1]
    up = vc.obj(C.CachePath, 'up')
    c = vc.obj(C.CachePath, 'c', stubs={'parent': Prop(value=up)})
    asked = []

    def rel(s, remote, cache_parent=None):
        vc.prove('relative to the anchor, by way of the cache of the parent if there is one',
                 s is o and remote is anchor and cache_parent is (up if cached else None))
        asked.append(1)
        return names
    o = vc.obj(R.RemotePath, 'o', stubs={'cache': Prop(value=c if cached else None), '_parts_relative_to': rel,
                                         '__eq__': lambda s, x: isanchor and x is anchor or s is x,
                                         '__ne__': lambda s, x: not (isanchor and x is anchor or s is x)})
    anchor = vc.obj(R.RemotePath, 'anchor', stubs={'__eq__': lambda s, x: s is x or isanchor and x is o})
    o._vc_stubs['anchor'] = Prop(value=anchor)
    want = () if isanchor else names
    for i in range(2):
        r = vc.attempt(R.RemotePath.parts.fget, o)
        vc.prove('the names between the anchor and the object, none for the anchor, every time', r.ok and isinstance(r.value, tuple) and
                 len(r.value) == len(want) and all(a is b for a, b in zip(r.value, want)))
    made = []
    vc.class_models[pathlib.PurePath] = lambda *a: made.append(a) or 'path'
    o._vc_stubs['parts'] = Prop(value=names)
    r = vc.attempt(R.RemotePath.as_path, o)
    vc.prove('the path is made of the parts', r.ok and r.value == 'path' and len(made) == 1 and len(made[0]) == len(names) and
             all(a is b for a, b in zip(made[0], names)))
