"""The root of a cache is found from every path in it."""
import itertools
from pyvc.api import *
from augpathlib import core as K
from augpathlib import exceptions as exc

ASSUMES = ['the directories above a path are finitely many and end at the root of the file system, which has no metadata',
           'absolute and resolve give an absolute path to the same file, resolve without links']
LX = type(K.LocalPath('x'))
I, B = z3.IntSort(), z3.BoolSort()
V = ('absolute', 'resolved')
HAS = {v: z3.Function(f'has-{v}', I, B) for v in V}        # the path k levels up has metadata
EXC = {v: z3.Function(f'exc-{v}', I, B) for v in V}        # asking for it raises instead
LAST = {v: z3.Function(f'last-{v}', I, I) for v in V}      # the highest one with metadata among the first k levels, or -1
CLEAR = {v: z3.Function(f'clear-{v}', I, B) for v in V}    # none of the first k levels ends the tree


class Node:
    """ the path k levels above a variant """
    _vc_model = True

    def __init__(self, w, v, k):
        self.w, self.v, self.k = w, v, z3.simplify(k)

    def _vc_kind(self):
        return ('node', self.v)

    @staticmethod
    def _vc_same(a, b):
        return a.v == b.v and a.k.eq(b.k)

    @property
    def cache(self):
        w, v, k = self.w, self.v, self.k
        w.step(v, k)
        if w.vc.branch(EXC[v](k)):
            w.lost.n = SInt(w.lost.n.t + 1)
            w.raised = (exc.NoCachedMetadataError, exc.NotInProjectError)[w.vc.choose(2, 'which')](f'{v}')
            raise w.raised
        return w.vc.obj(C, 'cache', stubs={'__bool__': lambda s: True}) if w.vc.branch(HAS[v](k)) else None

    @property
    def parents(self):
        return Above(self.w, self.v, self.k)

    @property
    def parent(self):
        return Node(self.w, self.v, z3.If(self.k < self.w.N[self.v], self.k + 1, self.k))

    def absolute(self):
        return self

    def resolve(self):
        if self.v == 'resolved':
            return self
        return Node(self.w, 'resolved', z3.IntVal(0))

    def is_absolute(self):
        return True

    def _eq(self, o):
        if type(o) is not Node:
            return False
        if o.v != self.v:
            # the root is the root
            return SBool(z3.And(self.k == self.w.N[self.v], o.k == self.w.N[o.v]))
        return SBool(self.k == o.k)

    def __eq__(self, o):
        return self._eq(o)

    def __ne__(self, o):
        return Not(self._eq(o))
    __hash__ = object.__hash__

    def __bool__(self):
        return True


class C:
    pass


class Above:
    """ what is above, nearest first, up to the root """
    _vc_model = True

    def __init__(self, w, v, k):
        self.w, self.v = w, v
        self.g = w.vc.obj(Ghost, gname(w.vc, f'above-{v}-'), k=SInt(z3.simplify(k)))
        w.cur[v] = self.g
        w.vc.tag = v + ' '          # (each variant has a loop of its own)

    def _vc_iter(self):
        return self

    def has_next(self):
        return self.w.vc.branch(self.g.k.t < self.w.N[self.v])

    def next(self):
        k = z3.simplify(self.g.k.t + 1)
        self.g.k = SInt(k)
        return Node(self.w, self.v, k)


class World:
    def __init__(self, vc):
        self.vc = vc
        self.N = {v: vc.int(f'levels-{v}', 1).t for v in V}
        self.cur = {}
        self.raised = None
        self.lost = vc.obj(Ghost, gname(vc, 'lost-'), n=SInt(z3.IntVal(0)))
        for v in V:
            vc._assume(LAST[v](-1) == -1)
            vc._assume(CLEAR[v](-1))
            vc._assume(z3.Not(HAS[v](self.N[v])))
            self.step(v, z3.IntVal(0))

    def step(self, v, k):
        k = z3.simplify(k)
        self.vc._assume(LAST[v](k) == z3.If(z3.And(HAS[v](k), z3.Not(EXC[v](k))), k, LAST[v](k - 1)))
        self.vc._assume(CLEAR[v](k) == z3.And(CLEAR[v](k - 1), z3.Not(z3.And(EXC[v](k), LAST[v](k - 1) >= 0))))

    def candidates(self, vc, lid, env):
        out = [('nothing that cannot be known so far', SBool(z3.Or(not self.fails, self.lost.n.t == 0)))]
        for o in list(vc.objs):
            n = object.__getattribute__(o, '_vc_name')
            for v in V:
                if not n.startswith(f'above-{v}-'):
                    continue
                k = attrs_of(o)['k'].t
                out.append((f'{n} is below the top', SBool(z3.And(k >= 0, k <= self.N[v]))))
                out.append((f'{n}: the tree goes on', SBool(CLEAR[v](k))))
                out.append((f'{n}: nothing yet', SBool(LAST[v](k) == -1)))
                out.append((f'{n}: LAST is at or below', SBool(z3.And(LAST[v](k) <= k, LAST[v](k) >= -1, LAST[v](k) < self.N[v]))))
                for name, x in env.items():
                    if type(x) is Node and x.v == v:
                        out.append((f'{name} is the highest so far in {n}', SBool(z3.And(x.k == LAST[v](k), x.k >= 0))))
                        out.append((f'{name} is the one at {n}', SBool(x.k == k)))
                    elif x is None:
                        out.append((f'{name} is the highest so far in {n}', SBool(LAST[v](k) == -1)))
        return out


@contract('find_cache_root')
def find(vc):
    w = World(vc)
    vc.cut_loops = True
    vc.candidates = w.candidates
    vc.kind_makers = dict(getattr(vc, 'kind_makers', None) or {})
    vc.kind_makers['node'] = lambda vc, k, nm, cur: Node(w, k[1], z3.Int(vc._n(nm)))
    broken = vc.maybe('a broken link')
    fail = vc.choose(3, 'fail: default, False, True')
    w.fails = fail == 2
    kw = {} if fail == 0 else {'fail': fail == 2}
    up = vc.any('what is found from above')

    def above(s, fail=False):
        vc.prove('asked the same', fail is (kw.get('fail', False)))
        return up
    par = vc.obj(LX, 'parent', stubs={'find_cache_root': above})
    p = vc.obj(LX, 'p', stubs={'is_broken_symlink': lambda s: broken, 'parent': Prop(value=par),
                               'absolute': lambda s: Node(w, 'absolute', z3.IntVal(0)), 'resolve': lambda s: Node(w, 'resolved', z3.IntVal(0)),
                               'cache': Prop(get=lambda s: unsup('the cache of the path as it is written')),
                               'is_absolute': lambda s: vc.maybe('absolute'), 'parents': Prop(get=lambda s: unsup('what is above the path as it is written'))})
    vc.class_models[LX] = lambda *a: Node(w, 'absolute', w.N['absolute']) if a == ('/',) else unsup('another path')
    r = vc.attempt(K.LocalPath.find_cache_root, p, **kw)
    if broken:
        vc.prove('from a link that leads nowhere it is what is found from above it', r.ok and r.value is up)
        return
    if fail == 2 and not r.ok:
        vc.prove('what cannot be known is raised as it is, if that is asked for', r.exc is w.raised)
        vc.cover('raised')
        return
    vc.prove('finding fails only if that is asked for', r.ok)
    if fail == 2:
        vc.prove('nothing that cannot be known is passed over, if that is asked for', SBool(w.lost.n.t == 0))
    a, b = w.cur.get('absolute'), w.cur.get('resolved')
    if type(r.value) is Node:
        v, k = r.value.v, w.cur[r.value.v].k.t
        w.step(v, k)
        vc.prove('the highest directory with metadata, of the tree the path is in', SBool(r.value.k == LAST[v](k)))
        vc.prove('which is not the root of the file system', SBool(r.value.k != w.N[v]))
        vc.prove('and has metadata', SBool(r.value.k >= 0))
        vc.prove('the tree goes up to it', SBool(CLEAR[v](k - 1)))
        vc.prove('and ends where metadata cannot be had, or at the root', SBool(z3.Or(k == w.N[v], z3.And(EXC[v](k), LAST[v](k - 1) >= 0))))
        if v == 'resolved':
            vc.prove('the path as it is written comes first', a is not None and SBool(z3.And(LAST['absolute'](a.k.t) == -1, a.k.t == w.N['absolute'])))
            vc.cover('found after resolving')
        vc.cover('found')
    else:
        vc.prove('none', r.value is None)
        for x, v in ((a, 'absolute'), (b, 'resolved')):
            vc.prove(f'none only if there is none above the {v} path', x is not None and SBool(z3.And(LAST[v](x.k.t) == -1, x.k.t == w.N[v])))
        vc.cover('none')
