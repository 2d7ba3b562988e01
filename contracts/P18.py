"""A path is sparse exactly when it or a directory above it is marked."""
from pyvc.api import *
from augpathlib import core as K
from augpathlib import caches as C
from augpathlib import exceptions as exc

ASSUMES = ['absolute paths; the directory tree does not change while the question is answered']
HX = type(K.LocalPath('x'))
HC = type('EatCacheX', (C.EatCache, K.XattrHelper), {}) if K.XattrHelper not in C.EatCache.mro() else C.EatCache


class Boom(OSError):
    pass


def find(cls, name):
    return next(k.__dict__[name] for k in cls.__mro__ if name in k.__dict__)


class Chain:
    """ a path and the directories above it; the answer for the last one of them is given by the contract (or it is the root) """

    def __init__(self, vc, depth):
        self.vc = vc
        self.boom = None
        self.cached = vc.maybe('a cache')
        self.nodes = []
        w = self
        for i in range(depth + 1):
            top = i == depth
            o = vc.obj(HX, f'p{i}', stubs={'getxattr': self.getxattr, '__eq__': lambda s, o: s is o, '__ne__': lambda s, o: s is not o,
                                           'is_absolute': lambda s: True})
            o._vc_stubs['_i'] = Prop(value=i)
            o._vc_stubs['_r'] = Prop(value=o)
            self.nodes.append(o)
        for a, b in zip(self.nodes, self.nodes[1:]):
            a._vc_stubs['parent'] = Prop(value=b)
        last = self.nodes[-1]
        self.isroot = vc.maybe('the last is the root')
        if self.isroot:
            last._vc_stubs['parent'] = Prop(value=last)
            for i, a in enumerate(self.nodes):
                a._vc_stubs['parents'] = Prop(value=tuple(self.nodes[i + 1:]))
        else:
            last._vc_stubs['_sparse_root'] = lambda s: w.rest(False)
            last._vc_stubs['is_sparse'] = lambda s: w.rest(True)
            last._vc_stubs['parent'] = Prop(get=lambda s: unsup('above what the contract covers'))
        self.state = [vc.choose(3, f'{i}: not marked, marked, failing') for i in range(depth + 1)]
        if self.cached:
            p = vc.obj(HC, 'cache', stubs={'getxattr': self.getxattr, 'local': Prop(value=self.nodes[0]), '__eq__': lambda s, o: s is o,
                                           '__ne__': lambda s, o: s is not o})
            p._vc_stubs['_i'] = Prop(value=0)
            p._vc_stubs['parent'] = Prop(get=lambda s: unsup('the parent of the cache itself'))
            self.p = p
        else:
            self.p = self.nodes[0]

    def getxattr(self, s, key, **k):
        self.vc.prove('the mark is what is asked for', key == K.XattrHelper._sparse_key and not k)
        st = self.state[s._i]
        if st == 0:
            raise exc.NoStreamError((s, key))
        if st == 2:
            self.boom = self.boom or Boom('injected')
            raise self.boom
        return b'1'

    def rest(self, b):
        st = self.state[-1]
        if st == 2:
            self.boom = self.boom or Boom('injected')
            raise self.boom
        return (True if st else None) if not b else bool(st)

    def want(self):
        for i, st in enumerate(self.state):
            if i == len(self.nodes) - 1 and self.isroot:
                return False
            if st:
                return None if st == 2 else True
        return False


@contract('is_sparse', max_paths=20000)
def is_sparse(vc):
    w = Chain(vc, vc.choose(4, 'directories above'))
    if len(w.nodes) == 1 and not w.isroot:
        return
    r = vc.attempt(find(HC if w.cached else HX, 'is_sparse'), w.p)
    want = w.want()
    if want is None:
        vc.prove('what cannot be read is reported as it happened', w.boom is not None and r.exc is w.boom)
        vc.cover('failed')
    else:
        vc.prove('sparse exactly when it or a directory above it, other than the root, is marked', r.ok and bool(r.value) is want)
        vc.cover('sparse' if want else 'not sparse')


@contract('_sparse_root', max_paths=20000)
def sparse_root(vc):
    w = Chain(vc, vc.choose(3, 'directories above'))
    if len(w.nodes) == 1 and not w.isroot:
        return
    r = vc.attempt(find(HC if w.cached else HX, '_sparse_root'), w.p)
    want = w.want()
    if want is None:
        vc.prove('what cannot be read is reported as it happened', w.boom is not None and r.exc is w.boom)
    else:
        vc.prove('something exactly when it or a directory above it, other than the root, is marked',
                 r.ok and (r.value is not None) is want and bool(r.value) is want)


@contract('marking and clearing')
def mark(vc):
    cls = (HX, HC)[vc.choose(2, 'class')]
    calls = []
    boom = Boom('injected')
    fails = vc.maybe('fails')

    def st(n):
        def f(s, *a, **k):
            calls.append((n, s is p) + a + tuple(sorted(k)))
            if fails:
                raise boom
        return f
    p = vc.obj(cls, 'p', stubs={'setxattr': st('set'), 'delxattr': st('del'), 'is_absolute': lambda s: True})
    which = ('_mark_sparse', '_clear_sparse')[vc.choose(2, 'op')]
    r = vc.attempt(find(cls, which), p)
    key = K.XattrHelper._sparse_key
    vc.prove('only the mark of this path changes', calls == ([('set', True, key, b'1')] if which == '_mark_sparse' else [('del', True, key)]))
    vc.prove('a failure is raised as it is', r.exc is boom if fails else r.ok)
