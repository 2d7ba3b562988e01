"""with, pushd and popd always lead back to where one came from."""
import pathlib
import os
from pyvc.api import *
from augpathlib import core as K
from augpathlib import caches as C

ASSUMES = ['chdir changes the current directory or raises with nothing changed']
PathEnter = pathlib.Path.__enter__



class W:
    """ the current directory """

    def __init__(self, vc):
        self.vc = vc
        self.failed = None
        self.places = {}
        self.cwd = self.place('start')

    def place(self, n, cls=K.LocalPath, isdir=True):
        w = self

        def chdir(s):
            k = w.vc.choose(3, f'chdir {n}: ok, OSError, other')
            if k:
                w.failed = (OSError('injected'), Boom('injected'))[k - 1]
                raise w.failed
            w.cwd = o
        o = self.vc.obj(cls, n, stubs={'is_dir': lambda s: isdir, 'cwd': lambda s: w.cwd, 'chdir': chdir})
        return o


def find(cls, name):
    return next(k.__dict__[name] for k in cls.__mro__ if name in k.__dict__)


@contract('with')
def withstmt(vc):
    w = W(vc)
    cached = vc.maybe('a cache')
    isdir = vc.maybe('a directory')
    p = w.place('p', C.EatCache if cached else K.LocalPath, isdir)
    if cached:
        p._vc_stubs['local'] = Prop(value=w.place('local'))
        del p._vc_stubs['cwd']
    sup = []
    vc.class_stubs[(pathlib.Path, '__enter__')] = lambda s: sup.append('enter')
    vc.class_stubs[(pathlib.Path, '__exit__')] = lambda s, *a: sup.append('exit')
    # uses of the same path that are not over yet, in any number
    before = None
    if vc.maybe('used before'):
        n = vc.int('already entered', 0)
        before = SymStack(vc, n.t, lambda i: w.place('from where an outer use came') if w.vc.maybe('a directory then') else None)
        attrs_of(p)['_entered_from'] = before
    start = w.cwd
    cls = C.CachePath if cached else K.AugmentedPath
    r = vc.attempt(find(cls, '__enter__'), p)

    def asbefore():
        now = getattr(p, '_entered_from', ())
        if type(now) is SymStack:
            return before is not None and now.same(before)
        return before is None and not now
    if not isdir:
        vc.prove('what is not a directory is entered like any other path', r.ok and sup == ['enter'] and w.cwd is start)
        if vc.maybe('it becomes a directory'):
            p._vc_stubs['is_dir'] = lambda s: True
        x = vc.attempt(find(cls, '__exit__'), p, None, None, None)
        vc.prove('and left like any other path', x.ok and sup == ['enter', 'exit'] and w.cwd is start and w.failed is None)
        vc.prove('outer uses, when it was a directory, are as they were', asbefore())
        vc.cover('no directory')
        return
    if not r.ok:
        vc.prove('a failing chdir is raised, nothing changes', r.exc is w.failed and w.cwd is start and
                 asbefore())
        vc.cover('failed')
        return
    vc.prove('entered', r.value is p and w.cwd is p)
    # the body goes elsewhere, and removes or replaces the directory
    w.cwd = w.place('elsewhere')
    E = (Boom, StopIteration, KeyboardInterrupt, GeneratorExit, SystemExit, OSError, FileNotFoundError, RuntimeError)[
        vc.choose(8, 'what the body raises')] if vc.maybe('the body raises') else None
    e = E and E('body')
    left = w.cwd
    gone = vc.maybe('the directory is gone')
    if gone:
        p._vc_stubs['is_dir'] = lambda s: False
    x = vc.attempt(find(cls, '__exit__'), p, E, e, None)
    if w.failed is None:
        vc.prove('back where it was, an error of the body is not swallowed', x.ok and Not(x.value) if x.ok and x.value is not None else x.ok)
        vc.prove('back where it was', w.cwd is start)
        vc.prove('the outer uses are as they were', asbefore())
        vc.cover('back')
    else:
        vc.prove('a failing way back is raised', x.exc is w.failed and w.cwd is left)


def stackworld(vc):
    w = W(vc)
    n = vc.int('directories on the stack', 0)
    w.stack = SymStack(vc, n.t, lambda i: w.place('on the stack'))
    real = K.AugmentedPath._stack
    vc.shadow[id(real)] = w.stack, real
    vc.builtin_models = dict(vc.builtin_models)
    vc.builtin_models[print] = lambda vc, *a, **k: None
    vc.class_stubs[(K.AugmentedPath, 'cwd')] = lambda *a: w.cwd
    vc.stubs[pathlib.Path.cwd.__func__] = lambda *a: w.cwd
    return w, n


def is_stack(w, top=(), removed=None):
    return w.stack.same(w.stack, top, removed)


@contract('pushd')
def pushd(vc):
    w, n = stackworld(vc)
    isdir = vc.maybe('a directory')
    p = w.place('p', isdir=isdir)
    start = w.cwd
    r = vc.attempt(K.AugmentedPath.pushd, p)
    if not isdir:
        vc.prove('what is not a directory is refused, nothing changes', r.raised(NotADirectoryError) and w.cwd is start and is_stack(w))
    elif w.failed is not None:
        vc.prove('a failing chdir is raised, nothing changes', r.exc is w.failed and w.cwd is start and is_stack(w))
    else:
        vc.prove('the current directory is on the stack, then changed', r.ok and w.cwd is p and is_stack(w, [start]))
        vc.cover('pushed')


@contract('popd')
def popd(vc):
    w, n = stackworld(vc)
    start = w.cwd
    given = vc.maybe('N given')
    N = vc.int('N', 0) if given else SInt(z3.IntVal(0))
    r = vc.attempt(K.AugmentedPath.popd, *((N,) if given else ()))
    k = n.t - 1 - N.t
    if vc.branch(n.t == 0):
        vc.prove('an empty stack changes nothing', r.ok and r.value is None and w.cwd is start and is_stack(w))
    elif vc.branch(k < 0):
        vc.prove('no such entry is reported, nothing changes', r.raised(IndexError) and w.cwd is start and is_stack(w))
    elif w.failed is not None:
        vc.prove('a failing chdir is raised, nothing changes', r.exc is w.failed and w.cwd is start and is_stack(w))
    else:
        vc.prove('the entry counted from the top is taken off the stack and gone to', r.ok and r.value is w.stack.at(k) and w.cwd is r.value
                 and is_stack(w, (), k))
        vc.cover('popped')


@contract('chdir')
def chdir(vc):
    p = vc.obj(K.LocalPath, 'p')
    log = []
    vc.stubs[os.chdir] = lambda x: log.append(x)
    vc.builtin_models = dict(vc.builtin_models)
    vc.builtin_models[os.chdir] = lambda vc, x: log.append(x)
    vc.call(K.AugmentedPath.chdir, p)
    vc.prove('to the path', len(log) == 1 and log[0] is p)
