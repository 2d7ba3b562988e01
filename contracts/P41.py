"""The way from one path to another, the text of a link, and what may be done with a path."""
import os
import pathlib
from pyvc.api import *
from augpathlib import core as C

ASSUMES = ['os.path.commonpath gives the deepest path that is, or is above, each of two absolute or two relative paths, and ValueError for a mix',
           'relative_to gives the names below a path that is, or is above, it; joining paths puts their names after one another',
           'os.readlink and os.access answer for the path they are given']
AP = C.AugmentedPath


def unsup(what):
    raise Unsupported(what)


class Levels:
    """ n names, any n; all of them `only` if that is given """
    _vc_model = True

    def __init__(self, vc, n, only=None):
        self.vc, self.n, self.only = vc, n, only

    def _vc_len(self):
        return SInt(self.n)

    def __bool__(self):
        return self.vc.branch(self.n > 0)

    def __getitem__(self, i):
        if type(i) is slice and i.step is None and (i.start, i.stop) in ((None, -1), (1, None)):
            return Levels(self.vc, z3.simplify(z3.If(self.n > 0, self.n - 1, 0)), self.only)
        unsup('some of the names of a path')

    def _vc_map(self, kind, f):
        out = f('a name' if self.only is None else self.only)
        if len(out) != 1 or type(out[0]) is not str or out[0] == 'a name':
            unsup('what is made of the names of a path')
        return Levels(self.vc, self.n, out[0])

    def _same(self):
        return self
    _vc_list = _vc_tuple = _same

    def __iter__(self):
        yield self      # as arguments: all at once

    def no(self, *a):
        unsup('names of a path')
    __eq__ = __contains__ = __add__ = __radd__ = no
    __hash__ = None


@contract('to_relative')
def to_relative(vc):
    """ one up for every directory between """
    n = vc.int('levels below the other', 0)
    other = vc.obj(AP, 'other')
    rp = vc.obj(AP, 'below', stubs={'parts': Prop(value=Levels(vc, n.t))})
    made = []

    def below(s, o):
        vc.prove('the other is what it is taken from', o is other)
        return rp

    def cls(*a):
        made.append(a)
        return 'the way'
    vc.class_models[AP] = cls
    p = vc.obj(AP, 'p', stubs={'relative_to': below})
    r = vc.attempt(AP.to_relative, p, other)
    if not vc.prove('it is of the same class', r.ok and r.value == 'the way' and len(made) == 1):
        return
    a = made[0]
    if not (len(a) == 1 and type(a[0]) is Levels or not a):
        unsup('a path of other parts')
    if a:
        vc.prove('every step is one up', a[0].only == '..')
    vc.prove('as many as there are directories between', (SInt(a[0].n) if a else 0) == SInt(z3.If(n.t > 0, n.t - 1, 0)))


@contract('the way from one path to another')
def way(vc):
    n = vc.int('levels of the other below what they have in common', 0)
    m = vc.int('levels of the path below it', 0)
    mixed = vc.maybe('one relative, one absolute')
    base = vc.obj(AP, 'common')
    down = vc.obj(AP, 'down')

    class Up:
        _vc_model = True

        def __init__(self, k):
            self.k = k

        def __truediv__(self, o):
            if o is not down:
                unsup('another way')
            return Way(self.k)
        joinpath = __truediv__

    class Way:
        _vc_model = True

        def __init__(self, k):
            self.k = k

    def common(s, o):
        vc.prove('what the two have in common', (s is p and o is q) or (s is q and o is p))
        if mixed:
            raise ValueError('mixed')
        return base

    def up(s, o):
        vc.prove('up to what they have in common', o is base)
        return Up(SInt(z3.If(n.t > 0, n.t - 1, 0)) if s is q else SInt(z3.If(m.t > 0, m.t - 1, 0)))

    def rel(s, o):
        vc.prove('down from what they have in common', o is base)
        return down if s is p else unsup('another way')
    stubs = {'commonpath': common, 'to_relative': up, 'relative_to': rel}
    vc.class_models[AP] = lambda *a: a[0] / a[1] if len(a) == 2 and type(a[0]) is Up else unsup('a path of something else')
    p = vc.obj(AP, 'p', stubs=dict(stubs))
    q = vc.obj(AP, 'q', stubs=dict(stubs))
    r = vc.attempt(AP.relative_path_from, p, q) if vc.maybe('from') else vc.attempt(AP.relative_path_to, q, p)
    if mixed:
        vc.prove('there is no way between a relative and an absolute path', r.raised(ValueError))
        return
    if not vc.prove('there is a way', r.ok):
        return
    if type(r.value) is not Way:
        unsup('a way made otherwise')
    # in the directory the other is in there are n - 1 levels to what they have in common, at the other itself none if it is that
    vc.prove('up to what they have in common, and no further', r.value.k == SInt(z3.If(n.t > 0, n.t - 1, 0)))
    vc.cover('a way')


@contract('what two paths have in common')
def commonpath(vc):
    p, q = vc.obj(AP, 'p'), vc.obj(AP, 'q')
    text = vc.str('common')

    def common(ps):
        ps = list(ps)
        vc.prove('of the two', len(ps) == 2 and all(any(x is y for x in ps) for y in (p, q)))
        return text
    vc.stubs[os.path.commonpath] = common
    vc.class_models[AP] = lambda *a: ('path', a)
    r = vc.attempt(AP.commonpath, p, q)
    vc.prove('the path of it', r.ok and type(r.value) is tuple and len(r.value[1]) == 1 and r.value[1][0] is text)


@contract('readlink')
def readlink(vc):
    link = vc.str('link')
    fails = vc.maybe('no link')

    def rl(x):
        vc.prove('of the path', x is p or type(x) is str and x == '/the path')
        if fails:
            raise OSError(22, 'Invalid argument')
        return link
    vc.stubs[os.readlink] = rl
    vc.class_models[pathlib.PurePath] = lambda *a: ('path', a)
    raw = vc.choose(3, 'raw: not said, True, False')
    p = vc.obj(AP, 'p', stubs={'as_posix': lambda s: '/the path', '__str__': lambda s: '/the path', '__fspath__': lambda s: '/the path'})
    r = vc.attempt(AP.readlink, p, **({'raw': True}, {'raw': False})[raw - 1] if raw else {})
    if fails:
        vc.prove('what is no link is an OSError', r.raised(OSError))
    elif raw == 1:
        vc.prove('the text of the link', r.ok and r.value is link)
    else:
        vc.prove('the path that is the text of the link', r.ok and type(r.value) is tuple and len(r.value[1]) == 1 and r.value[1][0] is link)


@contract('access')
def access(vc):
    """ exactly the kind of access named is asked for """
    kinds = {'read': os.R_OK, 'write': os.W_OK, 'execute': os.X_OK, os.R_OK: os.R_OK, os.W_OK: os.W_OK, os.X_OK: os.X_OK}
    modes = ['no mode', *kinds, 'exec', os.R_OK | os.W_OK, 0, None]
    mode = modes[vc.choose(len(modes), 'mode')]
    follow = vc.choose(3, 'follow: not said, True, False')
    answer = vc.bool('answer')

    def acc(path, m, *, dir_fd=None, effective_ids=False, follow_symlinks=True):
        vc.prove('of the path', path == '/the path' or path is p)
        vc.prove('the kind of access', m == (os.R_OK if mode == 'no mode' else kinds.get(mode)))
        vc.prove('of what a link leads to unless told not to', bool(follow_symlinks) == (follow != 2))
        vc.prove('as it is asked', dir_fd is None and not effective_ids)
        return answer
    vc.stubs[os.access] = acc
    p = vc.obj(AP, 'p', stubs={'as_posix': lambda s: '/the path', '__str__': lambda s: '/the path', '__fspath__': lambda s: '/the path'})
    kw = {} if not follow else {'follow_symlinks': follow == 1}
    r = vc.attempt(AP.access, p, *([] if mode == 'no mode' else [mode]), **kw)
    if mode == 'no mode' or mode in kinds:
        vc.prove('the answer is that of the system', r.ok and r.value is answer)
        vc.cover('asked')
    else:
        vc.prove('other kinds of access are refused', r.raised(TypeError))
        vc.cover('refused')
