"""rmdirtree removes exactly the directories that hold nothing but directories."""
from pyvc.api import *
from augpathlib import core as K

ASSUMES = ['walk(top_down=False) yields every directory of the tree once, after all its subdirectories, with its subdirectories '
           '(no links) and its other entries', 'rmdir removes an empty directory or raises; nobody else changes the tree',
           'only the variant for python 3.12 and later can run here']
P = z3.DeclareSort('P')
AR = z3.ArraySort(P, z3.BoolSort())
PAR = z3.Function('par', P, P)
SUB = z3.Function('issub', P, z3.BoolSort())      # a directory of the tree other than its top
FULL = z3.Function('hasfiles', P, z3.BoolSort())
x = z3.Const('x', P)
NONE = z3.K(P, z3.BoolVal(False))


def every(f, *pats):
    return z3.ForAll([x], f, patterns=list(pats)) if pats else z3.ForAll([x], f)


class DSet:
    """ a set of paths """
    _vc_model = True

    def __init__(self, vc, a=None):
        self.vc = vc
        self.g = vc.obj(Ghost, gname(vc, 'set'), A=SAny(NONE if a is None else a, object))

    def _vc_kind(self):
        return ('dset',)

    t = property(lambda s: s.g.A.t)

    def _set(self, t):
        self.g.A = SAny(t, object)

    def add(self, p):
        self._set(z3.Store(self.t, p._t, z3.BoolVal(True)))

    def discard(self, p):
        self._set(z3.Store(self.t, p._t, z3.BoolVal(False)))

    remove = discard

    def __contains__(self, p):
        return self.vc.branch(z3.Select(self.t, p._t))

    def difference_update(self, o):
        self._set(z3.Lambda([x], z3.And(z3.Select(self.t, x), z3.Not(z3.Select(o.t, x)))))

    def update(self, o):
        self._set(z3.Lambda([x], z3.Or(z3.Select(self.t, x), z3.Select(o.t, x))))

    def _vc_len(self):
        unsup('size of the set')

    def __sub__(self, o):
        return DSet(self.vc, z3.Lambda([x], z3.And(z3.Select(self.t, x), z3.Not(z3.Select(o.t, x)))))

    def __or__(self, o):
        return DSet(self.vc, z3.Lambda([x], z3.Or(z3.Select(self.t, x), z3.Select(o.t, x))))

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __ior__(self, o):
        self.update(o)
        return self

    def __and__(self, o):
        return DSet(self.vc, z3.Lambda([x], z3.And(z3.Select(self.t, x), z3.Select(o.t, x))))

    intersection, union, difference = __and__, __or__, __sub__

    def __le__(self, o):
        return self.vc.branch(every(z3.Implies(z3.Select(self.t, x), z3.Select(o.t, x))))

    issubset = __le__

    def isdisjoint(self, o):
        return self.vc.branch(every(z3.Not(z3.And(z3.Select(self.t, x), z3.Select(o.t, x)))))

    def __bool__(self):
        return self.vc.branch(z3.Exists([x], z3.Select(self.t, x)))

    def copy(self):
        return DSet(self.vc, self.t)


class Boom(Exception):
    pass


class World:
    def __init__(self, vc):
        self.vc = vc
        self.g = vc.obj(Ghost, 'walk', V=SAny(NONE, object), R=SAny(NONE, object), G=SAny(NONE, object))
        self.cur = None
        self.failed = False

    V = property(lambda s: s.g.V.t)
    R = property(lambda s: s.g.R.t)

    def path(self, t):
        w = self

        def rmdir(s):
            w.rmdir(s)

        def join(s, o):
            w.vc.prove('names are joined to their own directory', o.of is s)
            return w.path(o._t)
        return w.vc.obj(K.LocalPath, f'path{len(w.vc.objs)}', stubs={
            '_t': Prop(value=t), 'rmdir': rmdir, '__truediv__': join, 'joinpath': join, 'is_symlink': lambda s: False})

    def empty(self, t):
        return z3.And(z3.Not(FULL(t)), every(z3.Implies(z3.And(SUB(x), PAR(x) == t), z3.Select(self.R, x))))

    def rmdir(self, p):
        vc = self.vc
        vc.prove('only a directory that has been listed, once', self.cur is not None and
                 SBool(z3.And(p._t == self.cur._t, z3.Not(z3.Select(self.R, p._t)))))
        vc.prove('only a directory without files whose directories are all gone is removed', SBool(self.empty(p._t)))
        if vc.maybe('rmdir fails'):
            self.failed = True
            raise Boom('injected')
        self.g.R = SAny(z3.Store(self.R, p._t, z3.BoolVal(True)), object)

    def check(self):
        if self.cur is not None:
            t = self.cur._t
            self.vc.prove('a directory without files whose directories are all gone is removed',
                          SBool(z3.Implies(self.empty_before(t), z3.Select(self.R, t))))

    def empty_before(self, t):
        return z3.And(z3.Not(FULL(t)), every(z3.Implies(z3.And(SUB(x), PAR(x) == t), z3.Select(self.R, x))))


class Walk:
    _vc_model = True

    def __init__(self, w):
        self.w = w

    def _vc_iter(self):
        return self

    def end_iteration(self):
        self.w.check()

    def has_next(self):
        return self.w.vc.maybe('another directory')

    def next(self):
        w = self.w
        vc = w.vc
        t = z3.Const(vc._n('dir'), P)
        V = w.V
        vc._assume(z3.Not(z3.Select(V, t)))
        vc._assume(z3.Not(z3.Select(w.R, t)))
        vc._assume(every(z3.Implies(z3.And(SUB(x), PAR(x) == t), z3.And(z3.Select(V, x), x != t))))
        vc._assume(z3.Implies(SUB(t), z3.And(PAR(t) != t, z3.Not(z3.Select(V, PAR(t))))))
        w.g.V = SAny(z3.Store(V, t, z3.BoolVal(True)), object)
        w.cur = w.path(t)
        w.g.G = SAny(NONE, object)
        return (w.cur, Subs(w, w.cur), Files(w, t))


class Files:
    _vc_model = True

    def __init__(self, w, t):
        self.w, self.t = w, t

    def __bool__(self):
        return self.w.vc.branch(FULL(self.t))

    def _vc_len(self):
        n = self.w.vc.int('files', 0)
        self.w.vc._assume((n.t > 0) == FULL(self.t))
        return n


class Subs:
    _vc_model = True
    _vc_oncelist = True

    def _vc_map(self, kind, f):
        """ a comprehension: what it makes of one entry, whichever it is """
        vc = self.w.vc
        t = z3.Const(vc._n('some'), P)
        vc._assume(z3.And(SUB(t), PAR(t) == self.p._t))
        n = Name()
        n._t, n.of = t, self.p
        cs = vc.cases(lambda: list(f(n)))
        return Mapped(self, kind, t, cs)._made()

    def __init__(self, w, p):
        self.w, self.p = w, p

    def _vc_iter(self):
        self.w.g.G = SAny(NONE, object)
        return self

    def __bool__(self):
        return self.w.vc.branch(z3.Exists([x], z3.And(SUB(x), PAR(x) == self.p._t)))

    def has_next(self):
        vc, w = self.w.vc, self.w
        more = vc.maybe('another subdirectory')
        if not more:
            vc._assume(every(z3.Implies(z3.And(SUB(x), PAR(x) == self.p._t), z3.Select(w.g.G.t, x))))
        return more

    def next(self):
        vc, w = self.w.vc, self.w
        t = z3.Const(vc._n('sub'), P)
        vc._assume(z3.And(SUB(t), PAR(t) == self.p._t, z3.Not(z3.Select(w.g.G.t, t))))
        w.g.G = SAny(z3.Store(w.g.G.t, t, z3.BoolVal(True)), object)
        n = Name()
        n._t, n.of = t, self.p
        return n


class Mapped:
    _vc_model = True

    def __init__(self, subs, kind, t, cs):
        self.subs, self.kind, self.t, self.cs = subs, kind, t, cs

    def _made(self):
        return self._vc_set() if self.kind == 'set' else self

    def at(self, c):
        return z3.substitute(c, (self.t, x))

    def some(self, val):
        """ there is an element for which val(outcome) """
        outs = [z3.And(c, val(v[0])) for c, v in self.cs if v]
        if any(len(v) > 1 for _, v in self.cs):
            unsup('what is made of the subdirectories')
        return self.at(z3.And(SUB(self.t), PAR(self.t) == self.subs.p._t, z3.Or(outs) if outs else z3.BoolVal(False)))

    def _vc_set(self):
        def val(v):
            if not (isinstance(v, SObj) and v._t.eq(self.t)):
                unsup('a set of something else')
            return z3.BoolVal(True)
        return DSet(self.subs.w.vc, z3.Lambda([x], self.some(val)))

    def _vc_list(self):
        return self

    def __bool__(self):
        if self.kind == 'gen':
            return True
        return self.subs.w.vc.branch(z3.Exists([x], self.some(lambda v: z3.BoolVal(True))))

    def _vc_any(self):
        return self.subs.w.vc.branch(z3.Exists([x], self.some(bt)))

    def _vc_all(self):
        return not self.subs.w.vc.branch(z3.Exists([x], self.some(lambda v: z3.Not(bt(v)))))


class Name:
    """ a name in a listing: any text """
    _vc_model = True

    def _q(self, what):
        d = self.__dict__.setdefault('_known', {})
        if what not in d:
            d[what] = CTX[0].maybe(f'a name: {what}')
        return d[what]

    def startswith(self, x):
        return self._q(('startswith', x))

    def endswith(self, x):
        return self._q(('endswith', x))

    def __contains__(self, x):
        return self._q(('contains', x))

    def __eq__(self, o):
        return self is o or isinstance(o, str) and o not in ('', '.', '..') and '/' not in o and self._q(('is', o))
    __hash__ = object.__hash__


@contract('rmdirtree', max_paths=20000)
def rmdirtree(vc):
    vc.cut_loops = True
    w = World(vc)
    sets = []

    def mkset(*a):
        if a and type(a[0]) in (DSet, Mapped):
            return a[0].copy() if type(a[0]) is DSet else a[0]._vc_set()
        if a:
            unsup('set of something')
        s = DSet(vc)
        sets.append(s)
        return s
    vc.modules['augpathlib.core'] = {'set': model(mkset)}

    def cands(vc, lid, env):
        S, V, R, G = z3.Select, w.V, w.R, w.g.G.t
        out = [('removed were visited', every(z3.Implies(S(R, x), S(V, x))))]
        T = w.cur._t if w.cur is not None else None
        for n, s in env.items():
            if type(s) is not DSet:
                continue
            A = s.t
            out.append((f'{n} knows which are gone', every(z3.Implies(
                z3.And(S(V, x), SUB(x), z3.Not(S(V, PAR(x)))), S(A, x) == S(R, x)))))
            out.append((f'{n} were visited', every(z3.Implies(S(A, x), S(V, x)))))
            if T is not None:
                out.append((f'{n} are entries', every(z3.Implies(S(A, x), z3.And(SUB(x), PAR(x) == T)))))
                out.append((f'{n} has all so far', every(z3.Implies(S(G, x), S(A, x)))))
                out.append((f'{n} knows which entries are gone', every(z3.Implies(
                    z3.And(SUB(x), PAR(x) == T), S(A, x) == S(R, x)))))
        if T is not None:
            out.append(('so far are gone', every(z3.Implies(S(G, x), S(R, x)))))
            out.append(('so far are entries', every(z3.Implies(S(G, x), z3.And(SUB(x), PAR(x) == T)))))
            for n, v in env.items():
                if type(v) in (SBool, bool):
                    out.append((f'{n} tells', bt(v) == z3.Not(every(z3.Implies(S(G, x), S(R, x))))))
                    out.append((f'not {n}', z3.Not(bt(v))))
        return out
    vc.candidates = cands
    vc.kind_makers = dict(getattr(vc, 'kind_makers', None) or {})
    vc.kind_makers['dset'] = lambda vc, k, nm, cur: DSet(vc, z3.Const(vc._n(nm), AR))
    link = vc.bool('a link')

    def walk(s, top_down=True, **k):
        vc.prove('from the bottom, without following links', top_down is False and not k.get('follow_symlinks'))
        return Walk(w)
    p = vc.obj(K.LocalPath, 'p', stubs={'is_symlink': lambda s: link, 'walk': walk})
    r = vc.attempt(K.AugmentedPath.rmdirtree, p)
    if bool(link):
        vc.prove('a link is refused', r.raised(NotADirectoryError))
        return
    vc.prove('a failure is raised, and nothing else', r.raised(Boom) if w.failed else r.ok)
    vc.cover('done')
