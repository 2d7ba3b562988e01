"""A list of any length of which one element, at an arbitrary index, is looked at;
the others are fresh every time they are met."""
import z3
from .values import *
from .streams import Ghost


class SymList(Sym):
    """ concrete elements `pre`, then n elements of which that at index j is `at`
        (j < n) and any other is what `other()` makes """

    def __init__(self, vc, n, j, at, other, pre=(), once=False, kind=list):
        self.vc, self.n, self.j, self.at, self.other = vc, n, j, at, other
        self._vc_prefix = list(pre)
        self.once, self.used, self.kind = once, False, kind

    __class__ = property(lambda self: self.kind)

    def _one(self):
        if self.once:
            if self.used:
                unsup('a generator run twice')
            self.used = True

    def _vc_iter(self):
        self._one()
        return SymIter(self)

    def _vc_map(self, kind, f):
        if kind not in ('gen', 'list'):
            unsup('what is made of a list of any length')
        self._one()

        def one(x):
            out = f(x)
            if len(out) != 1:
                unsup('elements of a list of any length left out')
            return out[0]
        pre = [y for x in self._vc_prefix for y in f(x)]
        return SymList(self.vc, self.n, self.j, one(self.at), lambda: one(self.other()), pre, kind == 'gen')

    def _as(self, kind):
        self._one()
        return SymList(self.vc, self.n, self.j, self.at, self.other, self._vc_prefix, False, kind)

    def _vc_list(self):
        return self._as(list)

    def _vc_tuple(self):
        return self._as(tuple)

    def __bool__(self):
        return True if self._vc_prefix or self.once else ctx().branch(self.n > 0)

    def _vc_len(self):
        return SInt(z3.simplify(self.n + len(self._vc_prefix)))

    def __radd__(self, o):
        if not isinstance(o, (list, tuple)) or is_sym(o) or not isinstance(o, self.kind):
            return NotImplemented
        return SymList(self.vc, self.n, self.j, self.at, self.other, list(o) + self._vc_prefix, False, self.kind)

    def __getitem__(self, i):
        if is_sym(i) or not isinstance(i, int) or not 0 <= i < len(self._vc_prefix):
            unsup('item of a list of any length')
        return self._vc_prefix[i]

    def _u(self, *a, **k):
        unsup('operation on a list of any length')
    __contains__ = __eq__ = __add__ = append = extend = pop = sort = insert = __setitem__ = __iter__ = _u
    __hash__ = Sym.__hash__


class SymIter:
    _vc_model = True

    def __init__(self, l):
        self.l, vc = l, l.vc
        n = sum(1 for o in vc.objs if object.__getattribute__(o, '_vc_name').startswith('each'))
        self.g = vc.obj(Ghost, f'each{n}', i=SInt(z3.IntVal(0)), stop=SInt(l.n), mark=SInt(l.j))

    def has_next(self):
        return self.l.vc.branch(self.g.i.t < self.l.n)

    def next(self):
        i = self.g.i.t
        self.g.i = SInt(z3.simplify(i + 1))
        return self.l.at if self.l.vc.branch(i == self.l.j) else self.l.other()


class SymStack(Sym):
    """ a list that held n elements, any n, at the start: those still there are
        its base without `removed` (at most one index), then `top` """

    def __init__(self, vc, n, elem, kind=list):
        self.vc, self.n, self.elem, self.kind = vc, n, elem, kind
        self.memo, self.removed, self.top = [], [], []

    __class__ = property(lambda self: self.kind)

    def copy(self, kind=list):
        c = SymStack(self.vc, self.n, self.elem, kind)
        c.memo, c.removed, c.top = self.memo, list(self.removed), list(self.top)
        return c
    copy._vc_stub = True

    _vc_list = lambda self: self.copy()
    _vc_tuple = lambda self: self.copy(tuple)

    def at(self, i):
        """ the element of the base at index i """
        i = z3.simplify(i)
        for t, x in self.memo:
            if t.eq(i) or self.vc.valid(SBool(t == i)):
                return x
        for t, x in self.memo:
            if self.vc.branch(t == i):
                return x
        self.memo.append((i, self.elem(i)))
        return self.memo[-1][1]

    def length(self):
        return z3.simplify(self.n + len(self.top) - len(self.removed))

    def _vc_len(self):
        return SInt(self.length())

    def __bool__(self):
        return bool(self.top) or self.vc.branch(self.length() > 0)

    def _where(self, i, what):
        """ ('top', k) or ('base', index term) """
        if isinstance(i, slice):
            unsup('slice of a list of any length')
        if not is_sym(i) and -len(self.top) <= i < 0:
            return 'top', len(self.top) + i
        t = it(i)
        if self.vc.branch(t < 0):
            t = t + self.length()
        if not self.vc.branch(z3.And(0 <= t, t < self.length())):
            raise IndexError(f'{what} index out of range')
        for k in range(len(self.top)):
            if self.vc.branch(t == self.length() - len(self.top) + k):
                return 'top', k
        for r in self.removed:
            if self.vc.branch(t >= r):
                t = t + 1
        return 'base', z3.simplify(t)

    def __getitem__(self, i):
        w, k = self._where(i, 'list')
        return self.top[k] if w == 'top' else self.at(k)

    def pop(self, i=-1):
        if not is_sym(i) and i == -1 and not self:
            raise IndexError('pop from empty list')
        w, k = self._where(i, 'pop')
        if w == 'top':
            return self.top.pop(k)
        if self.removed:
            unsup('more than one element taken out of a list of any length')
        self.removed.append(k)
        return self.at(k)
    pop._vc_stub = True

    def __delitem__(self, i):
        self.pop(i)

    def remove(self, x):
        for t, y in self.memo:
            if y is x:
                # it may be there before as well
                k = self.vc.int('first', 0)
                self.vc.assume(SBool(k.t <= t))
                if self.removed:
                    unsup('more than one element taken out of a list of any length')
                self.removed.append(k.t)
                return
        unsup('remove')
    remove._vc_stub = True

    def append(self, x):
        self.top.append(x)
    append._vc_stub = True

    def insert(self, i, x):
        if len(self.removed) == 1 and x is self.at(self.removed[0]):
            t = it(i)
            if self.vc.branch(t < 0):
                t = t + self.length()
            if self.vc.branch(t == self.removed[0]):
                self.removed.clear()
                return
        unsup('insert into a list of any length')
    insert._vc_stub = True

    def __add__(self, o):
        if not isinstance(o, self.kind) or is_sym(o):
            return NotImplemented
        c = self.copy(self.kind)
        c.top.extend(o)
        return c

    def __iadd__(self, o):
        self.top.extend(o)
        return self

    def extend(self, o):
        self.top.extend(o)
    extend._vc_stub = True

    def _vc_reversed(self):
        return ['<the stack>']

    def same(self, o, top=(), removed=None):
        """ the elements of o, then those in top, without that of o's base at index `removed` """
        if type(o) is not SymStack or self.memo is not o.memo or len(self.removed) != (0 if removed is None else 1) or \
                len(self.top) != len(top) or not all(a is b for a, b in zip(self.top, top)):
            return False
        return SBool(self.removed[0] == removed) if removed is not None else True

    def _u(self, *a, **k):
        unsup('operation on a list of any length')
    __contains__ = __eq__ = sort = clear = index = count = reverse = __setitem__ = __iter__ = _u
    __hash__ = Sym.__hash__
