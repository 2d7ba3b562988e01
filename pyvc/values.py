"""Symbolic values.  Every value is a proxy over z3 terms; `__class__` reports
the Python class the value stands for, so isinstance() in the code under test
takes the branch it would take in CPython."""
import z3
from datetime import datetime


class EngineExc(BaseException):
    """ never caught by the code under test (handlers are guarded) """


class PathCut(EngineExc):
    """ this path ends here (loop back edge proved, assumption false, ...) """


class Unsupported(EngineExc):
    """ a construct or call outside the verified subset: undecided, never an alarm """


class Restart(EngineExc):
    """ loop abstraction changed: explore again """


CTX = [None]


def ctx():
    return CTX[0]


class Unbound:
    def __repr__(self):
        return '<unbound>'


UNBOUND = Unbound()


def unsup(msg):
    c = CTX[0]
    if c is not None:
        c.dead = c.dead or Unsupported(msg)
    raise Unsupported(msg)


def is_sym(x):
    return isinstance(type(x), type) and issubclass(type(x), Sym)


class Sym:
    """ base of every symbolic proxy """
    _vc_hash = True

    def __hash__(self):
        return id(self)

    def __format__(self, spec):
        unsup('format() of a symbolic value')

    def __str__(self):
        unsup('str() of a symbolic value')

    def __repr__(self):
        return f'<{type(self).__name__}>'

    def __iter__(self):
        unsup(f'iteration over {type(self).__name__}')

    def __len__(self):
        unsup(f'len() of {type(self).__name__}')

    def __index__(self):
        unsup('index of symbolic value')

    def __int__(self):
        unsup('int() of symbolic value')

    def __float__(self):
        unsup('float() of symbolic value')

    def __contains__(self, x):
        unsup(f'in {type(self).__name__}')


class SBool(Sym):
    def __init__(self, t):
        self.t = t

    __class__ = property(lambda self: bool)

    def __bool__(self):
        return ctx().branch(self.t)

    def _as_int(self):
        return SInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o):
        if is_true_bool(o):
            return SBool(self.t == z3.BoolVal(bool(o)))
        if type(o) is SBool:
            return SBool(self.t == o.t)
        if type(o) is SInt or isinstance(o, int):
            return self._as_int() == o
        if type(o) is SOpt:
            return o.__eq__(self)
        return False

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __and__(self, o):
        if isinstance(o, bool):
            return SBool(z3.And(self.t, bt(o)))
        return self._as_int() & o

    def __or__(self, o):
        if isinstance(o, bool):
            return SBool(z3.Or(self.t, bt(o)))
        return self._as_int() | o
    __rand__, __ror__ = __and__, __or__

    def __invert__(self):
        return ~self._as_int()

    def __mul__(self, o):
        return self._as_int() * o
    __rmul__ = __mul__

    def __add__(self, o):
        return self._as_int() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._as_int() - o

    def __lt__(self, o):
        return self._as_int() < o

    def __le__(self, o):
        return self._as_int() <= o

    def __gt__(self, o):
        return self._as_int() > o

    def __ge__(self, o):
        return self._as_int() >= o
    __hash__ = Sym.__hash__


def is_true_bool(o):
    return type(o) is bool


def bt(o):
    """ z3 Bool of a python/symbolic bool """
    if type(o) is SBool:
        return o.t
    if type(o) is bool:
        return z3.BoolVal(o)
    if z3.is_bool(o):
        return o
    if type(o) is SOpt:
        return bt(o._r())
    unsup(f'not a bool {o!r}')


def neg(o):
    if type(o) is SBool:
        return SBool(z3.Not(o.t))
    if o is NotImplemented:
        return o
    return not o


def it(o):
    """ z3 Int of a python/symbolic int """
    if type(o) is SInt:
        return o.t
    if type(o) is SBool:
        return o._as_int().t
    if isinstance(o, int) and not is_sym(o):
        return z3.IntVal(int(o))
    if type(o) is SOpt:
        return it(o._r())
    return None


BITS = 32


class SInt(Sym):
    """ mathematical integer, optionally standing for another ordered class
        (datetime), and optionally known as the value of a bit-vector """

    def __init__(self, t, cls=int, bv=None):
        self.t = t
        self.cls = cls
        self.bv = bv

    @property
    def __class__(self):
        return self.cls

    def __bool__(self):
        if issubclass(self.cls, int):
            return ctx().branch(self.t != 0)
        return True

    def _num(self):
        return issubclass(self.cls, (int, float))

    def _cmp(self, o, f, eq=False):
        if type(o) is SOpt:
            o = o._r()
        if type(o) is SReal:
            return SBool(f(z3.ToReal(self.t), o.t))
        if not self._num():
            if type(o) is SInt and o.cls is self.cls:
                return SBool(f(self.t, o.t))
            if eq:
                return None
            return NotImplemented
        if isinstance(o, float) and not is_sym(o):
            return SBool(f(z3.ToReal(self.t), z3.RealVal(repr(o) if o == o else 0)))
        t = it(o) if (type(o) in (SInt, SBool) and (type(o) is SBool or o._num())) or (
            isinstance(o, int) and not is_sym(o)) else None
        if t is None:
            return None if eq else NotImplemented
        return SBool(f(self.t, t))

    def __eq__(self, o):
        if type(o) is SOpt:
            return o.__eq__(self)
        r = self._cmp(o, lambda a, b: a == b, True)
        return False if r is None else r

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def _ar(self, o, f, swap=False):
        if type(o) is SOpt:
            o = o._r()
        if type(o) is SReal or (isinstance(o, float) and not is_sym(o)):
            return (SReal(z3.ToReal(self.t)) if not swap else SReal(z3.ToReal(self.t)))._ar(o, f, swap)
        t = it(o)
        if t is None or not self._num():
            return NotImplemented
        return SInt(f(t, self.t) if swap else f(self.t, t))

    def __add__(self, o):
        r = self._ar(o, lambda a, b: a + b)
        if type(r) is SInt and self.bv is not None:
            p = self._bvs(o)
            top = lambda b: z3.simplify(z3.Extract(BITS - 1, BITS - 1, b))
            # masked values keep their bits: without the highest one the sum fits
            if p is not None and all(z3.is_bv_value(top(b)) and top(b).as_long() == 0 for b in p):
                return SInt(r.t, bv=z3.simplify(p[0] + p[1]))
        return r

    def __radd__(self, o):
        return self._ar(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._ar(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if self.bv is not None or getattr(o, 'bv', None) is not None:
            b = self._bvs(o)
            if b is not None:
                return self._frombv(b[0] * b[1])
        return self._ar(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if self.bv is not None:
            b = self._bvs(o)
            if b is not None:
                return self._frombv(b[1] * b[0])
        return self._ar(o, lambda a, b: a * b, True)

    def __neg__(self):
        return SInt(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return SInt(z3.If(self.t < 0, -self.t, self.t))

    def _div(self, a, b):
        # python floor division for any sign
        c = ctx()
        c.need(b != 0, ZeroDivisionError('integer division or modulo by zero'))
        q, r = a / b, a % b   # z3: euclidean, r >= 0
        qq = z3.If(z3.And(b < 0, r != 0), q - 1, q)
        rr = z3.If(z3.And(b < 0, r != 0), r + b, r)
        return z3.simplify(qq), z3.simplify(rr)

    def __floordiv__(self, o):
        t = it(o)
        return NotImplemented if t is None else SInt(self._div(self.t, t)[0])

    def __rfloordiv__(self, o):
        t = it(o)
        return NotImplemented if t is None else SInt(self._div(t, self.t)[0])

    def __mod__(self, o):
        t = it(o)
        return NotImplemented if t is None else SInt(self._div(self.t, t)[1])

    def __rmod__(self, o):
        t = it(o)
        return NotImplemented if t is None else SInt(self._div(t, self.t)[1])

    def __divmod__(self, o):
        t = it(o)
        q, r = self._div(self.t, t)
        return SInt(q), SInt(r)

    def __rdivmod__(self, o):
        q, r = self._div(it(o), self.t)
        return SInt(q), SInt(r)

    def __truediv__(self, o):
        return SReal(z3.ToReal(self.t)) / o

    def __rtruediv__(self, o):
        return SReal(z3.ToReal(it(o))) / SReal(z3.ToReal(self.t))

    # bit operations: through a bit-vector view, for values known to fit
    def _bvs(self, o):
        if type(o) is SBool:
            o = o._as_int()
            o = SInt(o.t, bv=z3.If(o.t == 1, z3.BitVecVal(1, BITS), z3.BitVecVal(0, BITS)))
        if isinstance(o, int) and not is_sym(o):
            if not (0 <= int(o) < 2 ** (BITS - 1)):
                return None
            o = SInt(z3.IntVal(int(o)), bv=z3.BitVecVal(int(o), BITS))
        if type(o) is not SInt:
            return None
        a, b = self.bv, o.bv
        if a is None or b is None:
            return None
        return a, b

    @staticmethod
    def _frombv(b):
        b = z3.simplify(b)
        return SInt(z3.BV2Int(b), bv=b)

    def _bit(self, o, f):
        p = self._bvs(o)
        if p is None:
            unsup('bit operation on an unbounded symbolic integer')
        return self._frombv(f(*p))

    def __and__(self, o):
        return self._bit(o, lambda a, b: a & b)

    def __or__(self, o):
        return self._bit(o, lambda a, b: a | b)

    def __xor__(self, o):
        return self._bit(o, lambda a, b: a ^ b)
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __rshift__(self, o):
        return self._bit(o, lambda a, b: z3.LShR(a, b))

    def __lshift__(self, o):
        return self._bit(o, lambda a, b: a << b)

    def __rrshift__(self, o):
        unsup('shift by symbolic')

    def __getattr__(self, name):
        c = ctx()
        if name.startswith('__') or c is None:
            raise AttributeError(name)
        return c.sym_attr(self, name)
    __hash__ = Sym.__hash__


class SReal(Sym):
    """ float treated as a mathematical real (an assumption of the trusted base) """

    def __init__(self, t):
        self.t = t

    __class__ = property(lambda self: float)

    @staticmethod
    def _t(o):
        if type(o) is SReal:
            return o.t
        if type(o) is SInt:
            return z3.ToReal(o.t)
        if isinstance(o, (int, float)) and not is_sym(o):
            from fractions import Fraction
            f = Fraction(o)
            return z3.Q(f.numerator, f.denominator)
        return None

    def _ar(self, o, f, swap=False):
        if type(o) is SOpt:
            o = o._r()
        t = self._t(o)
        if t is None:
            return NotImplemented
        return SReal(f(t, self.t) if swap else f(self.t, t))

    def __add__(self, o): return self._ar(o, lambda a, b: a + b)
    def __radd__(self, o): return self._ar(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._ar(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._ar(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._ar(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._ar(o, lambda a, b: a * b, True)

    def __truediv__(self, o):
        t = self._t(o)
        if t is None:
            return NotImplemented
        ctx().need(t != 0, ZeroDivisionError('division by zero'))
        return SReal(self.t / t)

    def _cmp(self, o, f):
        if type(o) is SOpt:
            o = o._r()
        t = self._t(o)
        if t is None:
            return NotImplemented
        return SBool(f(self.t, t))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o): return neg(self.__eq__(o))
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __abs__(self): return SReal(z3.If(self.t < 0, -self.t, self.t))
    def __neg__(self): return SReal(-self.t)
    def __bool__(self): return ctx().branch(self.t != 0)
    __hash__ = Sym.__hash__


def mixed(a, o):
    """ == between kinds of symbolic values: not known if both can be of the same class """
    if type(o) is SAny and issubclass(a.__class__, o.cls):
        unsup(f'comparison of an opaque value with {type(a).__name__}')
    return False


class SStr(Sym):
    """ a str as a z3 String term """

    def __init__(self, t):
        self.t = t

    __class__ = property(lambda self: str)

    @staticmethod
    def T(o):
        if type(o) is SOpt:
            o = o._r()
        if type(o) is SStr:
            return o.t
        if isinstance(o, str) and not is_sym(o):
            return z3.StringVal(str(o))
        return None

    def __bool__(self):
        return ctx().branch(self.t != z3.StringVal(''))

    def __eq__(self, o):
        if type(o) is SOpt:
            return o.__eq__(self)
        t = self.T(o)
        return mixed(self, o) if t is None else SBool(self.t == t)

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __add__(self, o):
        t = self.T(o)
        return NotImplemented if t is None else SStr(z3.Concat(self.t, t))

    def __radd__(self, o):
        t = self.T(o)
        return NotImplemented if t is None else SStr(z3.Concat(t, self.t))

    def __contains__(self, o):
        t = self.T(o)
        if t is None:
            raise TypeError('in <string> requires string as left operand')
        return ctx().branch(z3.Contains(self.t, t))

    def __lt__(self, o):
        t = self.T(o)
        return NotImplemented if t is None else SBool(self.t < t)

    def __gt__(self, o):
        t = self.T(o)
        return NotImplemented if t is None else SBool(t < self.t)

    def __le__(self, o):
        t = self.T(o)
        return NotImplemented if t is None else SBool(self.t <= t)

    def __ge__(self, o):
        t = self.T(o)
        return NotImplemented if t is None else SBool(t <= self.t)

    def __getattr__(self, name):
        c = ctx()
        if name.startswith('__') or c is None:
            raise AttributeError(name)
        return c.sym_attr(self, name)
    __hash__ = Sym.__hash__


class SOpt(Sym):
    """ None or a value; the case split happens when it is first looked at """

    def __init__(self, isnone, val):
        self.isnone = isnone
        self.val = val

    def _r(self):
        if ctx().branch(self.isnone):
            return None
        return self.val

    @property
    def __class__(self):
        r = self._r()
        return type(None) if r is None else r.__class__

    def __bool__(self):
        r = self._r()
        return bool(r)

    def __eq__(self, o):
        # no case split: equality as a formula where both sides allow it
        if o is None:
            return SBool(self.isnone)
        if type(o) is SOpt:
            e = self.val == o.val
            return SBool(z3.Or(z3.And(self.isnone, o.isnone),
                               z3.And(z3.Not(self.isnone), z3.Not(o.isnone), bt(e))))
        e = self.val == o
        return SBool(z3.And(z3.Not(self.isnone), bt(e)))

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __getattr__(self, name):
        if name.startswith('__') and name not in ('__iter__',):
            r = self._r()
            return getattr(r, name)
        return getattr(self._r(), name)

    def _b(name):
        import operator

        def f(self, o):
            o = o._r() if type(o) is SOpt else o
            return getattr(operator, name)(self._r(), o)
        return f

    def _rb(name):
        import operator

        def f(self, o):
            return getattr(operator, name)(o, self._r())
        return f
    __add__, __radd__ = _b('add'), _rb('add')
    __sub__, __rsub__ = _b('sub'), _rb('sub')
    __mul__, __rmul__ = _b('mul'), _rb('mul')
    __truediv__ = _b('truediv')
    __lt__, __le__, __gt__, __ge__ = _b('lt'), _b('le'), _b('gt'), _b('ge')
    __floordiv__, __mod__ = _b('floordiv'), _b('mod')

    def __iter__(self):
        return iter(self._r())

    def __contains__(self, x):
        return x in self._r()

    def __call__(self, *a, **k):
        return ctx().call(self._r(), *a, **k)

    def __getitem__(self, i):
        return ctx().getitem(self._r(), i)
    __hash__ = Sym.__hash__


class SAny(Sym):
    """ an opaque value of some class, only equality is known """

    def __init__(self, t, cls=object, **attrs):
        self.t = t
        self.cls = cls
        self.attrs = attrs

    @property
    def __class__(self):
        return self.cls

    def __bool__(self):
        tb = self.attrs.get('_truth')
        if tb is None:
            if self.cls is bytes:
                return True     # a digest: never empty
            # nothing else is known of an opaque value, so it can be false as well
            tb = z3.Function('truth_' + self.t.sort().name(), self.t.sort(), z3.BoolSort())(self.t)
        if tb is True:
            return True
        return ctx().branch(tb)

    def __eq__(self, o):
        if type(o) is SOpt:
            return o.__eq__(self)
        if type(o) is SAny and o.t.sort() == self.t.sort():
            return SBool(self.t == o.t)
        if o is None or o is NotImplemented or type(o) is SAny:
            return False
        if is_sym(o):
            if isinstance(o, (str, bytes, int)) and issubclass(o.__class__, self.cls):
                unsup(f'comparison of an opaque value with {type(o).__name__}')
            return False
        if type(o) in (str, bytes, int, float) and isinstance(o, self.cls) and not (self.cls is bytes and o == b''):
            # may well be that constant
            return SBool(self.t == ctx().literal(self.t.sort(), o))
        return False

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __getattr__(self, name):
        if name in self.attrs:
            return self.attrs[name]
        c = ctx()
        if name.startswith('__') or c is None:
            raise AttributeError(name)
        return c.sym_attr(self, name)

    def __iter__(self):
        f = self.attrs.get('_iter')
        if f is None:
            unsup('iteration over an opaque value')
        return f()

    def __len__(self):
        unsup('len of opaque')
    __hash__ = Sym.__hash__
