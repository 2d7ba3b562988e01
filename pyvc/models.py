"""Assumed contracts on what lies below the repository: builtins, str/bytes
methods, the standard library functions the code calls.  These are the trusted
base; each use is recorded in Result.assumed and cross-checked against CPython
by the harnesses."""
import builtins
import logging
import os
import string
import types
import functools
import inspect
import z3
from .values import *
from .values import UNBOUND
from .loops import OnceList
from .objects import (SObj, BoundM, BoundStub, SuperM, Prop, VList, VDict, VSet, MISSING,
                      attrs_of, bind)

PURE = set()


def install(vc):
    vc.builtin_models = dict(BUILTINS)
    vc.method_models = dict(METHODS)
    vc.kind_makers = {}
    from . import streams
    streams.install(vc)


def syms_in(args, kw):
    todo = list(args) + list(kw.values())
    n = 0
    while todo and n < 2000:
        n += 1
        x = todo.pop()
        if is_sym(x) or type(x) in (SObj, BoundM, BoundStub, SuperM) or getattr(type(x), '_vc_model', False):
            return True
        if type(x) in (list, tuple, set, frozenset, VList, VSet):
            todo.extend(x)
        elif type(x) in (dict, VDict):
            todo.extend(x.values())
            todo.extend(x.keys())
    return False


def fname(f):
    return getattr(f, '__qualname__', None) or getattr(f, '__name__', None) or repr(f)


NATIVE_OK_TYPES = (int, float, str, bytes, bool, type(None))


def call(vc, f, args, kw):
    vc.guard()
    if vc.depth > 60:
        unsup('call depth')
    # unwrap
    if type(f) is SOpt:
        f = f._r()
        if f is None:
            raise TypeError("'NoneType' object is not callable")
    if type(f) is BoundStub:
        return f.stub(f.obj, *args, **kw)
    if type(f) is BoundM:
        return call(vc, f.func, (f.obj, *args), kw)
    if isinstance(f, types.MethodType):
        return call(vc, f.__func__, (f.__self__, *args), kw)
    # contract given for this callable?
    st = None
    try:
        st = vc.stubs.get(f)
    except TypeError:
        st = None
    if st is not None:
        return st(*args, **kw)
    if getattr(f, '_vc_stub', False):
        return f(*args, **kw)
    if isinstance(f, functools.partial):
        return call(vc, f.func, (*f.args, *args), {**f.keywords, **kw})
    if isinstance(f, types.FunctionType):
        if f.__globals__.get('__vc') is vc:
            # nested function / lambda of transformed code
            vc.depth += 1
            try:
                return f(*args, **kw)
            finally:
                vc.depth -= 1
        if vc.repo_function(f):
            vc.res.functions.add(f'{f.__module__}.{f.__qualname__}')
            g = vc.transformed(f)
            vc.depth += 1
            try:
                return g(*args, **kw)
            finally:
                vc.depth -= 1
        m = FUNCS.get((f.__module__, f.__qualname__))
        if m is not None:
            vc.res.assumed.add(f'{f.__module__}.{f.__qualname__}')
            return m(vc, *args, **kw)
        if not syms_in(args, kw) and (f.__module__ in PURE_MODULES):
            vc.res.assumed.add(f'{f.__module__}.{f.__qualname__}')
            return f(*args, **kw)
        if f.__module__ and f.__module__.startswith(('contracts', 'pyvc')):
            return f(*args, **kw)
        unsup(f'call of {f.__module__}.{f.__qualname__} (no contract)')
    if isinstance(f, type):
        return call_class(vc, f, args, kw)
    if type(f) is SObj:
        return call(vc, getattr(f, '__call__'), args, kw)
    if getattr(type(f), '_vc_model', False):
        return f(*args, **kw)
    # builtin functions and methods
    slf = getattr(f, '__self__', None)
    if isinstance(f, (types.BuiltinFunctionType, types.BuiltinMethodType)) or isinstance(
            f, (types.MethodWrapperType,)):
        if isinstance(slf, logging.Logger):
            return None
        if slf is None or isinstance(slf, types.ModuleType):
            m = vc.builtin_models.get(f)
            if m is not None:
                if f not in TRIVIAL:
                    vc.res.assumed.add(f'{fname(f)}')
                return m(vc, *args, **kw)
            if not syms_in(args, kw) and (getattr(f, '__module__', None) in PURE_MODULES):
                return f(*args, **kw)
            unsup(f'builtin {fname(f)}')
        return bound_builtin(vc, f, slf, f.__name__, args, kw)
    if isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType)):
        slf = args[0]
        nm = f.__name__
        if type(slf) is SObj:
            # unmodelled builtin method of an object
            if nm == '__init__' and f.__objclass__ is object:
                return None
            unsup(f'{f.__qualname__} on an object')
        return bound_builtin(vc, getattr(slf, nm), slf, nm, args[1:], kw)
    if isinstance(f, types.MethodType):
        return call(vc, f.__func__, (f.__self__, *args), kw)
    m = getattr(f, '__call__', None)
    if isinstance(f, (staticmethod, classmethod)):
        return call(vc, f.__func__, args, kw)
    if isinstance(f, logging.Logger):
        return None
    for k in type(f).__mro__:
        if '__call__' in k.__dict__ and vc.repo_function(k.__dict__['__call__']):
            return call(vc, k.__dict__['__call__'], (f, *args), kw)
    if f is None or type(f) in (str, bytes, int, float, bool, tuple, list, dict, set):
        raise TypeError(f'{type(f).__name__!r} object is not callable')
    unsup(f'call of {f!r}')


def call_class(vc, c, args, kw):
    m = vc.class_models.get(c)
    if m is not None:
        return m(*args, **kw)
    m = CLASSES.get(c)
    if m is not None:
        return m(vc, *args, **kw)
    if issubclass(c, BaseException):
        return c(*args, **kw)
    if c.__module__.startswith('augpathlib'):
        return instantiate(vc, c, args, kw)
    if not syms_in(args, kw) and c.__module__ in PURE_MODULES:
        vc.res.assumed.add(f'{c.__module__}.{c.__qualname__}')
        return c(*args, **kw)
    if getattr(c, '_vc_model', False):
        return c(*args, **kw)
    unsup(f'construction of {c.__module__}.{c.__qualname__}')


def instantiate(vc, c, args, kw):
    new = None
    init = None
    for k in c.__mro__:
        if new is None and '__new__' in k.__dict__:
            new = k.__dict__['__new__']
        if init is None and '__init__' in k.__dict__:
            init = k.__dict__['__init__']
    if isinstance(new, staticmethod):
        new = new.__func__
    if new is not object.__new__ and isinstance(new, types.FunctionType):
        st = vc.stubs.get(new)
        if st is None:
            unsup(f'{c.__name__}.__new__')
        return st(c, *args, **kw)
    o = vc.obj(c, f'{c.__name__}@{len(vc.objs)}')
    if isinstance(init, types.FunctionType):
        vc.call(init, o, *args, **kw)
    return o


# ------------------------------------------------------------------ containers
NATIVE_CONTAINER = {
    list: {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'copy', 'index', 'count',
           '__contains__', '__len__', '__iter__', '__getitem__', '__add__'},
    tuple: {'index', 'count', '__contains__', '__len__', '__iter__', '__add__'},
    dict: {'get', 'items', 'keys', 'values', 'pop', 'update', 'copy', 'clear', 'setdefault', 'popitem',
           '__contains__', '__len__', '__iter__', '__getitem__', 'fromkeys'},
    set: {'add', 'discard', 'remove', 'pop', 'clear', 'update', 'difference_update', 'union', 'copy',
          'intersection', 'difference', '__contains__', 'issubset', 'issuperset'},
    frozenset: {'union', 'intersection', 'difference', 'copy', '__contains__'},
}


def bound_builtin(vc, f, slf, name, args, kw):
    if isinstance(slf, logging.Logger):
        return None
    if type(slf) in (VDict, dict, VSet, set) and name in ('get', 'pop', '__contains__', 'setdefault', 'add', 'discard',
                                                        'remove', 'difference_update', 'update', '__getitem__') and (
            syms_in(args, {}) or syms_in((list(slf),), {})):
        m = hashed_op(vc, slf, name, args, kw)
        if m is not NotImplemented:
            return m
    for t, names in NATIVE_CONTAINER.items():
        if isinstance(slf, t) and not is_sym(slf):
            if name in names:
                return f(*args, **kw)
            if name == 'sort' or name == '__iter__':
                return f(*args, **kw)
    if isinstance(slf, types.GeneratorType):
        return f(*args, **kw)
    if isinstance(slf, (str, bytes, int, float)) and not is_sym(slf):
        if args and isinstance(args[0], types.GeneratorType):
            args = ([x for x in args[0]], *args[1:])
        if not syms_in(args, kw):
            return f(*args, **kw)
        m = vc.method_models.get((str if isinstance(slf, str) else bytes if isinstance(slf, bytes) else int, name))
        if m is not None:
            vc.res.assumed.add(f'{type(slf).__name__}.{name}')
            return m(vc, slf, *args, **kw)
        unsup(f'{type(slf).__name__}.{name} with symbolic arguments')
    if isinstance(slf, type):
        if not syms_in(args, kw) and slf in (bytes, int, dict, str, float):
            return f(*args, **kw)
        m = vc.method_models.get((slf, name))
        if m is not None:
            return m(vc, *args, **kw)
        unsup(f'{slf.__name__}.{name} with symbolic arguments')
    if type(slf).__module__.startswith(('contracts', 'pyvc')):
        return f(*args, **kw)
    if isinstance(slf, BaseException):
        return f(*args, **kw)
    if not syms_in(args, kw) and type(slf).__module__ in PURE_MODULES:
        return f(*args, **kw)
    unsup(f'method {type(slf).__name__}.{name}')


def find_key(vc, d, k):
    """ the key of d equal to k (hash lookup on symbolic keys: by equality) """
    for x in list(d):
        if x is k:
            return x
        e = x == k
        if bool(e):
            return x
    return MISSING


def hashed_op(vc, d, name, args, kw):
    if name == 'update' or name == 'difference_update':
        if isinstance(d, set):
            for x in list(args[0]):
                k = find_key(vc, d, x)
                if name == 'update' and k is MISSING:
                    d.add(x)
                elif name == 'difference_update' and k is not MISSING:
                    d.discard(k)
            return None
        return NotImplemented
    k = find_key(vc, d, args[0])
    if name == '__contains__':
        return k is not MISSING
    if isinstance(d, set):
        if name == 'add':
            if k is MISSING:
                d.add(args[0])
            return None
        if name == 'discard':
            if k is not MISSING:
                d.discard(k)
            return None
        if name == 'remove':
            if k is MISSING:
                raise KeyError(args[0])
            d.discard(k)
            return None
        return NotImplemented
    if name == 'get':
        return dict.__getitem__(d, k) if k is not MISSING else (args[1] if len(args) > 1 else kw.get('default'))
    if name == '__getitem__':
        if k is MISSING:
            raise KeyError(args[0])
        return dict.__getitem__(d, k)
    if name == 'pop':
        if k is MISSING:
            if len(args) > 1:
                return args[1]
            raise KeyError(args[0])
        return d.pop(k)
    if name == 'setdefault':
        if k is MISSING:
            d[args[0]] = args[1]
            return args[1]
        return dict.__getitem__(d, k)
    return NotImplemented


def getitem(vc, a, i):
    if type(a) is SOpt:
        a = a._r()
    if isinstance(a, type):
        return a[i]     # generics
    if isinstance(i, slice) and not is_sym(a) and isinstance(a, (str, bytes, list, tuple)):
        if any(is_sym(x) for x in (i.start, i.stop, i.step)):
            m = vc.method_models.get((type(a), '__getitem__'))
            if m is not None:
                return m(vc, a, i)
            unsup('symbolic slice of concrete sequence')
        return a[i]
    g = getattr(type(a), '__getitem__', None)
    if is_sym(a) or getattr(type(a), '_vc_model', False):
        if g is not None:
            return a[i]
        m = vc.sym_attrs.get((getattr(a, '__class__', None), '__getitem__'))
        if m is not None:
            return m(a)(i)
        unsup(f'subscript of {type(a).__name__}')
    if type(a) is SObj:
        r = a._vc_special('__getitem__', i)
        if r is MISSING:
            unsup('subscript of object')
        return r
    if isinstance(a, dict):
        if syms_in((i,), {}) or syms_in((list(a),), {}):
            k = find_key(vc, a, i)
            if k is MISSING:
                raise KeyError(i)
            return dict.__getitem__(a, k)
        return a[i]
    if is_sym(i):
        if isinstance(a, (list, tuple)) and type(i) in (SInt, SBool):
            t = it(i)
            n = len(a)
            for j in range(n):
                if vc.branch(z3.Or(t == j, t == j - n)):
                    return a[j]
            raise IndexError(f'{type(a).__name__} index out of range')
        unsup('symbolic index')
    return a[i]


# ------------------------------------------------------------------ builtins
def m_isinstance(vc, x, c):
    return isinstance(x, c)


def m_len(vc, x):
    if type(x) is SOpt:
        x = x._r()
    f = getattr(type(x), '_vc_len', None)
    if f is not None:
        return f(x)
    if is_sym(x):
        if type(x) is SStr:
            return SInt(z3.Length(x.t))
        unsup(f'len of {type(x).__name__}')
    if type(x) is SObj:
        r = x._vc_special('__len__')
        if r is MISSING:
            raise TypeError('object has no len()')
        return r
    return len(x)


def m_getattr(vc, o, name, *d):
    if is_sym(name):
        unsup('getattr with symbolic name')
    if type(o) is SOpt:
        o = o._r()
    try:
        return vc.attr(o, name, True)
    except AttributeError:
        if d:
            return d[0]
        raise


def m_hasattr(vc, o, name):
    if type(o) is SOpt:
        o = o._r()
    if name == '__iter__':
        if is_sym(o):
            c = o.__class__
            return hasattr(c, '__iter__') if type(o) is not SAny else o.attrs.get('_hasiter', hasattr(c, '__iter__'))
    try:
        vc.attr(o, name, True)
        return True
    except AttributeError:
        return False


def m_setattr(vc, o, name, v):
    if type(o) is not SObj and not getattr(type(o), '_vc_model', False):
        unsup('setattr on a real object')
    setattr(o, name, v)


def m_delattr(vc, o, name):
    delattr(o, name)


def m_type(vc, *a, **k):
    if len(a) == 1:
        x = a[0]
        if type(x) is SOpt:
            x = x._r()
        return x.__class__ if (is_sym(x) or type(x) is SObj) else (
            list if type(x) is VList else dict if type(x) is VDict else set if type(x) is VSet else type(x))
    m = vc.class_models.get(type)
    if m is not None:
        return m(*a, **k)
    unsup('dynamic class creation')


def m_int(vc, x=0, base=None):
    if type(x) is SOpt:
        x = x._r()
    if type(x) is SInt:
        return SInt(x.t, bv=x.bv)
    if type(x) is SBool:
        return x._as_int()
    if type(x) is SReal:
        f = z3.ToInt(x.t)
        return SInt(z3.If(z3.And(x.t < 0, z3.ToReal(f) != x.t), f + 1, f))
    m = vc.sym_attrs.get((getattr(x, '__class__', None), '__int__'))
    if m is not None and is_sym(x):
        return m(x) if base is None else m(x, base)
    if is_sym(x):
        unsup('int() of symbolic text')
    return int(x) if base is None else int(x, base)


def m_str(vc, *a):
    if not a:
        return ''
    x = a[0]
    if type(x) is SOpt:
        x = x._r()
    if type(x) is SStr or getattr(type(x), '_vc_text', False):
        return x
    if is_sym(x) or type(x) is SObj:
        for c in x.__class__.__mro__:
            m = vc.sym_attrs.get((c, '__str__'))
            if m is not None:
                return m(x)
            if '__str__' in c.__dict__:
                f = c.__dict__['__str__']
                if is_sym(x) and vc.repo_function(f):
                    return vc.call(f, x)
                break
    if type(x) is SObj:
        r = x._vc_special('__str__')
        if r is not MISSING:
            return r
        unsup('str() of object')
    if is_sym(x):
        unsup(f'str() of {type(x).__name__}')
    if len(a) > 1:
        return str(*a)
    if isinstance(x, (str, int, float, type(None), bool)):
        return str(x)
    if isinstance(x, type) or isinstance(x, BaseException):
        return str(x)
    return str(x)


def m_bool(vc, x=False):
    return bool(x)


def m_tuple(vc, x=()):
    if type(x) is SOpt:
        x = x._r()
    f = getattr(type(x), '_vc_tuple', None)
    if f is not None:
        return f(x)
    if getattr(type(x), '_vc_oncelist', False):
        return OnceList(vc, x)
    if is_sym(x):
        unsup('tuple() of symbolic')
    return tuple(x)


def m_list(vc, x=()):
    f = getattr(type(x), '_vc_list', None)
    if f is not None:
        return f(x)
    if getattr(type(x), '_vc_oncelist', False):
        return OnceList(vc, x)
    if is_sym(x):
        unsup('list() of symbolic')
    return VList(x)


def m_dict(vc, *a, **k):
    f = getattr(type(a[0]), '_vc_dict', None) if a else None
    if f is not None:
        return f(a[0], **k)
    return VDict(*a, **k)


def m_set(vc, x=()):
    f = getattr(type(x), '_vc_set', None)
    if f is not None:
        return f(x)
    out = VSet()
    for e in x:
        bound_builtin(vc, out.add, out, 'add', (e,), {})
    return out


def m_next(vc, g, *d):
    if type(g) is SOpt:
        g = g._r()
    n = getattr(type(g), '_vc_next', None)
    if n is not None:
        try:
            return n(g)
        except StopIteration:
            if d:
                return d[0]
            raise
    if is_sym(g):
        unsup('next of symbolic')
    try:
        return next(g)
    except StopIteration:
        if d:
            return d[0]
        raise


class CallIter:
    """ iter(f, sentinel) """
    _vc_model = True

    def __init__(self, vc, f, sentinel):
        self.vc, self.f, self.sentinel = vc, f, sentinel
        self.v = None

    def _vc_iter(self):
        return self

    def has_next(self):
        self.v = self.vc.call(self.f)
        return not bool(self.v == self.sentinel)

    def next(self):
        return self.v

    def _vc_next(self):
        if not self.has_next():
            raise StopIteration
        return self.v


def m_iter(vc, x, *sentinel):
    if sentinel:
        return CallIter(vc, x, sentinel[0])
    if hasattr(type(x), '_vc_iter'):
        return x
    return iter(x)


def m_any(vc, x):
    f = getattr(type(x), '_vc_any', None)
    if f is not None:
        return f(x)
    for e in x:
        if e:
            return True
    return False


def m_all(vc, x):
    f = getattr(type(x), '_vc_all', None)
    if f is not None:
        return f(x)
    for e in x:
        if not e:
            return False
    return True


def m_minmax(f):
    def g(vc, *a, key=None, default=MISSING):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if key is not None:
            if not syms_in(xs, {}):
                return f(xs, key=key)
            unsup('min/max key')
        if not xs:
            if default is not MISSING:
                return default
            raise ValueError('empty sequence')
        best = xs[0]
        for x in xs[1:]:
            c = (x < best) if f is min else (x > best)
            if c if isinstance(c, bool) and not is_sym(c) else bool(c):
                best = x
        return best
    return g


def m_sorted(vc, xs, key=None, reverse=False):
    xs = list(xs)
    if key is not None and (syms_in(xs, {}) or True):
        ks = [vc.call(key, x) for x in xs]
    else:
        ks = xs
    # stable insertion sort by branching comparisons
    idx = []
    for i in range(len(xs)):
        j = len(idx)
        while j > 0 and (bool(ks[i] < ks[idx[j - 1]]) if not reverse else bool(ks[idx[j - 1]] < ks[i])):
            j -= 1
        idx.insert(j, i)
    return VList([xs[i] for i in idx])


def m_abs(vc, x):
    return abs(x)


def m_sum(vc, xs, start=0):
    for x in xs:
        start = start + x
    return start


def m_divmod(vc, a, b):
    return (a // b, a % b)


def m_range(vc, *a):
    if any(is_sym(x) for x in a):
        from .streams import SRange
        return SRange(vc, *a)
    return range(*a)


def m_zip(vc, *a, **k):
    return zip(*a, **k)


def m_enumerate(vc, x, start=0):
    if hasattr(type(x), '_vc_iter'):
        unsup('enumerate of symbolic iterable')
    return enumerate(x, start)


def m_reversed(vc, x):
    f = getattr(type(x), '_vc_reversed', None)
    if f is not None:
        return f(x)
    if is_sym(x):
        unsup('reversed')
    return reversed(x)


def m_noop(vc, *a, **k):
    return None


def m_breakpoint(vc, *a, **k):
    return None     # a debugging aid: assumed to return


def m_callable(vc, x):
    return callable(x)


def m_repr(vc, x):
    if type(x) is SObj or is_sym(x):
        return vc.str('repr')
    return repr(x)


def m_fspath(vc, x):
    if type(x) is SObj:
        return call(vc, getattr(x, '__fspath__'), (), {})
    if type(x) is SStr or type(x) in (str, bytes) or getattr(type(x), '_vc_model', False) and hasattr(type(x), '__fspath__'):
        return x if not hasattr(type(x), '__fspath__') else x.__fspath__()
    unsup('fspath()')


def m_fsdecode(vc, x):
    # what the system gave as text is text already
    return x if type(x) in (SStr, str) else unsup('fsdecode()')


def m_hash(vc, x):
    unsup('hash()')


def m_id(vc, x):
    unsup('id()')


def m_map(vc, f, *its):
    g = getattr(type(its[0]), '_vc_map', None)
    if g is not None and len(its) == 1:
        return g(its[0], 'gen', lambda x: [vc.call(f, x)])
    return VList([vc.call(f, *x) for x in zip(*its)])


def m_filter(vc, f, xs):
    g = getattr(type(xs), '_vc_map', None)
    if g is not None:
        return g(xs, 'gen', lambda x: [x] if (vc.call(f, x) if f is not None else x) else [])
    return VList([x for x in xs if (vc.call(f, x) if f is not None else x)])


def m_issubclass(vc, a, b):
    return issubclass(a, b)


def m_round(vc, x, n=None):
    if is_sym(x):
        unsup('round')
    return round(x, n) if n is not None else round(x)


BUILTINS = {
    os.strerror: lambda vc, n: os.strerror(n),
    isinstance: m_isinstance, len: m_len, getattr: m_getattr, hasattr: m_hasattr,
    setattr: m_setattr, delattr: m_delattr, next: m_next, iter: m_iter, any: m_any, all: m_all,
    min: m_minmax(min), max: m_minmax(max), sorted: m_sorted, abs: m_abs, sum: m_sum,
    divmod: m_divmod, print: m_noop, breakpoint: m_breakpoint, callable: m_callable, repr: m_repr,
    hash: m_hash, id: m_id, issubclass: m_issubclass, round: m_round, os.fspath: m_fspath,
}
TRIVIAL = {isinstance, getattr, hasattr, setattr, delattr, print, callable, len, any, all, next}

CLASSES = {
    type: m_type, int: m_int, str: m_str, bool: m_bool, tuple: m_tuple, list: m_list, dict: m_dict,
    set: m_set, frozenset: m_set, range: m_range, zip: m_zip, enumerate: m_enumerate, reversed: m_reversed,
    map: m_map, filter: m_filter,
}

PURE_MODULES = {'builtins', 'itertools', 'operator', 'functools', 'datetime', 'math', 'urllib.parse', 'collections'}


def m_float(vc, x=0.0):
    if type(x) is SOpt:
        x = x._r()
    if type(x) is SInt:
        return SReal(z3.ToReal(x.t))
    if type(x) is SReal:
        return x
    m = vc.sym_attrs.get((getattr(x, '__class__', None), '__float__'))
    if m is not None and is_sym(x):
        return m(x)
    if is_sym(x):
        unsup('float() of symbolic text')
    return float(x)


CLASSES[float] = m_float


def m_object(vc, *a):
    return object()


CLASSES[object] = m_object
CLASSES[functools.partial] = lambda vc, f, *a, **k: functools.partial(f, *a, **k)
CLASSES[slice] = lambda vc, *a: slice(*a)

FUNCS = {}      # (module, qualname) -> model
FUNCS['os', 'fsdecode'] = m_fsdecode
FUNCS['os', '_fscodec.<locals>.fsdecode'] = m_fsdecode
METHODS = {}    # (type, name) -> model for const receivers with symbolic args


def m_warn(vc, *a, **k):
    return None


FUNCS['logging', 'Logger.debug'] = m_noop
for _n in ('info', 'warning', 'error', 'critical', 'exception', 'log', 'setLevel', 'getChild'):
    FUNCS['logging', f'Logger.{_n}'] = m_noop


def chain_model(vc, *its):
    if any(hasattr(type(x), '_vc_iter') for x in its):
        from .loops import Chain
        if type(its[-1]).__name__ == 'SymList':
            return [y for x in its[:-1] for y in x] + its[-1]._as(list)
        if any(hasattr(type(x), '_vc_iter') for x in its[:-1]):
            unsup('chain of symbolic iterables')
        return Chain(vc, [y for x in its[:-1] for y in x], its[-1])
    import itertools
    return itertools.chain(*its)


import itertools as _it
CLASSES[_it.chain] = chain_model


# ------------------------------------------------------------------ strings
def int_repr(vc, i):
    from . import text
    if hasattr(vc, 'texts'):
        return text.dec_text(vc, i)
    unsup('repr of symbolic int')


def own_str(v):
    """ how a model prints itself, if the contract says so """
    if type(v) is SObj:
        return v._vc_stubs.get('__str__')
    f = type(v).__dict__.get('__str__')
    return f if f is not None and not is_sym(v) else None


def fstr(vc, parts):
    """ an f-string: concatenation of its parts' text """
    conc = []
    sym = False
    for p in parts:
        if isinstance(p, str):
            conc.append(p)
            continue
        v, conv, spec = p
        if type(v) is SOpt:
            v = v._r()
        if is_sym(v) or type(v) is SObj or getattr(type(v), '_vc_model', False):
            sym = True
            if conv == -1 and spec is None:
                try:
                    m = vc.sym_attrs.get((getattr(v, '__class__', None), '__str__'))
                    if type(v) is SStr or getattr(type(v), '_vc_text', False):
                        conc.append(v)
                    elif m is not None:
                        conc.append(m(v))
                    elif own_str(v) is not None:
                        conc.append(own_str(v)(v))
                    else:
                        conc.append(vc.str('fmt'))
                except Unsupported:
                    vc.dead = None
                    conc.append(vc.str('fmt'))
            elif conv == -1 and (float, '__format__') in vc.method_models:
                conc.append(vc.method_models[float, '__format__'](vc, v, spec))
            else:
                conc.append(vc.str('fmt'))
        else:
            if syms_in((v,), {}):
                sym = True
                conc.append(vc.str('fmt'))
                continue
            try:
                if conv == 114:
                    v = repr(v)
                elif conv == 115:
                    v = str(v)
                elif conv == 97:
                    v = ascii(v)
                conc.append(format(v, spec or ''))
            except EngineExc:
                vc.dead = None
                sym = True
                conc.append(vc.str('fmt'))
    out = ''
    if any(getattr(type(c), '_vc_text', False) for c in conc):
        from . import text
        conc = [text.text(vc, 'fmt') if type(c) is SStr else c for c in conc]
    for c in conc:
        if type(out) is str and out == '':
            out = c
        else:
            out = out + c
    return out


def percent(vc, fmt, vals):
    f = vc.method_models.get((str, '%'))
    if f is not None:
        return f(vc, fmt, vals)
    return vc.str('fmt')


def m_join(vc, sep, xs):
    f = getattr(type(xs), '_vc_join', None)
    if f is not None:
        return f(xs, sep)
    xs = list(xs)
    out = None
    for x in xs:
        if SStr.T(x) is None:
            raise TypeError('sequence item: expected str instance')
        out = x if out is None else out + sep + x
    return '' if out is None else out


def m_startswith(vc, s, p):
    if isinstance(p, tuple):
        unsup('startswith tuple')
    return SBool(z3.PrefixOf(SStr.T(p), SStr.T(s)))


def m_endswith(vc, s, p):
    return SBool(z3.SuffixOf(SStr.T(p), SStr.T(s)))


METHODS[str, 'join'] = m_join
METHODS[str, 'startswith'] = m_startswith
METHODS[str, 'endswith'] = m_endswith


def m_format(vc, s, *a, **k):
    """ text put into a plain pattern is exactly that; anything else is some text """
    from .text import SText
    if is_sym(s):
        return vc.str('fmt')
    if all(type(x) in (str, int) for x in (*a, *k.values())):
        return s.format(*a, **k)
    out, n = SText.of(''), 0
    for lit, name, spec, conv in string.Formatter().parse(s):
        out = out + SText.of(lit)
        if name is None:
            continue
        if spec or conv:
            return vc.str('fmt')
        if name == '':
            name, n = str(n), n + 1
        x = a[int(name)] if name.isdigit() and int(name) < len(a) else k.get(name)
        x = SText.of(x) if x is not None else None
        if x is None:
            return vc.str('fmt')
        out = out + x
    return out


METHODS[str, 'format'] = m_format


def sym_attr(vc, v, name):
    """ attribute of a symbolic scalar: methods of its class """
    cls = v.__class__
    for c in cls.__mro__:
        h = vc.sym_attrs.get((c, name))
        if h is not None:
            return h(v)
    if cls is str:
        if name == 'startswith':
            return model(lambda p: m_startswith(vc, v, p))
        if name == 'endswith':
            return model(lambda p: m_endswith(vc, v, p))
        if name == 'join':
            return model(lambda xs: m_join(vc, v, xs))
        if name == 'format':
            return model(lambda *a, **k: vc.str('fmt'))
    if not hasattr(cls, name):
        raise AttributeError(f"'{cls.__name__}' object has no attribute '{name}'")
    # property / method defined in the repository on a subclass of a builtin
    for c in cls.__mro__:
        if name in c.__dict__:
            sv = c.__dict__[name]
            if isinstance(sv, property) and vc.repo_function(sv.fget):
                return vc.call(sv.fget, v)
            if vc.repo_function(sv):
                return BoundM(vc, sv, v, name)
            break
    unsup(f'{cls.__name__}.{name}')


def model(f):
    f._vc_stub = True
    return f


def dict_view(o):
    """ o.__dict__ : instance attributes (those whose presence is conditional
        are decided here) """
    at = attrs_of(o)
    for k in list(at):
        getattr(o, k, None)
    return VDict(at)


# ------------------------------------------------------------------ comprehensions
def comp(vc, kind, it, f):
    if type(it) is SOpt:
        it = it._r()
    m = getattr(type(it), '_vc_map', None)
    if m is not None:
        return m(it, kind, f)

    if kind == 'gen':
        def gen():
            for x in it:
                vc.guard()
                for y in f(x):
                    yield y
        return gen()
    out = []
    for x in it:
        vc.guard()
        out.extend(f(x))
    if kind == 'list':
        return VList(out)
    if kind == 'set':
        return m_set(vc, out)
    d = VDict()
    for k, v in out:
        if is_sym(k):
            kk = find_key(vc, d, k)
            if kk is not MISSING:
                k = kk
        d[k] = v
    return d
