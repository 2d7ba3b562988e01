"""Heap objects: instances of the real classes with symbolic attributes."""
import types
import z3
from .values import *
from .values import CTX

_og = object.__getattribute__
_os = object.__setattr__
MISSING = object()


class Prop:
    """ contract for an attribute: value, or get(obj) / set(obj, v) """

    def __init__(self, get=None, set=None, value=MISSING, delete=None):
        self.get, self.set, self.value, self.delete = get, set, value, delete


class Absent:
    """ an instance attribute that exists only when cond holds """

    def __init__(self, cond, val):
        self.cond, self.val = cond, val


class BoundM:
    def __init__(self, vc, func, obj, name=None):
        self.vc, self.func, self.obj, self.name = vc, func, obj, name

    __self__ = property(lambda s: s.obj)
    __func__ = property(lambda s: s.func)

    def __call__(self, *a, **k):
        return self.vc.call(self.func, self.obj, *a, **k)

    def __repr__(self):
        return f'<bound {getattr(self.func, "__qualname__", self.func)}>'


class BoundStub:
    def __init__(self, vc, stub, obj, name):
        self.vc, self.stub, self.obj, self.name = vc, stub, obj, name

    __self__ = property(lambda s: s.obj)

    def __call__(self, *a, **k):
        self.vc.guard()
        return self.stub(self.obj, *a, **k)


class SuperM:
    def __init__(self, vc, cls, obj):
        self.vc, self.cls, self.obj = vc, cls, obj

    def __getattribute__(self, name):
        if name in ('vc', 'cls', 'obj', '__class__'):
            return _og(self, name)
        vc, obj = self.vc, self.obj
        if type(obj) is SObj:
            real = _og(obj, '_vc_cls')
        elif is_sym(obj):
            real = obj.__class__
        else:
            real = obj
        mro = list(real.__mro__)
        i = mro.index(self.cls)
        for c in mro[i + 1:]:
            st = vc.class_stubs.get((c, name))
            if st is not None:
                if isinstance(st, Prop):
                    return st.value if st.value is not MISSING else st.get(obj)
                return BoundStub(vc, st, obj, name)
            if is_sym(obj) and (c, name) in vc.sym_attrs:
                return vc.sym_attrs[c, name](obj)
            if name in c.__dict__:
                v = c.__dict__[name]
                if isinstance(obj, type) and isinstance(v, (types.FunctionType, types.WrapperDescriptorType, types.MethodDescriptorType)):
                    return v        # found in a class: not bound
                return bind(vc, v, obj, real, name)
        raise AttributeError(f"'super' object has no attribute '{name}'")


def bind(vc, v, obj, cls, name):
    if isinstance(v, property):
        if v.fget is None:
            raise AttributeError(name)
        return vc.call(v.fget, obj)
    if isinstance(v, classmethod):
        return BoundM(vc, v.__func__, cls, name)
    if isinstance(v, staticmethod):
        return v.__func__
    if isinstance(v, types.FunctionType):
        if type(obj) is SObj or not isinstance(obj, type):
            return BoundM(vc, v, obj, name)
        return BoundM(vc, v, obj, name)
    if isinstance(v, (types.MethodDescriptorType, types.WrapperDescriptorType)):
        return BoundM(vc, v, obj, name)
    if type(v) in (list, dict, set):
        return vc.attr_shadow(cls, name, v)
    if hasattr(type(v), '__get__') and not isinstance(v, type):
        unsup(f'descriptor {name} on {cls.__name__}')
    return v


class SObj:
    """ attribute access follows the real class's MRO: contracts first, then
        instance attributes, then the real functions and properties """

    def __init__(self, vc, cls, name, attrs, stubs, ident):
        _os(self, '_vc', vc)
        _os(self, '_vc_cls', cls)
        _os(self, '_vc_name', name)
        _os(self, '_vc_attrs', dict(attrs))
        _os(self, '_vc_stubs', dict(stubs))
        _os(self, '_vc_ident', ident)
        vc.objs.append(self)

    def __getattribute__(self, name):
        if name.startswith('_vc'):
            return _og(self, name)
        if name == '__class__':
            return _og(self, '_vc_cls')
        vc = _og(self, '_vc')
        attrs = _og(self, '_vc_attrs')
        if name == '__dict__':
            from .models import dict_view
            return dict_view(self)
        st = _og(self, '_vc_stubs').get(name)
        cls = _og(self, '_vc_cls')
        if st is None:
            for c in cls.__mro__:
                st = vc.class_stubs.get((c, name))
                if st is not None:
                    break
                if name in c.__dict__:
                    break
        if st is not None:
            if isinstance(st, Prop):
                if st.value is not MISSING:
                    return st.value
                if st.get is not None:
                    return st.get(self)
            else:
                return BoundStub(vc, st, self, name)
        sv = MISSING
        for c in cls.__mro__:
            if name in c.__dict__:
                sv = c.__dict__[name]
                break
        if isinstance(sv, property):
            return bind(vc, sv, self, cls, name)
        if name in attrs:
            v = attrs[name]
            if type(v) is Absent:
                if vc.branch(v.cond):
                    attrs[name] = v.val
                    return v.val
                del attrs[name]
            else:
                return v
        if sv is not MISSING:
            return bind(vc, sv, self, cls, name)
        raise AttributeError(f"'{cls.__name__}' object has no attribute '{name}'")

    def __setattr__(self, name, v):
        vc = _og(self, '_vc')
        vc.guard()
        st = _og(self, '_vc_stubs').get(name)
        cls = _og(self, '_vc_cls')
        if st is None:
            for c in cls.__mro__:
                st = vc.class_stubs.get((c, name))
                if st is not None or name in c.__dict__:
                    break
        if isinstance(st, Prop):
            if st.set is not None:
                return st.set(self, v)
            if st.get is not None or st.value is not MISSING:
                raise AttributeError(f"property '{name}' of '{cls.__name__}' object has no setter")
        for c in cls.__mro__:
            if name in c.__dict__:
                sv = c.__dict__[name]
                if isinstance(sv, property):
                    if sv.fset is None:
                        raise AttributeError(f"property '{name}' of '{cls.__name__}' object has no setter")
                    vc.call(sv.fset, self, v)
                    return
                break
        vc.note_write(self, name)
        _og(self, '_vc_attrs')[name] = v

    def __delattr__(self, name):
        vc = _og(self, '_vc')
        vc.guard()
        attrs = _og(self, '_vc_attrs')
        if name in attrs and type(attrs[name]) is Absent:
            getattr(self, name, None)
        if name not in attrs:
            raise AttributeError(name)
        vc.note_write(self, name)
        del attrs[name]

    def __call__(self, *a, **k):
        vc = _og(self, '_vc')
        return vc.call(getattr(self, '__call__'), *a, **k)

    def _special(self, name, *a):
        vc = _og(self, '_vc')
        cls = _og(self, '_vc_cls')
        st = _og(self, '_vc_stubs').get(name)
        if st is not None:
            return st(self, *a)
        for c in cls.__mro__:
            if (c, name) in vc.class_stubs:
                return vc.class_stubs[c, name](self, *a)
            if name in c.__dict__:
                f = c.__dict__[name]
                if vc.repo_function(f):
                    return vc.call(f, self, *a)
                return MISSING
        return MISSING

    def __bool__(self):
        r = self._vc_special('__bool__')
        if r is not MISSING:
            return bool(r)
        return True

    def __eq__(self, o):
        if self is o:
            return True
        if type(o) is SOpt:
            return o.__eq__(self)
        r = self._vc_special('__eq__', o)
        if r is not MISSING:
            return r
        i = _og(self, '_vc_ident')
        if type(o) is SObj:
            r = o._vc_special('__eq__', self)
            if r is not MISSING:
                return r
            j = _og(o, '_vc_ident')
            if i is not None and j is not None and i.sort() == j.sort():
                return SBool(i == j)
        elif i is not None and o is not None and not is_sym(o):
            h = _og(self, '_vc').eq_const if hasattr(_og(self, '_vc'), 'eq_const') else None
            if h is not None:
                return h(self, o)
        return False

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __hash__(self):
        return id(self)

    def __truediv__(self, o):
        r = self._vc_special('__truediv__', o)
        if r is MISSING:
            unsup(f'/ on {_og(self, "_vc_cls").__name__}')
        return r

    def __rtruediv__(self, o):
        r = self._vc_special('__rtruediv__', o)
        if r is MISSING:
            return NotImplemented
        return r

    def __iter__(self):
        r = self._vc_special('__iter__')
        if r is MISSING:
            unsup(f'iteration over {_og(self, "_vc_cls").__name__}')
        return iter(r)

    def __contains__(self, o):
        r = self._vc_special('__contains__', o)
        if r is MISSING:
            unsup('in SObj')
        return bool(r)

    def __format__(self, spec):
        unsup('format of object')

    def __instancecheck__(self, x):
        r = self._vc_special('__instancecheck__', x)
        if r is MISSING:
            unsup('isinstance of an object')
        return bool(r)

    def __lt__(self, o):
        r = self._vc_special('__lt__', o)
        return NotImplemented if r is MISSING else r

    def __gt__(self, o):
        r = self._vc_special('__gt__', o)
        return NotImplemented if r is MISSING else r

    def __le__(self, o):
        r = self._vc_special('__le__', o)
        return NotImplemented if r is MISSING else r

    def __ge__(self, o):
        r = self._vc_special('__ge__', o)
        return NotImplemented if r is MISSING else r

    def __repr__(self):
        return f'<obj {_og(self, "_vc_name")}>'


SObj._vc_special = SObj._special
del SObj._special


def attrs_of(o):
    return _og(o, '_vc_attrs')


class VList(list):
    """ a list the code made; mutations are seen by cut loops """

    def _w(name):
        orig = getattr(list, name)

        def f(self, *a, **k):
            c = CTX[0]
            if c is not None:
                c.guard()
                c.note_write(self, None)
            return orig(self, *a, **k)
        f.__name__ = name
        return f
    for _n in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse',
               '__setitem__', '__delitem__', '__iadd__', '__imul__'):
        locals()[_n] = _w(_n)
    __hash__ = None


class VDict(dict):
    def _w(name):
        orig = getattr(dict, name)

        def f(self, *a, **k):
            c = CTX[0]
            if c is not None:
                c.guard()
                c.note_write(self, None)
            return orig(self, *a, **k)
        f.__name__ = name
        return f
    for _n in ('__setitem__', '__delitem__', 'update', 'pop', 'popitem', 'clear', 'setdefault'):
        locals()[_n] = _w(_n)


class VSet(set):
    def _w(name):
        orig = getattr(set, name)

        def f(self, *a, **k):
            c = CTX[0]
            if c is not None:
                c.guard()
                c.note_write(self, None)
            return orig(self, *a, **k)
        f.__name__ = name
        return f
    for _n in ('add', 'discard', 'remove', 'pop', 'clear', 'update', 'difference_update'):
        locals()[_n] = _w(_n)
