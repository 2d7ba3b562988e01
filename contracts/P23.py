"""Extended attributes: what is stored is read back, only absence is reported as absence."""
import errno
from pyvc.api import *
import xattr
from augpathlib import core as K
from augpathlib import caches as C
from augpathlib import exceptions as exc

ASSUMES = ['the functions of the xattr module do what the kernel does: set stores, get and get_all read, remove removes the attribute '
           'of that name and namespace of the file at that path, or raise an OSError with its errno and change nothing']
HX = type(K.LocalPath('x'))


class W:
    """ one file and what is asked of the xattr module about it """

    def __init__(self, vc):
        self.vc = vc
        self.cached = vc.maybe('a cache')
        self.posix = textmod.text(vc, 'posix', nonempty=True)
        cls = type(C.EatCache('x')) if False else HX
        self.p = vc.obj(cls, 'p', stubs={'as_posix': lambda s: self.posix, '__str__': lambda s: self.posix,
                                         '__fspath__': lambda s: self.posix})
        self.calls = []
        self.raised = None
        self.no = None
        self.given = vc.maybe('a namespace is given')
        self.ns = vc.any('namespace', bytes) if self.given else xattr.NS_USER
        for n in ('get', 'set', 'remove', 'get_all'):
            vc.stubs[getattr(xattr, n)] = self.stub(n)

    def kw(self):
        return {'namespace': self.ns} if self.given else {}

    def same(self, a, b):
        return a is b or (type(a) is type(b) is bytes and a == b)

    def stub(self, n):
        def f(item, *a, nofollow=False, namespace=None, **k):
            vc = self.vc
            vc.prove('asked of the file at this path', item is self.posix or item is self.p)
            vc.prove('in the namespace given, user by default', self.same(namespace, self.ns))
            vc.prove('links are followed, nothing else is asked', Not(nofollow) and not k)
            self.calls.append((n,) + a)
            if vc.maybe(f'{n} fails'):
                self.no = vc.int('errno', 1, 133)
                # python picks the class by errno
                if n == 'get_all' or vc.maybe('file not found'):
                    if vc.branch((self.no == errno.ENOENT).t):
                        e = FileNotFoundError('injected')
                    else:
                        e = OSError('injected')
                else:
                    vc._assume((self.no != errno.ENOENT).t)
                    e = OSError('injected')
                e.errno = self.no
                self.raised = e
                raise e
            return self.answer(n, *a)
        return f

    def answer(self, n, *a):
        if n == 'get':
            self.value = self.vc.any('value', bytes)
            return self.value
        if n == 'get_all':
            k = self.vc.choose(3, 'attributes')
            self.all = [(self.vc.any(f'key{i}', bytes), self.vc.any(f'value{i}', bytes)) for i in range(k)]
            return list(self.all)


def absent(w):
    return w.no == errno.ENODATA


@contract('getxattr')
def getxattr(vc):
    w = W(vc)
    key = vc.any('key', bytes)
    r = vc.attempt(K.XattrHelper.getxattr, w.p, key, **w.kw())
    vc.prove('the attribute of that name is read once', len(w.calls) == 1 and w.calls[0] == ('get', key))
    if w.raised is None:
        vc.prove('the value is what is stored', r.ok and r.value is w.value)
        vc.cover('value')
    else:
        vc.prove('a failure is never an answer', not r.ok)
        if r.raised(exc.NoStreamError):
            vc.prove('only what means that there is no such attribute is reported as no attribute', absent(w))
            vc.cover('none')
        else:
            vc.prove('no attribute is reported as such', Not(absent(w)))
            vc.prove('any other failure is raised as it is', r.exc is w.raised)
            vc.cover('failed')


@contract('setxattr')
def setxattr(vc):
    w = W(vc)
    key = vc.any('key', bytes)
    isbytes = vc.maybe('bytes')
    v = vc.any('value', bytes) if isbytes else (vc.any('value', str), 1, None, ['x'], bytearray(b'x'))[vc.choose(5, 'value')]
    r = vc.attempt(K.XattrHelper.setxattr, w.p, key, v, **w.kw())
    if not isbytes:
        vc.prove('what is not bytes is refused and nothing is stored', r.raised(TypeError) and not w.calls)
        return
    vc.prove('stored under that name once', len(w.calls) == 1 and w.calls[0][:2] == ('set', key) and w.calls[0][2] is v and len(w.calls[0]) == 3)
    vc.prove('a failure is raised as it is', r.ok if w.raised is None else r.exc is w.raised)
    vc.cover('stored')


@contract('delxattr')
def delxattr(vc):
    w = W(vc)
    key = vc.any('key', bytes)
    fail = vc.bool('fail')
    how = vc.choose(2, 'fail given')
    r = vc.attempt(K.XattrHelper.delxattr, w.p, key, **w.kw(), **({'fail': fail} if how else {}))
    vc.prove('the attribute of that name is removed once', len(w.calls) == 1 and w.calls[0] == ('remove', key))
    if w.raised is None:
        vc.prove('removed', r.ok)
        vc.cover('removed')
    elif r.ok:
        vc.prove('only the absence of the attribute is no failure, unless asked to fail',
                 And(w.no == errno.ENODATA, Not(fail) if how else True))
        vc.cover('was not there')
    else:
        vc.prove('a failure is raised as it is', r.exc is w.raised)
        vc.prove('the absence of the attribute is no failure, unless asked to fail',
                 Not(And(w.no == errno.ENODATA, Not(fail) if how else True)))
        vc.cover('failed')


@contract('xattrs')
def xattrs(vc):
    w = W(vc)
    r = vc.attempt(K.XattrHelper.xattrs, w.p, **w.kw())
    vc.prove('all attributes are read once', w.calls == [('get_all',)])
    if w.raised is None:
        vc.prove('listed', r.ok)
        if len(w.all) == 2:
            vc._assume(w.all[0][0].t != w.all[1][0].t)
        d = r.value
        vc.prove('every attribute of the namespace with its value, nothing else', len(d) == len(w.all) and
                 all(d.get(k) is v for k, v in w.all))
        vc.cover('listed')
    else:
        vc.prove('a failure is never an answer', not r.ok)
        missing = isinstance(w.raised, FileNotFoundError)
        vc.prove('a missing file is reported as such, any other failure is raised as it is',
                 r.exc is w.raised or (missing and r.raised(FileNotFoundError)))
        vc.cover('failed')


class Items:
    _vc_oncelist = True
    """ the items of a dictionary of any size """
    _vc_model = True

    def __init__(self, vc):
        self.vc = vc
        self.cur = None

    def items(self):
        return self

    def _vc_iter(self):
        return self

    def has_next(self):
        return self.vc.maybe('another attribute')

    def next(self):
        self.cur = (self.vc.any('key', bytes), self.vc.any('value', bytes))
        self.n = 0
        return self.cur

    def end_iteration(self):
        self.vc.prove('every attribute is stored, once', self.n == 1)


@contract('setxattrs')
def setxattrs(vc):
    w = W(vc)
    d = Items(vc)
    boom = OSError('injected')
    failed = []

    def one(s, k, v, namespace=xattr.NS_USER):
        vc.prove('stored under its own name with its own value', d.cur is not None and k is d.cur[0] and v is d.cur[1])
        vc.prove('in the namespace given', w.same(namespace, w.ns))
        d.n += 1
        if vc.maybe('fails'):
            failed.append(1)
            raise boom
    vc.class_stubs[K.XattrHelper, 'setxattr'] = one
    r = vc.attempt(K.XattrHelper.setxattrs, w.p, d, **w.kw())
    vc.prove('a failure is raised as it is', r.exc is boom if failed else r.ok)
    vc.cover('failed' if failed else 'stored')
