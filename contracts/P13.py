"""Recursive removal: refuses dangerous paths, stays inside the tree, reports failures."""
import pathlib
import sys
from pyvc.api import *
from augpathlib import core as K
from augpathlib import caches as C
from augpathlib import repo as R
from augpathlib import exceptions as exc

ASSUMES = ['iterdir yields the entries of the directory, each once', 'rmdir removes only an empty directory, unlink only the path itself',
           'removal of a subdirectory satisfies the same contract (induction on the depth of the tree)',
           'nobody replaces a directory by a symlink while it is being removed']


class Boom(Exception):
    pass


class Entries:
    _vc_oncelist = True
    """ any number of entries; what happened to each is checked before the next """
    _vc_model = True

    def __init__(self, vc, w):
        self.vc, self.w = vc, w

    def _vc_iter(self):
        return self

    def end_iteration(self):
        self.w.check()

    def has_next(self):
        return self.vc.maybe('another entry')

    def next(self):
        return self.w.new_entry()


class W:
    pass


def setup(vc):
    w = W()
    cached = vc.maybe('a cache')
    cls = C.EatCache if cached else K.LocalPath
    w.vc = vc
    w.entry, w.failure, w.removed, w.calls = None, None, [], []
    w.abs = vc.bool('absolute')
    n = vc.int('parts', 0)
    w.n, w.home, w.cwd = n, vc.bool("'home' in the path"), vc.bool('is the current directory')
    w.isdir, w.islink = vc.bool('directory'), vc.bool('symlink')
    w.ignore, w.onerror = vc.bool('ignore_errors'), vc.maybe('onerror given')
    w.dz = (False, True, None, 1, 'yes')[vc.choose(5, 'DANGERZONE')]
    w.flags = {}
    w.reports = []
    w.listed = []
    cwd = vc.obj(pathlib.Path, 'cwd')
    vc.stubs[pathlib.Path.cwd.__func__] = lambda *a: cwd
    vc.stubs[pathlib.Path.cwd] = lambda *a: cwd
    parts = vc.obj(Ghost, 'parts', stubs={'__len__': lambda s: n, '__contains__': lambda s, x: w.home if x == 'home' else False})

    def fails(what, obj):
        k = vc.choose(3, what + ': ok, OSError, other')
        if k:
            w.failure = (OSError('injected'), Boom('injected'))[k - 1]
            w.failed_at = (what, obj)
            raise w.failure

    def check():
        e = w.entry
        if e is None:
            return
        vc.prove('each entry is dealt with once: a link is unlinked, anything else removed with the same options',
                 len(e.done) == 1 and (e.done[0] == 'unlink' if e.link else e.done[0] == 'rmtree' or Not(e.isdir)))
    w.check = check

    def new_entry():
        e = W()
        e.done = []
        e.link = bool(vc.bool('entry is a link'))
        isdir = e.isdir = vc.bool('entry is a directory')

        def unlink(s, *a, **k):
            vc.prove('unlink never of a directory', Or(e.link, Not(e.isdir)))
            e.done.append('unlink')
            fails('unlink', o)

        def rmtree(s, ignore_errors=False, onerror=None, DANGERZONE=False):
            vc.prove('no removal through a link', not e.link)
            vc.prove('with the same options', And(Iff(ignore_errors, w.ignore), onerror is w.handler, DANGERZONE is w.dz or
                                                  (DANGERZONE is True) == (w.dz is True)))
            e.done.append('rmtree')
            k = vc.choose(3, 'entry: removed, refused, failed')
            if k == 1:
                w.failure = exc.WillNotRemovePathError('injected')
                raise w.failure
            if k == 2 and not w.ignore and w.handler is None:
                w.failure = OSError('injected')
                w.failed_at = ('rmtree', o)
                raise w.failure

        def rmdir(s):
            vc.prove('rmdir only of what is not a link', False)
        o = vc.obj(K.LocalPath, 'entry', stubs={'is_symlink': lambda s: e.link, 'is_dir': lambda s: isdir, 'unlink': unlink,
                                        'rmtree': rmtree, 'rmdir': rmdir})
        w.entry = e
        e.o = o
        w.any = True
        return o
    w.new_entry = new_entry
    w.any = False

    def iterdir(s):
        w.listed.append(s)
        vc.prove('only the directory itself is listed, and not through a link', s is w.listable and bool(And(w.isdir, Not(w.islink))))
        fails('iterdir', w.p)
        return Entries(vc, w)

    def unlink(s, *a, **k):
        w.removed.append('unlink')
        vc.prove('nothing is removed when it is refused', allowed(w))
        vc.prove('a directory is not unlinked', Not(And(w.isdir, True)))
        fails('unlink', w.p)

    def rmdir(s):
        check()
        w.removed.append('rmdir')
        vc.prove('nothing is removed when it is refused', allowed(w))
        vc.prove('only a directory is, after its entries', And(w.isdir, Not(w.islink), len(w.listed) == 1))
        fails('rmdir', w.p)
    w.p = vc.obj(cls, 'p', stubs={
        'is_absolute': lambda s: w.abs, 'parts': Prop(value=parts), '__eq__': lambda s, o: w.cwd if o is cwd else s is o,
        'is_dir': lambda s: w.isdir, 'is_symlink': lambda s: w.islink, 'iterdir': iterdir, 'unlink': unlink, 'rmdir': rmdir})
    w.listable = w.p
    if cached:
        w.listable = vc.obj(K.LocalPath, 'local', stubs={'iterdir': iterdir})
        w.p._vc_stubs['local'] = Prop(value=w.listable)
        del w.p._vc_stubs['iterdir']
    w.handler = None
    if w.onerror:
        def handler(func, path, info):
            w.reports.append((func, path, info))
        w.handler = model(handler)
    w.info = (1, 2, 3)
    vc.stubs[sys.exc_info] = lambda: w.info
    return w


def allowed(w):
    return And(w.abs, Or(w.dz is True, Not(Or(w.n <= 2, And(w.n <= 3, w.home), w.cwd))))


@contract('rmtree', max_paths=20000)
def rmtree(vc):
    w = setup(vc)
    vc.cut_loops = True
    kw = {}
    if w.onerror:
        kw['onerror'] = w.handler
    if w.dz is not False or not vc.maybe('DANGERZONE not said'):
        kw['DANGERZONE'] = w.dz
    r = vc.attempt(K.AugmentedPath.rmtree, w.p, ignore_errors=w.ignore, **kw)
    ok = allowed(w)
    link = And(w.isdir, w.islink)
    refused = r.raised(exc.WillNotRemovePathError)
    nested = isinstance(w.failure, exc.WillNotRemovePathError)
    vc.prove('dangerous paths are refused, and only those', Iff(refused, Or(Not(ok), nested)))
    if not bool(ok):
        vc.prove('nothing is removed when it is refused', not w.removed and not w.listed and not w.reports)
        vc.cover('refused')
        return
    if nested:
        vc.prove('a refusal inside the tree is always raised', refused)
        return
    if bool(link):
        vc.prove('a link to a directory is not removed', not w.removed and not w.listed)
        failed = ('link', w.p)
    elif w.failure is not None:
        failed = w.failed_at
    else:
        failed = None
        vc.prove('no error', r.ok and not w.reports)
        vc.prove('the path itself is removed, once', Or(And(Not(w.isdir), w.removed == ['unlink']),
                                                        And(w.isdir, w.removed == ['rmdir'])))
        vc.cover('removed')
        return
    if bool(w.ignore):
        vc.prove('errors are ignored', r.ok and not w.reports)
    elif w.onerror:
        vc.prove('the error is reported once, with what failed', r.ok and len(w.reports) == 1 and w.reports[0][1] is failed[1] and
                 w.reports[0][2] is w.info)
        f = getattr(w.reports[0][0], 'name', None) or getattr(w.reports[0][0], '__name__', '')
        vc.prove('and the function that failed', Or(failed[0] not in ('unlink', 'rmdir'), f == failed[0]))
    else:
        vc.prove('the error is raised', r.exc is w.failure if w.failure is not None else r.raised(OSError))
    vc.cover('failed')


@contract('rmtree of a repository')
def repo(vc):
    known = vc.maybe('the repository is open')
    log = []
    st = {'known': known}
    g = vc.obj(Ghost, 'repo', stubs={'close': lambda s: log.append('close')})

    def pop(s, k, *d):
        vc.prove('the open repository looked for is that of the path', k is p)
        if not st['known']:
            if d:
                return d[0]
            raise KeyError(k)
        log.append('forget')
        st['known'] = False
        return g

    def item(s, k):
        if k is not p or not st['known']:
            raise KeyError(k)
        return g
    d = vc.obj(Ghost, 'repos', stubs={'__contains__': lambda s, k: st['known'] if k is p else False, 'pop': pop,
                                      '__getitem__': item, '__delitem__': lambda s, k: pop(s, k) and None,
                                      'get': lambda s, k, d=None: g if k is p and st['known'] else d})
    p = vc.obj(R.RepoPath, 'p', stubs={'_repos': Prop(value=d)})
    ig, on, dz = vc.any('ignore_errors'), vc.any('onerror'), vc.any('dangerzone')

    def rmtree(s, ignore_errors=False, onerror=None, DANGERZONE=False):
        log.append('rmtree')
        vc.prove('removed with the same options', s is p and ignore_errors is ig and onerror is on and DANGERZONE is dz)
    vc.class_stubs[(K.AugmentedPath, 'rmtree')] = rmtree
    if vc.maybe('nothing said'):
        ig, on, dz = False, None, False
        vc.call(R.RepoPath.rmtree, p)
    else:
        vc.call(R.RepoPath.rmtree, p, ignore_errors=ig, onerror=on, DANGERZONE=dz)
    vc.prove('removed once, an open repository is forgotten and closed first',
             log in ((['forget', 'close', 'rmtree'], ['close', 'forget', 'rmtree']) if known else (['rmtree'],)))
    vc.cover('open' if known else 'not open')
