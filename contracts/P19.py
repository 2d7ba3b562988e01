"""The repository of a path, and how one is made."""
import pathlib
from pyvc.api import *
import git
from augpathlib import core as K
from augpathlib import repo as R
from augpathlib import exceptions as exc

ASSUMES = ['a path and its absolute path, after the home directory is filled in, are the same place; path components are not ..',
           'the parts of an absolute path end at its anchor (the recursion of working_dir ends)',
           'git.Repo(DIR) opens the repository in DIR, Repo.init and Repo.clone_from make one there, or fail']
RP = R.RepoPath
H = R.RepoHelper



class Repos:
    """ the opened repositories by working directory """
    _vc_model = True

    def __init__(self, vc):
        self.vc = vc
        self.d = []
        self.log = []

    def find(self, k):
        return next((v for x, v in self.d if x is k), None)

    def __contains__(self, k):
        return self.find(k) is not None

    def __getitem__(self, k):
        v = self.find(k)
        if v is None:
            raise KeyError(k)
        return v

    def get(self, k, default=None):
        v = self.find(k)
        return default if v is None else v

    def __setitem__(self, k, v):
        self.d = [(x, y) for x, y in self.d if x is not k] + [(k, v)]

    def pop(self, k, *default):
        v = self.find(k)
        if v is None:
            if default:
                return default[0]
            raise KeyError(k)
        self.d = [(x, y) for x, y in self.d if x is not k]
        return v
    __delitem__ = pop


@contract('working_dir')
def working_dir(vc):
    isabs = vc.maybe('absolute')
    has = vc.maybe('.git here')
    top = isabs and vc.maybe('the anchor')
    above = None if vc.maybe('no repository above') else vc.obj(RP, 'above')
    want_abs = None

    def git_(s, o):
        vc.prove('the mark of a repository is .git', o == '.git')
        return dot
    dot = vc.obj(RP, 'dotgit', stubs={'exists': lambda s: has, 'is_dir': lambda s: has and vc.maybe('a directory')})
    mid = not top and vc.maybe('the directory is the anchor')
    dname = '/' if mid else '/d'
    name = dname.rstrip('/') + '/x'
    up = vc.obj(RP, 'up', stubs={'working_dir': Prop(value=above), '__str__': lambda s: dname, 'as_posix': lambda s: dname, 'anchor': Prop(value='/'),
                                 'is_absolute': lambda s: True, 'parent': Prop(get=lambda s: s if mid else unsup('further up')),
                                 'name': Prop(value='' if mid else 'd')})
    here = vc.obj(RP, 'here', stubs={'__str__': lambda s: '.', 'as_posix': lambda s: '.', 'anchor': Prop(value=''), 'is_absolute': lambda s: False,
                                     'working_dir': Prop(get=lambda s: vc.prove('a relative path is made absolute first', False))})
    whole = vc.obj(RP, 'whole', stubs={'working_dir': Prop(get=lambda s: s if has else above), 'is_absolute': lambda s: True,
                                       '__truediv__': git_, 'expanduser': lambda s: s, 'absolute': lambda s: s, 'parent': Prop(value=up),
                                       '__str__': lambda s: name, 'as_posix': lambda s: name, 'anchor': Prop(value='/'), 'name': Prop(value='x')})
    home = vc.obj(RP, 'home', stubs={'absolute': lambda s: whole})
    p = vc.obj(RP, 'p', stubs={'__truediv__': git_, 'is_absolute': lambda s: isabs, 'expanduser': lambda s: s if isabs else home,
                               'absolute': lambda s: s if isabs else vc.prove('the home directory is filled in first', False),
                               'anchor': Prop(value='/' if isabs else ''), '__str__': lambda s: '/' if top else name if isabs else 'x',
                               'as_posix': lambda s: '/' if top else name if isabs else 'x', 'name': Prop(value='' if top else 'x'),
                               'parent': Prop(get=lambda s: p if top else up if isabs else here)})
    r = vc.attempt(H.working_dir.fget, p)
    vc.prove('there is an answer for every path', r.ok)
    if has:
        vc.prove('what has a .git is its own working directory, absolute', r.value is (p if isabs else whole))
        vc.cover('here')
    elif top:
        vc.prove('there is nothing above the anchor', r.value is None)
        vc.cover('top')
    else:
        vc.prove('else it is that of the directory it is in', r.value is above)
        vc.cover('above')


class Opener:
    """ the class of repositories """
    _vc_model = True

    def __init__(self, w, fails):
        self.w, self.fails = w, fails

    def __call__(self, *a, **k):
        self.w.log.append(('open', a, k))
        if self.fails:
            raise self.w.boom
        return self.w.made


@contract('repo')
def repo(vc):
    w = Repos(vc)
    w.boom, w.made = Boom('injected'), vc.obj(git.Repo, 'made', stubs={'__bool__': lambda s: True})
    old = vc.obj(git.Repo, 'old', stubs={'__bool__': lambda s: True})
    wd = None if vc.maybe('in no repository') else vc.obj(RP, 'wd', stubs={'as_posix': lambda s: '/w/d', '__str__': lambda s: '/w/d', '__bool__': lambda s: True})
    cached = wd is not None and vc.maybe('opened before')
    other = vc.obj(RP, 'other')
    w.d = [(other, vc.obj(git.Repo, 'another'))] + [(wd, old)] * cached
    before = list(w.d)
    fails = vc.maybe('cannot be opened')
    p = vc.obj(RP, 'p', stubs={'working_dir': Prop(value=wd)})
    attrs_of(p)['_repos'] = w
    attrs_of(p)['_repo_class'] = Opener(w, fails)
    r = vc.attempt(H.repo.fget, p)
    if wd is None:
        vc.prove('what is in no repository is reported', r.raised(exc.NotInRepoError) and not w.log and w.d == before)
        vc.cover('none')
    elif cached:
        vc.prove('the same repository every time', r.ok and r.value is old and not w.log and w.d == before)
        vc.cover('cached')
    else:
        vc.prove('it is opened at its working directory', len(w.log) == 1 and w.log[0][1] in (('/w/d',), (wd,)) and not w.log[0][2])
        if fails:
            vc.prove('what cannot be opened is not kept', r.exc is w.boom and w.d == before)
            vc.cover('failed')
        else:
            vc.prove('it is kept', r.ok and r.value is w.made and w.find(wd) is w.made and len(w.d) == len(before) + 1)
            vc.cover('opened')


@contract('init')
def init(vc):
    w = Repos(vc)
    w.boom, w.made = Boom('injected'), vc.obj(git.Repo, 'made', stubs={'__bool__': lambda s: True})
    inside = vc.choose(3, 'in no repository, in one, it is itself its working directory')
    exists = vc.maybe('exists')
    fails = vc.maybe('fails')
    kind = vc.choose(3, 'remote: none, text, a path')
    remote = [None, 'the remote', pathlib.PurePosixPath('/some/where')][kind]

    class Remote(pathlib.Path):
        pass
    if kind == 2:
        remote = vc.obj(type(pathlib.Path('/')), 'remote', stubs={'__str__': lambda s: '/some/where', 'as_posix': lambda s: '/some/where', '__fspath__': lambda s: '/some/where'})
    depth = None if vc.maybe('no depth') else vc.any('depth', int)
    old = vc.obj(git.Repo, 'old', stubs={'__bool__': lambda s: True, 'working_dir': Prop(value='/p' if inside == 2 else '/'), '__str__': lambda s: 'old',
                                         '__repr__': lambda s: 'old'})

    def get(s):
        if not inside:
            raise exc.NotInRepoError('no')
        return old

    def made(name):
        def f(s, *a, **k):
            w.log.append((name, a, k))
            if fails:
                raise w.boom
            return w.made
        return f
    p = vc.obj(RP, 'p', stubs={'repo': Prop(get=get), 'exists': lambda s: exists, 'as_posix': lambda s: '/p', '__str__': lambda s: '/p',
                               'working_dir': Prop(get=lambda s: None if not inside else s)})
    attrs_of(p)['_repos'] = w
    attrs_of(p)['_repo_class'] = vc.obj(type(git.Repo), 'Repo', stubs={'clone_from': made('clone'), 'init': made('init')})
    w.d = [(p, old)] * (inside == 2)
    before = list(w.d)
    kw = {} if depth is None and vc.maybe('no depth said') else {'depth': depth}
    r = vc.attempt(H.init, p, remote, **kw) if kind or vc.maybe('with a remote') else vc.attempt(H.init, p, **kw)
    stale = inside == 2 and not exists
    if inside and not stale:
        vc.prove('no repository is made inside another', r.raised(exc.RepoExistsError) and not w.log and w.d == before)
        vc.cover('refused')
        return
    vc.prove('exactly one is made', len(w.log) == 1)
    name, a, k = w.log[0]
    if kind:
        vc.prove('cloned from the remote to the path', name == 'clone' and len(a) == 2 and a[1] in (p, '/p') and k.get('depth') is depth)
        vc.prove('the remote is passed as text', a[0] == ('the remote' if kind == 1 else '/some/where'))
    else:
        vc.prove('made at the path', name == 'init' and len(a) == 1 and a[0] in (p, '/p') and not k.get('bare'))
    if fails:
        vc.prove('a failure is raised and not kept', r.exc is w.boom and not w.d)
        vc.cover('failed')
        return
    vc.prove('it is kept and returned', r.ok and r.value is w.made and w.d == [(p, w.made)])
    vc.cover('made')


@contract('repo_relative_path')
def relative(vc):
    isabs = vc.maybe('absolute')
    inside = vc.maybe('in a repository')
    lost = exc.NotInRepoError('no')
    out = vc.any('relative')
    repo_ = vc.obj(git.Repo, 'repo', stubs={'working_dir': Prop(value='/w/d'), 'working_tree_dir': Prop(value='/w/d'), '__bool__': lambda s: True})

    def get(s):
        if not inside:
            raise lost
        return repo_

    def relto(s, o):
        vc.prove('relative to the working directory', o == '/w/d' or o is wd)
        return out
    wd = vc.obj(RP, 'wd')
    def elsewhere(*a):
        if a == ('/w/d',):
            return wd
        return vc.obj(RP, 'another path', stubs=fs(vc, 'another', relative_to=lambda s, o: vc.prove('relative is the path itself', False), absolute=lambda s: s,
                                                   __truediv__=lambda s, o: s))
    vc.class_models[RP] = elsewhere
    wd._vc_stubs.update(fs(vc, 'wd', __truediv__=lambda s, o: elsewhere(s, o)))
    whole = vc.obj(RP, 'whole', stubs=fs(vc, 'it', relative_to=relto, is_absolute=lambda s: True, parent=Prop(get=elsewhere), name=Prop(value='x')))
    home = vc.obj(RP, 'home', stubs=fs(vc, 'it', absolute=lambda s: whole))
    p = vc.obj(RP, 'p', stubs={**fs(vc, 'it'), 'name': Prop(value='x'), 'parent': Prop(get=elsewhere), 'repo': Prop(get=get), 'is_absolute': lambda s: isabs, 'expanduser': lambda s: s if isabs else home,
                               'absolute': lambda s: s, 'relative_to': relto if isabs else lambda s, o: unsup('a relative path'), 'working_dir': Prop(value=wd)})
    r = vc.attempt(H.repo_relative_path.fget, p)
    if inside:
        vc.prove('the path from the working directory', r.ok and r.value is out)
        vc.cover('inside')
    else:
        vc.prove('what is in no repository is reported', r.exc is lost)
        vc.cover('lost')


@contract('rmtree')
def rmtree(vc):
    w = Repos(vc)
    open_ = vc.maybe('opened before')
    fails = vc.maybe('fails')
    boom = Boom('injected')
    repo_ = vc.obj(git.Repo, 'repo', stubs={'close': lambda s: w.log.append('close'), '__bool__': lambda s: True})
    args = [vc.any(n) for n in ('ignore_errors', 'onerror', 'DANGERZONE')]

    def rm(s, ignore_errors=False, onerror=None, DANGERZONE=False):
        vc.prove('the tree is removed as asked for', s is p and [ignore_errors, onerror, DANGERZONE] == args)
        vc.prove('the repository is forgotten first', w.find(p) is None and ('close' in w.log) is open_)
        w.log.append('rmtree')
        if fails:
            raise boom
    vc.stubs[K.AugmentedPath.rmtree] = rm
    p = vc.obj(RP, 'p')
    w.d = [(p, repo_)] * open_
    attrs_of(p)['_repos'] = w
    if vc.maybe('nothing said'):
        args = [False, None, False]
        r = vc.attempt(RP.rmtree, p)
    else:
        r = vc.attempt(RP.rmtree, p, ignore_errors=args[0], onerror=args[1], DANGERZONE=args[2])
    vc.prove('the tree is removed, once', w.log == ['close'] * open_ + ['rmtree'] and not w.d)
    vc.prove('a failure is raised', r.exc is boom if fails else r.ok)
    vc.cover('removed')


@contract('clone_path')
def clone_path(vc):
    textmod.install(vc)
    k = vc.choose(4, 'name of the remote')
    b = textmod.text(vc, 'name', nonempty=True, never=('.', '/'))
    x = textmod.text(vc, 'suffix', nonempty=True, never=('.', '/'))
    vc.assume(Not(x == 'git'))
    name, stem, suffix = ((b, b, ''), (b + '.git', b, '.git'), (b + '.' + x, b, '.' + x), (b + '.git.git', b + '.git', '.git'))[k]
    rem = vc.any('remote')

    def pure(*a):
        vc.prove('the name is that of the remote', len(a) == 1 and a[0] is rem)
        return vc.obj(pathlib.PurePosixPath, 'pure', stubs={'name': Prop(value=name), 'stem': Prop(value=stem), 'suffix': Prop(value=suffix),
                                                            'suffixes': Prop(get=lambda s: unsup('suffixes'))})
    vc.class_models[pathlib.PurePath] = pure
    out, at = vc.any('path'), []

    def div(s, o):
        at.append(o)
        return out
    p = vc.obj(RP, 'p', stubs={'__truediv__': div})
    r = vc.attempt(H.clone_path, p, rem)
    vc.prove('below the path', r.ok and r.value is out and len(at) == 1)
    want = (b, b, name, b + '.git')[k]
    vc.prove('the name git would use', SText.of(at[0]) is not None and SText.of(at[0])._vc_same(SText.of(want)))
    vc.cover(f'name {k}')


@contract('clone_from')
def clone_from(vc):
    log = []
    boom = Boom('injected')
    fails = vc.maybe('fails')

    def init_(s, remote=None, depth=None):
        log.append((remote, depth))
        if fails:
            raise boom
        return vc.any('repo')
    child = vc.obj(RP, 'child', stubs={'init': init_})
    remote = vc.any('remote')
    depth = vc.any('depth')

    def cp(s, rem):
        vc.prove('the name is that of the remote', rem is remote)
        return child
    p = vc.obj(RP, 'p', stubs={'clone_path': cp})
    if vc.maybe('no depth said'):
        depth = None
        r = vc.attempt(H.clone_from, p, remote)
    else:
        r = vc.attempt(H.clone_from, p, remote, depth=depth)
    vc.prove('cloned, once, below the path', len(log) == 1 and log[0][0] is remote and log[0][1] is depth)
    vc.prove('where it is, is returned', r.exc is boom if fails else r.ok and r.value is child)
    vc.cover('cloned')
