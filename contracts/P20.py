"""Checking out a reference and committing one path, over a model of the working tree, the index, HEAD and the stashes."""
from pyvc.api import *
import git
from augpathlib import repo as R
from augpathlib import repo_patch as RP
from augpathlib import exceptions as exc

ASSUMES = ['git stash push saves what differs from HEAD (with --all also what is not tracked) on top of the stashes and leaves the tree of HEAD, or says '
           'No local changes to save and does nothing; pop of stash@{n} brings it back, by three-way merge, and drops it, or fails and changes nothing',
           'git checkout and index.commit do their work or fail and change nothing; git checkout stash@{0} -- PATH fails if the stash has no such path',
           'no path is deleted in the index and there in the working tree (git cannot stash that and restore it)']
GCE = git.exc.GitCommandError


def gce(what):
    return GCE(['git', what], 1)



class World:
    """ HEAD, what is uncommitted, the stashes on top of those that were there """
    _vc_model = True

    def __init__(self, vc, apart=True):
        self.vc = vc
        self.apart = apart
        self.calls = 0
        self.same = vc.maybe('the reference is the branch')
        self.head = self.home = 'branch'
        self.work = self.some('uncommitted')
        self.stack = []
        self.mustfail = None

    def some(self, name):
        """ changes of tracked files, untracked files, ignored files """
        if not self.apart:
            return frozenset((name, k) for k in 'tui') if self.vc.maybe(name) else frozenset()
        return frozenset((name, k) for k in 'tui' if self.vc.maybe(f'{name} {k}'))

    def fails(self, what):
        """ at most one failure """
        if self.mustfail is None and self.vc.maybe('fails: ' + what):
            self.mustfail = what
            raise gce(what)

    def stash(self, *a):
        vc = self.vc
        opt = a[1:] if a[:1] == ('push',) else a
        kinds = {(): 't', ('--include-untracked',): 'tu', ('-u',): 'tu', ('--all',): 'tui', ('-a',): 'tui'}.get(opt)
        if kinds:
            self.fails('stash')
            part = frozenset(x for x in self.work if x[1] in kinds)
            if not part:
                return 'No local changes to save'
            self.stack.insert(0, part)
            self.work -= part
            return 'Saved working directory and index state WIP on main: 1234567 x'
        if a[:1] == ('pop',) and len(a) < 3:
            n = {(): 0, ('stash@{0}',): 0, ('stash@{1}',): 1, ('0',): 0, ('1',): 1}.get(a[1:])
            if n is None:
                unsup('another stash')
            vc.prove('nobody else\'s stash is taken', n < len(self.stack))
            if n >= len(self.stack):
                vc.die(PathCut('proved false'))
            vc.prove('what was stashed goes back to a clean tree of its branch', not self.work and self.head == self.home)
            self.fails('pop')
            self.work |= self.stack.pop(n)
            return 'Dropped'
        if a[:1] in (('drop',), ('clear',)):
            vc.prove('nothing stashed is thrown away', False)
            vc.die(PathCut('proved false'))
        unsup(f'git stash {a}')

    def to(self, head):
        self.vc.prove('only a clean tree is left', not self.work)
        self.fails('checkout')
        self.head = head


def find(cls, name):
    return next(k.__dict__[name] for k in cls.__mro__ if name in k.__dict__)


def references(vc, w, state=0, gone=None, tagged=False):
    """ a repository with a branch, and a reference to another or the same branch, or one that is no branch """
    class G:
        _vc_model = True
        stash = staticmethod(w.stash)

    def active(s):
        if state == 1:
            raise gone
        return ref if w.head == 'ref' else branch

    def checkout(s, *a, **k):
        if tagged:
            raise AttributeError('checkout') if tagged == 1 else KeyboardInterrupt()
        w.to('branch' if w.same else 'ref')
    repo = vc.obj(git.Repo, 'repo', stubs={'active_branch': Prop(get=active), 'git': Prop(value=G())})
    eq = {'__eq__': lambda s, o: s is o or w.same, '__ne__': lambda s, o: not (s is o or w.same)}
    branch = vc.obj(git.Head, 'branch', stubs={'repo': Prop(value=repo), 'checkout': lambda s, *a, **k: w.to('branch'), **eq})
    ref = vc.obj(git.Head, 'ref', stubs={'repo': Prop(value=repo), 'checkout': checkout,
                                         'is_valid': lambda s: state != 2, 'name': Prop(value='thename'), **eq})
    return ref


@contract('with', max_paths=20000)
def with_(vc):
    w = World(vc)
    had = w.work
    state = vc.choose(3, 'HEAD: a branch, detached, the reference is not valid')
    gone = TypeError('HEAD is a detached symbolic reference')
    tagged = 0 if w.same else vc.choose(3, 'checkout: not a tag, a tag, interrupted')
    ref = references(vc, w, state, gone, tagged)
    r = vc.attempt(git.Reference.__enter__, ref)
    if not r.ok:
        vc.prove('what is not a branch cannot be left', r.raised(exc.InvalidRefError) if state == 2 else
                 r.exc is gone if state == 1 else r.raised(GCE) and w.mustfail is not None or bool(tagged))
        if not tagged or w.mustfail is None:  # and not also the way back
            vc.prove('a checkout that fails leaves everything as it was', w.head == 'branch' and w.work == had and not w.stack)
        vc.prove('nothing is lost when it cannot be entered', w.work.union(*w.stack) == had)
        vc.cover('not entered')
        return
    vc.prove('entered only from a branch, to a valid reference', state == 0 and w.mustfail is None and not tagged)
    vc.prove('the reference is checked out, with nothing uncommitted', r.value is ref and not w.work and (w.head == 'ref' or w.same))
    vc.prove('what was uncommitted is stashed', w.stack == [had] * bool(had))
    # the block may leave another reference checked out, and something uncommitted
    if vc.maybe('the block switches'):
        w.head = 'third'
    left = w.work = w.some('left')
    e = None if vc.maybe('the block ends') else Boom('injected')
    r = vc.attempt(git.Reference.__exit__, ref, type(e) if e else None, e, None)
    leaves(vc, w, r, had, left)


def leaves(vc, w, r, had, left):
    if not r.ok:
        vc.prove('only a failure of git is raised', r.raised(GCE) and w.mustfail is not None)
        vc.prove('nothing is lost when it cannot be left', w.work.union(*w.stack) == had | left)
        vc.cover('not left')
        return
    vc.prove('a failure in the block is not swallowed', not r.value)
    vc.prove('no failure is swallowed', w.mustfail is None)
    vc.prove('the branch is checked out again', w.head == 'branch')
    vc.prove('what was uncommitted is back', w.work == had)
    vc.prove('the stashes are as they were, and what the block left on top', w.stack == [left] * bool(left))
    vc.cover('left')


@contract('entered again', max_paths=20000)
def again(vc):
    """ the block enters the same reference object """
    w = World(vc, apart=False)
    had = w.work
    ref = references(vc, w)
    r = vc.attempt(git.Reference.__enter__, ref)
    if not r.ok:
        return
    mid = w.work = w.some('mid')
    head = w.home = w.head
    r = vc.attempt(git.Reference.__enter__, ref)
    inner = frozenset()
    if r.ok:
        vc.prove('entered again, with nothing uncommitted', r.value is ref and not w.work and w.stack == [mid] * bool(mid) + [had] * bool(had))
        inner = w.work = w.some('inner')
        r = vc.attempt(git.Reference.__exit__, ref, None, None, None)
        if r.ok:
            vc.prove('left again, all is as it was', w.work == mid and w.head == head and w.stack == [inner] * bool(inner) + [had] * bool(had))
            vc.cover('left again')
    if not r.ok:
        vc.prove('nothing is lost when it cannot be entered or left again', w.work.union(*w.stack) == had | mid | inner)
        vc.cover('not entered or left again')
        return
    # whoever took the stash that the inner block left
    if inner:
        w.stack.pop(0)
    w.home = 'branch'
    left = w.work
    r = vc.attempt(git.Reference.__exit__, ref, None, None, None)
    leaves(vc, w, r, had, left)


class Path3:
    """ a path: its content in HEAD, in the index, in the working tree """

    def __init__(self, vc, name):
        self.name = name
        h = 'h' if vc.maybe(name + ' in HEAD') else None
        i = [h, 'i', None][vc.choose(3 if h else 2, name + ' in the index')]
        w = [i, 'w', None, h][vc.choose(4 if h and i else 3 if i or not h else 1, name + ' in the working tree')]
        self.h, self.i, self.w = h, i, w

    @property
    def tracked(self):
        return self.h is not None or self.i is not None

    @property
    def dirty(self):
        return self.i != self.h or (self.i is not None and self.w != self.i)

    def state(self):
        return self.h, self.i, self.w


class Tree:
    """ a repository: the path, one other path, and whether there are other changes """
    _vc_model = True

    def __init__(self, vc):
        self.vc = vc
        self.empty = vc.maybe('no commit yet')
        self.p, self.o = Path3(vc, 'the path'), Path3(vc, 'another')
        self.more = vc.maybe('more changes')
        if self.empty and (self.p.h or self.o.h):
            vc.die(PathCut('no HEAD'))
        self.saved = None
        self.commits = []
        self.boom = None
        self.kept = False

    def paths(self):
        return self.p, self.o

    def stash(self, *a):
        vc = self.vc
        if a in (('push',), ()):
            vc.prove('nothing is stashed before the first commit', not self.empty)
            if not (self.p.dirty or self.o.dirty or self.more):
                return 'No local changes to save'
            vc.prove('stashed once', self.saved is None)
            self.saved = [x.state() if x.tracked else None for x in self.paths()] + [self.more]
            for x in self.paths():
                if x.tracked:
                    x.i = x.w = x.h
            self.more = False
            return 'Saved working directory and index state WIP on main: 1234567 x'
        if a in (('pop',), ('pop', 'stash@{0}')):
            vc.prove('nobody else\'s stash is taken', self.saved is not None)
            if self.saved is None:
                vc.die(PathCut('proved false'))
            if vc.maybe('pop fails'):
                self.kept = True
                raise gce('pop')
            for x, s in zip(self.paths(), self.saved):
                if s is None:
                    continue
                base, ours, theirs = s[0], x.i, s[2]
                vc.prove('no local change is in the way', x.w == x.i)
                out = theirs if ours == base else ours if theirs == base or theirs == ours else 'conflict'
                vc.prove('what was stashed can be merged', out != 'conflict')
                x.w = out
                if base is None and ours is None:
                    x.i = out
            self.more = self.saved[2]
            self.saved = None
            return 'Dropped'
        if a[:1] in (('drop',), ('clear',)):
            vc.prove('nothing stashed is thrown away', False)
            vc.die(PathCut('proved false'))
        unsup(f'git stash {a}')

    def reset(self, *a):
        self.vc.prove('nothing uncommitted is thrown away', '--hard' not in a and '--merge' not in a)
        unsup(f'git reset {a}')

    def clean(self, *a):
        self.vc.prove('nothing uncommitted is thrown away', False)
        self.vc.die(PathCut('proved false'))

    def checkout(self, *a):
        vc = self.vc
        if a != ('stash@{0}', '--', 'd/the path'):
            unsup(f'git checkout {a}')
        vc.prove('nobody else\'s stash is used', self.saved is not None)
        if self.saved is None:
            vc.die(PathCut('proved false'))
        s = self.saved[0]
        if s is None or s[2] is None:
            raise gce('checkout')
        self.p.i = self.p.w = s[2]
        return ''

    def rm(self, *a):
        opts = a[:a.index('--')] if '--' in a else unsup('git rm without --')
        if a[a.index('--') + 1:] != ('d/the path',) or '--cached' in opts:
            unsup(f'git rm {a}')
        if self.p.i is None:
            if '--ignore-unmatch' not in opts:
                raise gce('rm')
            return ''
        self.vc.prove('what differs is not removed', self.p.w == self.p.i == self.p.h)
        self.p.i = self.p.w = None
        return ''

    def commit(self, message=None, author_date=None, **k):
        if k:
            unsup('more to commit')
        if self.vc.maybe('the commit fails'):
            self.boom = Boom('injected')
            raise self.boom
        self.commits.append((message, author_date, self.p.i, self.o.i, self.more and not self.empty))
        for x in self.paths():
            x.h = x.i
        return self.made


@contract('commit', max_paths=60000)
def commit(vc):
    t = Tree(vc)
    t.made = vc.any('commit')
    ours = [x.state() for x in t.paths()]
    wt = [x.tracked for x in t.paths()]
    more = t.more

    class Rel:
        _vc_model = True

        def __init__(self, p='d/the path'):
            self.p = p

        def as_posix(self):
            return self.p
        __str__ = __fspath__ = as_posix

        @property
        def parent(self):
            return Rel('d')

        @property
        def name(self):
            return 'the path'

    class Branch:
        _vc_model = True

        def is_valid(self):
            return not t.empty

    def tree(s, *a):
        if t.empty:
            raise ValueError('no tree')
        return vc.any('tree')
    repo = vc.obj(git.Repo, 'repo', stubs={'active_branch': Prop(value=Branch()), 'git': Prop(value=t), 'index': Prop(value=t), 'tree': tree})
    p = vc.obj(R.RepoPath, 'p', stubs={'repo': Prop(value=repo), 'repo_relative_path': Prop(value=Rel()), 'exists': lambda s: t.p.w is not None})
    attrs_of(p)['_git'] = git
    msg, date = vc.any('message'), vc.any('date')
    r = vc.attempt(R.RepoHelper.commit, p, msg, date=date)
    # nothing is lost
    if t.kept:
        vc.prove('what could not be brought back is still stashed', t.saved is not None)
    else:
        vc.prove('no stash is left', t.saved is None)
        vc.prove('the working tree is as it was', t.p.w == ours[0][2] and t.o.w == ours[1][2] and t.more == more)
    if t.boom:
        vc.prove('a failure is raised, and nothing committed', r.exc is t.boom and not t.commits)
        vc.cover('failed')
        return
    vc.prove('one commit, which is returned', r.ok and len(t.commits) == 1 and r.value is t.made)
    m, d, ps, os_, mo = t.commits[0]
    vc.prove('with the message and the date', m is msg and d is date)
    if t.empty:
        vc.prove('the first commit is what is in the index', (ps, os_) == (ours[0][1], ours[1][1]))
        vc.cover('first')
        return
    vc.prove('nothing else is committed', os_ == ours[1][0] and not mo)
    vc.prove('the path is committed as it is', ps == (ours[0][2] if wt[0] else None))
    vc.cover('committed')


@contract('commit_from_working_tree')
def commit_tree(vc):
    log = []
    made = vc.any('commit')
    boom = Boom('injected')
    fail = vc.maybe('fails')

    def add(s):
        log.append('add')
        if fail:
            raise boom

    def com(s, message, date=None):
        log.append(('commit', message, date))
        return made
    p = vc.obj(R.RepoPath, 'p', stubs={'add_index': add, 'commit': com})
    msg, date = vc.any('message'), vc.any('date')
    r = vc.attempt(R.RepoHelper.commit_from_working_tree, p, msg, date=date)
    if fail:
        vc.prove('nothing is committed if it cannot be added', r.exc is boom and log == ['add'])
        vc.cover('failed')
        return
    vc.prove('added, then committed', r.ok and r.value is made and log[0] == 'add' and log[1][1] is msg and log[1][2] is date and len(log) == 2)
    vc.cover('done')


@contract('add_index')
def add_index(vc):
    log = []

    class Rel:
        _vc_model = True

        def __init__(self, p='d/the path'):
            self.p = p

        def as_posix(self):
            return self.p
        __str__ = __fspath__ = as_posix

        @property
        def parent(self):
            return Rel('d')

        @property
        def name(self):
            return 'the path'

    class Index:
        _vc_model = True

        def add(self, items):
            log.append(list(items))
    repo = vc.obj(git.Repo, 'repo', stubs={'index': Prop(value=Index())})
    p = vc.obj(R.RepoPath, 'p', stubs={'repo': Prop(value=repo), 'repo_relative_path': Prop(value=Rel())})
    vc.call(R.RepoHelper.add_index, p)
    vc.prove('the path, and nothing else, is added', log == [['d/the path']])
    vc.cover('added')


@contract('reference by name')
def get_ref(vc):
    """ of any number of references, one of which, any, is looked at """
    name = vc.any('name', str)
    n, j = vc.int('number of references', 0), vc.int('index', 0)
    vc.assume(j < n)
    if vc.maybe('no references'):
        refs, at = VList(), None
    else:
        k = [0]

        def other():
            k[0] += 1
            return vc.obj(git.Head, f'other{k[0]}', stubs={'name': Prop(value=vc.any(f'other name {k[0]}', str))})
        at = vc.obj(git.Head, 'at', stubs={'name': Prop(value=vc.any('its name', str))})
        refs = SymList(vc, n.t, j.t, at, other)
    repo = vc.obj(git.Repo, 'repo', stubs={'refs': Prop(value=refs)})
    vc.candidates = lambda vc_, lid, env: [
        ('past it: its name is another', Implies(SBool(g.i.t > g.mark.t), Not(at.name == name)))
        for g in vc.objs if g._vc_name.startswith('each')]
    r = vc.attempt(git.Repo.getRef, repo, name)
    if r.ok:
        vc.prove('it has the name', r.value is not None and r.value.name == name)
        vc.cover('found')
    else:
        vc.prove('ValueError only if none has', r.raised(ValueError) and (at is None or Not(at.name == name)))
        vc.cover('none')
