"""Versions and changes of a path: what is asked of git, and what is made of the answer."""
import builtins
from pyvc.api import *
import git
from augpathlib import repo as R
from augpathlib import exceptions as exc

ASSUMES = ['A.diff(B, paths=PATH) of GitPython yields what differs between the commit or the index A and the commit B, the working tree (None) or the index '
           '(no B; not an IndexFile), for the paths at or below PATH',
           'Repo.git.show(REV:PATH) yields the content decoded with surrogateescape, without its last newline unless told not to strip it',
           'Repo.iter_commits yields the commits that touch the paths, newest first, at most max_count']
RP = R.RepoPath
H = R.RepoHelper



class Rel:
    _vc_model = True

    def as_posix(self):
        return 'd/x'
    __str__ = __fspath__ = as_posix


class Versions:
    """ HEAD, another commit, the index, the working tree of the path: which of them differ """

    def __init__(self, vc):
        w = self
        self.vc = vc
        self.asked = []
        self.memo = {}
        self.head, self.other = (vc.obj(git.Commit, n, stubs={'diff': w.differ(n), 'tree': Prop(value=None)}) for n in ('HEAD', 'other'))
        self.index = vc.obj(git.IndexFile, 'index', stubs={'diff': w.differ('index')})
        self.exists = vc.maybe('exists')
        head = vc.obj(git.HEAD, 'headref', stubs={'commit': Prop(value=self.head)})
        self.repo = vc.obj(git.Repo, 'repo', stubs={'index': Prop(value=self.index), 'head': Prop(value=head), 'commit': lambda s, rev='HEAD': w.commit(rev)})
        self.p = vc.obj(RP, 'p', stubs={'repo': Prop(value=self.repo), 'repo_relative_path': Prop(value=Rel()), 'exists': lambda s: w.exists,
                                        '__str__': lambda s: 'p'})
        attrs_of(self.p)['_git'] = git

    def commit(self, rev):
        if rev not in ('HEAD', 'other'):
            unsup('another revision')
        return self.head if rev == 'HEAD' else self.other

    def name(self, x):
        return 'HEAD' if x is self.head else 'other' if x is self.other else 'index' if x is self.index else 'work' if x is None else unsup('diff with what?')

    def diffs(self, a, b):
        if a == b:
            return []
        k = frozenset((a, b))
        if k not in self.memo:
            n = self.vc.choose(3, f'differences between {" and ".join(sorted(k))}')
            # either way round it is another difference
            self.memo[k] = {x: [self.vc.obj(git.Diff, f'diff{i} from {x}', stubs={'__bool__': lambda s: True}) for i in range(n)] for x in k}
        return list(self.memo[k][a])

    def differ(w, this):
        def diff(s, other=git.INDEX, paths=None, create_patch=False, **k):
            swapped = k.pop('R', False)
            if k:
                unsup('diff options')
            if other is w.index:
                raise git.exc.GitCommandError(['git', 'diff'], 128)
            w.vc.prove('only the path is compared', paths in ('d/x', ['d/x'], ('d/x',)) or isinstance(paths, Rel))
            w.asked.append(create_patch)
            that = 'index' if other is git.INDEX else w.name(other)
            return w.diffs(that, this) if swapped else w.diffs(this, that)
        return diff

    def judge(self, r, a, b, patch=False):
        vc = self.vc
        if not self.exists:
            vc.prove('what is not there is reported', r.raised(FileNotFoundError) and not self.asked)
            vc.cover('not there')
            return
        vc.prove('comparing does not fail', r.ok)
        want = self.diffs(a, b)
        vc.prove('a difference exactly if there is one, and from the former to the latter', any(r.value is x for x in want) if want else r.value is None)
        vc.prove('with the patch if asked for', all(x is patch for x in self.asked))
        vc.cover('differs' if want else 'same')


@contract('modified')
def modified(vc):
    w = Versions(vc)
    w.judge(vc.attempt(H.modified, w.p), 'index', 'work')


@contract('indexed')
def indexed(vc):
    w = Versions(vc)
    w.judge(vc.attempt(H.indexed, w.p), 'HEAD', 'index')


@contract('has_uncommitted_changes')
def uncommitted(vc):
    w = Versions(vc)
    w.judge(vc.attempt(H.has_uncommitted_changes, w.p), 'HEAD', 'work')


@contract('diff')
def diff(vc):
    w = Versions(vc)
    refs = [(None, 'work'), ('', 'index'), ('HEAD', 'HEAD'), ('other', 'other')]
    a, an = refs[vc.choose(4, 'ref')]
    b, bn = refs[vc.choose(4, 'ref_orig')]
    patch = vc.maybe('create_patch')
    kw = {'create_patch': patch} if patch or vc.maybe('said so') else {}
    if an == 'index' and bn == 'work' and vc.maybe('default'):
        r = vc.attempt(H.diff, w.p, **kw)
    else:
        r = vc.attempt(H.diff, w.p, a, b, **kw)
    if an == bn == 'work':
        vc.prove('the working tree is the same as itself', r.ok and r.value is None)
        vc.cover('itself')
        return
    # to the working tree whichever of them it is, else to the first from the second
    w.judge(r, *((an, bn) if bn == 'work' else (bn, an)), patch)


@contract('show')
def show(vc):
    ref = [None, '', 'theref'][vc.choose(3, 'ref')]
    content = vc.any('content')
    fails = vc.maybe('fails')
    boom = Boom('injected')
    log = []

    class Decoded:
        _vc_model = True

        def encode(self, enc='utf-8', errors='strict'):
            vc.prove('the bytes are got back as they were', enc.lower().replace('-', '') == 'utf8' and errors == 'surrogateescape')
            return content

    def gshow(s, what, **k):
        log.append(what)
        vc.prove('the bytes are not changed', k.pop('strip_newline_in_stdout', True) is False)
        raw = k.pop('stdout_as_string', True)
        if k:
            unsup('git show options')
        if fails:
            raise boom
        return Decoded() if raw else content

    class F:
        _vc_model = True

        def __enter__(self):
            return self

        def __exit__(self, *a):
            log.append('closed')

        def read(self):
            if fails:
                raise boom
            return content

    def open_(vc, path, mode='r', *a, **k):
        vc.prove('the file itself is read, as bytes', path is p and mode == 'rb')
        log.append('opened')
        return F()
    vc.builtin_models = dict(vc.builtin_models)
    vc.builtin_models[builtins.open] = open_
    g = vc.obj(git.Git, 'git', stubs={'show': gshow})
    repo = vc.obj(git.Repo, 'repo', stubs={'git': Prop(value=g)})
    p = vc.obj(RP, 'p', stubs={'repo': Prop(value=repo), 'repo_relative_path': Prop(value=Rel())})
    attrs_of(p)['_git'] = git
    r = vc.attempt(H.show, p, ref) if ref != '' or vc.maybe('said so') else vc.attempt(H.show, p)
    vc.prove('asked once, for the path at the reference', log == (['opened', 'closed'] if ref is None else [ref + ':d/x']))
    vc.prove('exactly the bytes, or the failure', r.exc is boom if fails else r.ok and r.value is content)
    vc.cover('shown')


@contract('latest_commit')
def latest(vc):
    n = vc.maybe('there is one')
    com = vc.obj(git.Commit, 'commit')
    rev = None if vc.maybe('no rev') else vc.any('rev')
    fails = vc.maybe('fails')
    boom = Boom('injected')

    def it(s, rev_=None, paths='', **k):
        rev_ = k.pop('rev', rev_)
        mc = k.pop('max_count', None)
        vc.prove('the commits of the path from the revision', rev_ is rev and paths in ('/r/d/x', ['/r/d/x']) and not k)
        if fails:
            raise boom
        if n:
            yield com
            if mc != 1 and vc.maybe('another'):
                yield vc.obj(git.Commit, 'older')
    repo = vc.obj(git.Repo, 'repo', stubs={'iter_commits': it})
    p = resolved(vc, repo)
    r = vc.attempt(H.latest_commit, p, rev) if vc.maybe('positional') else vc.attempt(H.latest_commit, p, rev=rev)
    if fails:
        vc.prove('a failure is raised', r.exc is boom)
    elif n:
        vc.prove('the first of them', r.ok and r.value is com)
        vc.cover('found')
    else:
        vc.prove('that there is none is reported', r.raised(exc.NoCommitsForFile))
        vc.cover('none')


def resolved(vc, repo):
    def up(s):
        return vc.obj(RP, 'the directory', stubs=fs(vc, 'the directory', expanduser=lambda s: s, resolve=lambda s: s, absolute=lambda s: s, as_posix=lambda s: '/r/d', __str__=lambda s: '/r/d'))
    more = dict(fs(vc, 'it'), parent=Prop(get=up), name=Prop(value='x'))
    full = vc.obj(RP, 'full', stubs={**more, 'as_posix': lambda s: '/r/d/x', '__str__': lambda s: '/r/d/x'})
    home = vc.obj(RP, 'home', stubs={**more, 'resolve': lambda s: full})
    return vc.obj(RP, 'p', stubs={**more, 'repo': Prop(value=repo), 'expanduser': lambda s: home, '__str__': lambda s: 'p', '__repr__': lambda s: 'p'})


@contract('commits')
def commits(vc):
    rev, mc = (None if vc.maybe('no ' + n) else vc.any(n) for n in ('rev', 'max_count'))
    all_ = vc.any('all of them')

    def it(s, rev_=None, paths='', **k):
        rev_ = k.pop('rev', rev_)
        m = k.pop('max_count', None)
        vc.prove('the commits of the path from the revision', rev_ is rev and paths in ('/r/d/x', ['/r/d/x']) and m is mc and not k)
        yield all_
    repo = vc.obj(git.Repo, 'repo', stubs={'iter_commits': it})
    got = list(vc.call(H.commits, resolved(vc, repo), rev=rev, max_count=mc))
    vc.prove('all of them', len(got) == 1 and got[0] is all_)
    vc.cover('all')
