"""The web addresses of a file name its repository, the revision and the file."""
import pathlib
from urllib.parse import urlparse
from pyvc.api import *
import git
from augpathlib import repo as R

ASSUMES = ['the first address of the default remote of a repository is where it is; urlparse splits an address at its scheme and path',
           'PurePosixPath joins and prints the names it is given',
           'names of repositories and groups are samples; revisions and paths of files are arbitrary']
RP = R.RepoPath
NAMES = ('repo', 'foo.js', 'a.b.c', '.github', 'x.git', 'git', 'repo.git.d', 'my-repo_1')
GROUPS = ('group', 'g.h')
# address, whether it is at github, whether it says .git
FORMS = ('git@github.com:{g}/{n}', 'https://github.com/{g}/{n}', 'ssh://git@github.com/{g}/{n}', 'git://github.com/{g}/{n}',
         'git@github.example.org:{g}/{n}', 'git@github.company:{g}/{n}', 'https://gitlab.com/{g}/{n}', 'git@gitlab.com:{g}/{n}', 'https://example.org/github.com/{g}/{n}',
         'https://notgithub.com/{g}/{n}', 'https://gist.github.com/{g}/{n}', 'git@gist.github.com:{g}/{n}')
GITHUB = 4


class P:
    """ PurePosixPath of a known absolute path and unknown names below it """
    _vc_model = True

    def __init__(self, known, rest=()):
        self.known, self.rest = pathlib.PurePosixPath(known), tuple(rest)

    def __truediv__(self, o):
        if isinstance(o, str) and not is_sym(o) and not self.rest:
            return P(self.known / o)
        if isinstance(o, str) and not is_sym(o) or type(o) in (SText, Rel):
            return P(self.known, self.rest + (o,))
        raise TypeError(f'unsupported operand {o!r}')

    def __getattr__(self, n):
        if n.startswith('__') or self.rest:
            unsup(f'PurePosixPath.{n}')
        v = getattr(self.known, n)
        if callable(v):
            return model(lambda *a, **k: wrap(v(*a, **k)))
        return wrap(v)

    def as_posix(self):
        out = SText.of(self.known.as_posix())
        for r in self.rest:
            out = out + '/' + (r.text if type(r) is Rel else r)
        return out
    __str__ = __fspath__ = as_posix


def wrap(v):
    return P(v) if isinstance(v, pathlib.PurePath) else v


class Rel:
    """ the path of the file from the directory of its repository on """
    _vc_model = True

    def __init__(self, t):
        self.text = t

    def as_posix(self):
        return self.text
    __str__ = __fspath__ = as_posix


class Origin:
    def __init__(self, vc):
        self.vc, w = vc, self
        textmod.install(vc)
        vc.class_models[pathlib.PurePosixPath] = lambda *a: P(*a)
        self.rel = Rel(textmod.text(vc, 'rel', nonempty=True))
        self.form = vc.choose(len(FORMS), 'form')
        self.github = self.form < GITHUB
        i = vc.choose(len(NAMES), 'repository') if self.github else 0
        self.g, self.n = GROUPS[i % len(GROUPS)], NAMES[i]
        suf = ('', '.git', '.git/', '/')[vc.choose(4, 'suffix')]
        if self.n == 'x.git':
            suf = '.git' + suf.replace('.git', '')     # (only so can the name be told from the suffix)
        self.url = FORMS[self.form].format(g=self.g, n=self.n) + suf
        self.branch = textmod.text(vc, 'branch', nonempty=True)
        self.detached = self.unknown = None
        self.boom = git.exc.GitCommandError('rev-list', 128)
        remote = vc.obj(git.Remote, 'remote', stubs={'name': Prop(value='origin'), 'urls': Prop(get=lambda s: iter([w.url, 'https://github.com/wrong/one']))})
        refs = [vc.obj(git.Reference, f'ref{i}', stubs={'name': Prop(value=x)}) for i, x in enumerate(('main', 'origin/main', 'origin/dev', 'origin/feature/x'))]
        self.repo = vc.obj(git.Repo, 'repo', stubs={
            'remote': lambda s, name='origin': remote if name == 'origin' else unsup('another remote'), 'refs': Prop(value=refs),
            'active_branch': Prop(get=lambda s: w.active()), 'iter_commits': lambda s, rev=None, **k: w.commits()})
        self.p = vc.obj(RP, 'p', stubs={'repo': Prop(value=self.repo), 'repo_relative_path': Prop(value=self.rel), 'path_relative_repo': Prop(value=self.rel)})
        attrs_of(self.p)['_git'] = git

        def other(s, *a):
            unsup('a path from an address')
        vc.class_models[RP] = other

    def active(self):
        if self.detached is None:
            self.detached = self.vc.maybe('detached')
        if self.detached:
            raise TypeError('HEAD is a detached symbolic reference')
        return self.vc.obj(git.Head, 'active', stubs={'name': Prop(value=self.branch)})

    def commits(self):
        if self.unknown is None:
            self.unknown = self.vc.maybe('unknown revision')
        if self.unknown:
            raise self.boom
        return [self.vc.obj(git.Commit, 'c', stubs={'hexsha': Prop(value='0' * 40)})]


def revision(vc, w):
    """ what is given as revision, and what it is """
    k = vc.choose(6, 'revision: none, None, empty, HEAD, a name, a commit')
    sha = textmod.text(vc, 'sha', nonempty=True, only='0123456789abcdef')
    r = textmod.text(vc, 'ref', nonempty=True)
    vc._assume(bt(Not(r == 'HEAD')))
    if k == 5:
        return {'ref': vc.obj(git.Commit, 'commit', stubs={'__str__': lambda s: sha, 'hexsha': Prop(value=sha), '__eq__': lambda s, o: s is o})}, sha
    return [{}, {'ref': None}, {'ref': ''}, {'ref': 'HEAD'}, {'ref': r}][k], (w.branch if k < 4 else r)


@contract('a file at github', max_paths=60000, budget_s=200)
def uri(vc):
    w = Origin(vc)
    human = vc.maybe('human')
    kw, ref = revision(vc, w)
    f = RP.remote_uri_human if human else RP.remote_uri_machine
    r = vc.attempt(f, w.p, **kw)
    if not w.github:
        vc.prove('elsewhere there is none', isinstance(r.exc, NotImplementedError))
        vc.cover('elsewhere')
        return
    if not r.ok:
        vc.prove('only if there is no such revision', (ref is w.branch and w.detached and isinstance(r.exc, TypeError))
                 or (ref is not w.branch and w.unknown and r.exc is w.boom))
        vc.prove('a branch that only the remote has is a revision', ref is w.branch or And(*[Not(ref == n) for n in ('main', 'dev', 'feature/x')]))
        return
    vc.prove('there is a branch', ref is not w.branch or not w.detached)
    want = (f'https://github.com/{w.g}/{w.n}/blob/' if human else f'https://raw.githubusercontent.com/{w.g}/{w.n}/') + ref + '/' + w.rel.text
    got = SText.of(r.value)
    vc.prove('the address names group, repository, revision and file', got is not None and bool(got._vc_same(SText.of(want))))
    vc.cover('at github')


@contract('the api')
def api(vc):
    w = Origin(vc)
    k = vc.choose(2, 'endpoint')
    r = vc.attempt(RP.remote_uri_api, w.p, *(() if k == 0 else ('/releases',)))
    if w.github:
        vc.prove('the address names group, repository and what is asked for',
                 r.ok and r.value == f'https://api.github.com/repos/{w.g}/{w.n}' + ('' if k == 0 else '/releases'))
        vc.cover('at github')


@contract('a clone of a local repository')
def local(vc):
    textmod.install(vc)
    url = ('/some/where', '/some/where.git', '/a/b.git/')[vc.choose(3, 'where')]
    exists = vc.maybe('exists')
    human = vc.maybe('human')
    rel = Rel(textmod.text(vc, 'rel', nonempty=True))
    remote = vc.obj(git.Remote, 'remote', stubs={'name': Prop(value='origin'), 'urls': Prop(get=lambda s: iter([url]))})
    repo = vc.obj(git.Repo, 'repo', stubs={'remote': lambda s, name='origin': remote})
    p = vc.obj(RP, 'p', stubs={'repo': Prop(value=repo), 'repo_relative_path': Prop(value=rel)})
    attrs_of(p)['_git'] = git
    asked = []
    want = textmod.text(vc, 'uri', nonempty=True)

    def there(s, prefix, infix=None, ref=None):
        asked.append((prefix, infix, ref))
        return want
    x = vc.obj(RP, 'there', stubs={'_remote_uri': there})

    def div(s, k):
        vc.prove('the same file there', k is rel)
        return x

    def make(*a):
        vc.prove('the repository it was cloned from', a == (url,))
        return vc.obj(RP, 'origin', stubs={'exists': lambda s: exists, '__truediv__': div})
    vc.class_models[RP] = make
    kw, ref = [({}, None), ({'ref': 'dev'}, 'dev'), ({'ref': vc.obj(git.Commit, 'c', stubs={'__str__': lambda s: 'f' * 40})}, 'f' * 40)][vc.choose(3, 'revision')]
    r = vc.attempt(RP.remote_uri_human if human else RP.remote_uri_machine, p, **kw)
    if exists:
        vc.prove('what the repository it was cloned from answers', r.ok and r.value is want)
        vc.prove('asked the same', asked == [('https://github.com', 'blob', ref) if human else ('https://raw.githubusercontent.com', None, ref)])
        vc.cover('cloned')
    else:
        vc.prove('elsewhere there is none', isinstance(r.exc, NotImplementedError) and not asked)
