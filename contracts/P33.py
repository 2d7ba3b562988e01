"""Where a package is, and which tags are its own."""
import fnmatch
from pyvc.api import *
import git
from augpathlib import package as P
from augpathlib import exceptions as exc

ASSUMES = ['git describe --abbrev=0 --tags --match=GLOB gives the nearest tag that matches, or fails if none does',
           'the parts of an absolute path end at its anchor (the recursion of folder ends); glob(NAME) yields the entry of that name of a directory, if there is one',
           'the name of the package, and those of other packages, are fixed samples: pkg, pkg-more, other; versions begin with a digit']
PP = P.PackagePath
GCE = git.exc.GitCommandError
TAGS = ['pkg-1.2', 'pkg-more-3.4', 'other-5.6', '7.8', 'xpkg-1.2', 'v9']


def own(tag, prefix):
    return (tag == 'pkg-1.2') if prefix else tag == '7.8'


@contract('folder')
def folder(vc):
    isabs = vc.maybe('absolute')
    dots = vc.maybe('has ..')
    isdir = vc.maybe('a directory')
    has = isdir and vc.maybe('has setup.py')
    top = isabs and not dots and vc.maybe('the anchor')
    above = vc.obj(PP, 'above')
    real = vc.obj(PP, 'real', stubs={'folder': Prop(value=vc.any('of the real path'))})
    up = vc.obj(PP, 'up', stubs={'folder': Prop(value=above)})

    def glob(s, pat):
        vc.prove('only setup.py counts, in the directory itself', pat == 'setup.py' and isdir)
        if has:
            yield vc.obj(PP, 'setup')
    here = vc.obj(PP, 'setupfile', stubs={'exists': lambda s: has, 'is_file': lambda s: has})
    p = vc.obj(PP, 'p', stubs={'is_absolute': lambda s: isabs, 'parts': Prop(value=('/', 'a', '..') if dots else ('/',) if top else ('/', 'a')), 'resolve': lambda s: real,
                               'is_dir': lambda s: isdir, 'glob': glob, 'parent': Prop(get=lambda s: s if top else up), '__str__': lambda s: 'p',
                               '__truediv__': lambda s, o: here if o == 'setup.py' else unsup('another file')})
    r = vc.attempt(PP.folder.fget, p)
    if not isabs or dots:
        vc.prove('of what the path leads to', r.ok and r.value is real._vc_stubs['folder'].value)
        vc.cover('resolved')
    elif has:
        vc.prove('the directory that has the setup.py', r.ok and r.value is p)
        vc.cover('here')
    elif top:
        vc.prove('that there is none is reported', r.raised(ValueError))
        vc.cover('none')
    else:
        vc.prove('else that of the directory it is in', r.ok and r.value is above)
        vc.cover('above')


@contract('places')
def places(vc):
    """ setup_file, arg_folder and the need of a prefix """
    up = vc.obj(PP, 'up')
    isroot = vc.maybe('the package is the repository')
    eq = lambda s, o: s is o
    wd = vc.obj(PP, 'wd', stubs={'__eq__': eq, '__ne__': lambda s, o: s is not o, 'parent': Prop(value=up), 'name': Prop(value='a')})
    log = []

    def relto(s, o):
        vc.prove('relative to where the repository is', o is up)
        return rel
    rel = vc.any('relative')
    sf = vc.obj(PP, 'setup_file', stubs={'parent': Prop(get=lambda s: fo)})
    fo = wd if isroot else vc.obj(PP, 'folder', stubs={'__eq__': eq, '__ne__': lambda s, o: s is not o, 'name': Prop(value='ab'[vc.choose(2, 'name')])})

    def div(s, o):
        log.append(o)
        return sf
    fo._vc_stubs['__truediv__'] = div
    fo._vc_stubs['relative_to'] = relto
    p = vc.obj(PP, 'p', stubs={'folder': Prop(value=fo), 'working_dir': Prop(value=wd)})
    vc.prove('the setup.py in the folder', vc.call(PP.setup_file.fget, p) is sf and log == ['setup.py'])
    vc.prove('the folder, from the repository on', vc.call(PP.arg_folder.fget, p) is rel)
    vc.prove('a prefix exactly if the package is not the repository', bool(vc.call(PP.tag_prefix.fget, p)) is not isroot)
    vc.cover('places')


@contract('tag')
def tag(vc):
    prefix = vc.maybe('prefix')
    near = TAGS[vc.choose(len(TAGS), 'nearest tag')]
    far = [None, *TAGS][vc.choose(len(TAGS) + 1, 'one before')]

    def describe(s, *a, **k):
        if k or {'--abbrev=0', '--tags'} - set(a) or len(a) != 3:
            unsup(f'git describe {a}')
        m = next(x for x in a if x.startswith('--match='))[8:]
        for t in (near, far):
            if t is not None and fnmatch.fnmatchcase(t, m):
                return t
        raise GCE(['git', 'describe'], 128)
    g = vc.obj(git.Git, 'git', stubs={'describe': describe})
    repo = vc.obj(git.Repo, 'repo', stubs={'git': Prop(value=g)})
    p = vc.obj(PP, 'p', stubs={'repo': Prop(value=repo), 'tag_prefix': Prop(value=prefix), 'arg_packagename': Prop(value='pkg')})
    attrs_of(p)['_git'] = git
    r = vc.attempt(PP.tag.fget, p)
    want = next((t for t in (near, far) if t is not None and own(t, prefix)), None)
    vc.prove('the nearest tag of the package itself, if there is one', r.ok and r.value == want)
    vc.cover('tag' if want else 'none')


@contract('version_tag')
def version_tag(vc):
    prefix = vc.maybe('prefix')
    none = vc.maybe('no tag')
    t = None if none else 'pkg-1.2' if prefix else '1.2'
    out = vc.any('version')

    def parse(s):
        vc.prove('the version is what follows the name', s == '1.2')
        return out
    vc.stubs[P.parse_version] = parse
    p = vc.obj(PP, 'p', stubs={'tag': Prop(value=t), 'tag_latest_github': Prop(value=t), 'tag_prefix': Prop(value=prefix), 'arg_packagename': Prop(value='pkg')})
    for f in (PP.version_tag, PP.version_latest_github):
        r = vc.attempt(f.fget, p)
        vc.prove('the version of the tag', r.ok and (r.value is None if none else r.value is out))
    vc.cover('version')


@contract('tag_latest_github')
def tag_github(vc):
    prefix = vc.maybe('prefix')
    n = vc.choose(4, 'releases')
    rel = None if not n else [{'tag_name': TAGS[vc.choose(len(TAGS), f'release {i}')]} for i in range(n - 1)]
    p = vc.obj(PP, 'p', stubs={'github_json': Prop(value=rel), 'tag_prefix': Prop(value=prefix), 'arg_packagename': Prop(value='pkg')})
    r = vc.attempt(PP.tag_latest_github.fget, p)
    want = next((x['tag_name'] for x in rel or () if own(x['tag_name'], prefix)), None)
    vc.prove('the latest release of the package itself, if there is one', r.ok and r.value == want)
    vc.cover('tag' if want else 'none')


@contract('the latest release', max_paths=4000)
def latest(vc):
    n = vc.choose(5, 'releases')
    none = n == 4
    vs = [vc.int(f'version {i}') for i in range(n % 4)]
    names = [f'v{i}' for i in range(n % 4)]
    vc.stubs[P.parse_version] = lambda s: vs[names.index(s)] if s in names else unsup('another version')
    p = vc.obj(PP, 'p', stubs={'pypi_json': Prop(value=None if none else {'releases': {k: [] for k in names}, 'info': {'version': names[0]} if names else {}})})
    r = vc.attempt(PP.version_latest_released.fget, p)
    if none:
        vc.prove('what was never released has none', r.ok and r.value is None)
    elif vs:
        vc.prove('one of the releases, and none is later', r.ok and And(Or(*[r.value == v for v in vs]), *[r.value >= v for v in vs]))
        vc.cover('some', len(vs) > 1)
        r = vc.attempt(PP.version_latest_pypi.fget, p)
        vc.prove('the version the index gives', r.ok and r.value is vs[0])


@contract('module')
def module(vc):
    n = vc.choose(4, 'packages')
    names = ['pkg', 'pkg.sub', 'test', 'mod']
    pk = [names[vc.choose(4, f'package {i}')] for i in range(n)]
    out = vc.any('module')
    fo = vc.obj(PP, 'folder', stubs={'__truediv__': lambda s, o: out if o == 'pkg' else unsup('another module')})

    class Dist:
        _vc_model = True
        packages = pk
    p = vc.obj(PP, 'p', stubs={'folder': Prop(value=fo), 'setup_dist': Prop(value=Dist()), 'arg_packagename': Prop(value='pkg')})
    r = vc.attempt(PP.module.fget, p)
    if 'pkg' in pk:
        vc.prove('the module named like the package', r.ok and r.value is out)
        vc.cover('module')
    else:
        vc.prove('a package without such a module is refused', r.raised(NotImplementedError))
        vc.cover('none')


@contract('commits_since_last_release')
def commits(vc):
    """ of git's log of the files of the package, from its tag on """
    t = [None, '', 'pkg-1.2'][vc.choose(3, 'tag')]
    known = vc.maybe('files known')
    n = vc.choose(3, 'files') if known else 0
    lines = ["'2026-01-01 me a1 one'", "'2026-01-02 me b2 it's 'so''", "''' '"][:vc.choose(4, 'commits')]
    fs = [vc.obj(PP, f'file {i}') for i in range(n)]

    def log(s, *a, **k):
        if k:
            unsup('other options of git log')
        a = [*a]
        if '--' not in a:
            unsup('git log without --')
        i = a.index('--')
        opts, files = a[:i], a[i + 1:]
        vc.prove('each in one line, in quotes', [o for o in opts if str(o).startswith('-')] == ["--format='%aI %an %h %s'"])
        vc.prove('those after the tag, if there is one', [o for o in opts if not str(o).startswith('-')] == [f'{t}..HEAD' if t else 'HEAD'])
        want = fs if known else [fo]
        vc.prove('that touch the files of the package, or else its folder', len(files) == len(want) and all(x is y for x, y in zip(files, want)))
        return '\n'.join(lines)

    def rel(s):
        if not known:
            raise FileNotFoundError('MANIFEST.in')
        return [f'f{i}' for i in range(n)]
    fo = vc.obj(PP, 'folder', stubs={'__truediv__': lambda s, o: fs[int(o[1:])]})
    g = vc.obj(git.Git, 'git', stubs={'log': log})
    repo = vc.obj(git.Repo, 'repo', stubs={'git': Prop(value=g)})
    vc.builtin_models = dict(vc.builtin_models)
    vc.builtin_models[print] = lambda *a, **k: None
    p = vc.obj(PP, 'p', stubs={'repo': Prop(value=repo), 'folder': Prop(value=fo), 'tag': Prop(value=t), 'release_files': Prop(get=rel)})
    r = vc.attempt(PP.commits_since_last_release, p)
    vc.prove('one entry for each, in the order of git', r.ok and [*r.value] == [x[1:-1] for x in lines])
    vc.cover('commits')
