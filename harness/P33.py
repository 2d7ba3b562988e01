"""Packages at and below the top of a repository, with tags of several packages."""
import contextlib
import io
import os
import P20
import P19
RULE = 'up to 8 directories some with a setup.py, paths in and below, absolute, relative, with .. and through links; up to 6 tags or releases of three packages in any order'
V = ['0.9', '1.0.dev1', '1.0a2', '1.0rc1', '1.0', '1.0.post1', '1.2', '1.10', '2.0', '10.0', '1!0.1']
TAGS = ['pkg-1.2', 'pkg-more-3.4', 'other-5.6', '7.8', 'pkg-2.0.dev1', '9.0', 'pkg-more-9', 'xpkg-1.0', 'v9', '2-3']


def cases(rng, tier):
    yield {'dirs': [[0, 'pkg', 1], [1, 'sub', 0], [0, 'more', 1]], 'tags': [0, 1, 2, 3], 'top': False}
    yield {'dirs': [[0, 'pkg', 1]], 'tags': [1, 3, 0, 6, 8], 'top': True}
    yield {'dirs': [[0, 'r', 1], [1, 'setup.py.d', 0]], 'tags': [1, 3, 0], 'top': False}
    yield {'dirs': [[0, 'pkg', 0]], 'tags': [1, 2], 'top': True}
    yield {'dirs': [[0, 'pkg', 0], [1, 'x', 0]], 'tags': [1, 2], 'top': False, 'above': True}
    while True:
        yield {'dirs': [[rng.randint(0, 3), rng.choice(['pkg', 'a', 'b', 'r', 'setup.py.d', '.c']), rng.choice([0, 0, 1])] for _ in range(rng.randint(1, 7))],
               'tags': [rng.randrange(len(TAGS)) for _ in range(rng.randint(0, 6))], 'top': rng.random() < .5, 'above': rng.random() < .1}


setup = P20.setup


def own(t, prefix):
    t = t[4:] if prefix and t.startswith('pkg-') else '' if prefix else t
    return t[:1].isdigit()


def run(c):
    from augpathlib.package import PackagePath
    from augpathlib import RepoPath
    RepoPath._repos.clear()
    try:
        return run_(c, PackagePath)
    finally:
        for r in RepoPath._repos.values():
            r.close()
        RepoPath._repos.clear()


class Known:
    files = None


class Dist:
    packages = ['test', 'pkg.x', 'pkg']

    def get_name(self):
        return 'pkg'

    def get_version(self):
        return '1.0'


def run_(c, PackagePath_):
    class PackagePath(PackagePath_):
        @property
        def release_files(self):
            if Known.files is None:
                raise FileNotFoundError('MANIFEST.in')
            return Known.files

    base = os.getcwd()
    git = P20.git
    os.mkdir('r')
    top = os.path.join(base, 'r')
    os.chdir(top)
    git('init', '-q', '-b', 'main')
    dirs, packs = [top], set()
    if c.get('above'):
        packs.add(base)
    if c['top']:
        packs.add(top)
    for up, name, has in c['dirs']:
        d = os.path.join(dirs[up % len(dirs)], name)
        if not os.path.lexists(d):
            os.mkdir(d)
            dirs.append(d)
            if has:
                packs.add(d)
    for d in packs:
        open(os.path.join(d, 'setup.py'), 'w').close()
    open('file', 'w').close()
    git('add', '-A')
    git('commit', '-qm', 'base')
    tags = []
    commits = []

    def commit(n):
        d = dirs[n % len(dirs)]
        if n % 2:
            with open(os.path.join(d, 'changed'), 'a') as f:
                f.write('x')
            git('add', '-A')
        commits.insert(0, (f"it's 'c{len(commits)}'", d if n % 2 else None, len(tags)))
        git('commit', '-qm', commits[0][0], '--allow-empty')
    for t in c['tags']:
        if TAGS[t] not in tags:
            commit(t)
            git('tag', TAGS[t])
            tags.insert(0, TAGS[t])
    commit(3)
    os.symlink(dirs[-1], os.path.join(base, 'link'))
    for d in dirs[1:]:
        want = next((x for x in up_(os.path.dirname(d)) if x in packs), None)
        try:
            got = str(PackagePath(os.path.join(d, '..')).folder)
        except ValueError:
            got = None
        if got != want:
            return f'folder of {d}/.. is {got}, expected {want}'
    for d in dirs:
        want = next((x for x in up_(d) if x in packs), None)
        for f in (d, os.path.relpath(d), os.path.join(d, 'x', '..'), os.path.join(d, 'file'), os.path.join(d, 'setup.py'), os.path.join(base, 'link') if d == dirs[-1] else d):
            p = PackagePath(f)
            if f.endswith('/link') and want != d:
                continue        # not followed
            w = f if f.endswith('/link') else want
            try:
                got = str(p.folder)
            except ValueError:
                got = None
            if got != w:
                return f'folder of {f} is {got}, expected {w}'
            if w is not None and str(p.setup_file) != os.path.join(w, 'setup.py'):
                return f'setup_file of {f} is {p.setup_file}'
        if want is None:
            continue
        p = PackagePath(d)
        p._setup_dist = Dist()
        prefix = want != top
        if bool(p.tag_prefix) is not prefix or str(p.arg_folder) != os.path.relpath(want, base):
            return f'prefix {p.tag_prefix}, folder {p.arg_folder} of {d}'
        if str(p.module) != os.path.join(want, 'pkg') or str(p.module_init_file) != os.path.join(want, 'pkg', '__init__.py'):
            return f'module of {d} is {p.module}'
        wt = next((t for t in tags if own(t, prefix)), None)
        if p.tag != wt:
            return f'tag of {d} is {p.tag}, expected {wt}, prefix {prefix}, of {tags}'
        p._github_json = [{'tag_name': t} for t in tags] or None
        if p.tag_latest_github != wt:
            return f'tag_latest_github of {d} is {p.tag_latest_github}, expected {wt}, of {tags}'
        after = len(tags) - tags.index(wt) if wt else 0
        for known in (True, False):
            Known.files = ['changed', 'more'] if known else None
            if want == base:
                break   # not in the repository
            with contextlib.redirect_stdout(io.StringIO()):
                got = p.commits_since_last_release()
            wc = [s for s, x, k in commits if k >= after and x is not None and (x == want if known else (x + '/').startswith(want + '/'))]
            if not known and not wt:
                wc.append('base')
            if [g.split(' ', 3)[3] for g in got] != wc:
                return f'commits_since_last_release of {d} gives {got}, expected {wc}'
        vers = [V[i % len(V)] for i in c['tags']]
        p._pypi_json = {'releases': {v: [] for v in vers}, 'info': {'version': vers[0]}} if vers else None
        if vers and str(p.version_latest_released) != max(vers, key=V.index):
            return f'version_latest_released of {vers} is {p.version_latest_released}'
        if wt != '2-3':
            wv = None if wt is None else wt[4:] if prefix else wt
            for a in ('version_tag', 'version_latest_github'):
                got = getattr(p, a)
                if (None if got is None else str(got)) != wv:
                    return f'{a} of {d} is {got}, expected {wv}'


def up_(d):
    while True:
        yield d
        if d == '/':
            return
        d = os.path.dirname(d)
