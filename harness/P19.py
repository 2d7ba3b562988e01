"""Nested repositories: which one a path belongs to, opening, making, cloning and removing."""
import os
import pathlib
import subprocess
import P20
RULE = 'up to 8 directories some of which are repositories (.git a directory or a file), paths above, in and below, absolute, relative and from the home directory; init, clone, clone_from, rmtree in random histories'


def cases(rng, tier):
    yield {'dirs': [[0, 'a', 1], [1, 'b', 0], [2, 'c', 1], [3, 'd', 0], [0, 'e', 0]], 'acts': [['init', 0], ['init', 4], ['init', 6], ['clone', 5], ['init', 7], ['rmtree', 1], ['init', 1], ['clone_from', 4]]}
    yield {'dirs': [[0, 'a', 2], [1, 'a.git', 0], [2, '.gitx', 0], [0, 'g.git', 1]], 'acts': [['init', 2], ['clone', 9], ['rmtree', 1], ['clone_from', 0], ['gone', 1], ['init', 1], ['stale', 4], ['init', 4]]}
    yield {'dirs': [[0, 'b.c', 1]], 'acts': [['clone_from', 0], ['clone_from', 0], ['init', 1]], 'home': 1}
    yield {'dirs': [[0, 'a', 1], [1, 'n', 0]], 'acts': [['new', 2], ['new', 1], ['new', 0], ['fail', 0]]}
    while True:
        n = rng.randint(1, 8)
        yield {'dirs': [[rng.randint(0, i), rng.choice(['a', 'b', 'c.git', 'd.x', '.gitx', 'git', ' ', 'e e']), rng.choice([0, 0, 0, 1, 2])] for i in range(n)],
               'acts': [[rng.choice(['init', 'init', 'clone', 'clone_from', 'rmtree', 'stale', 'gone', 'new', 'fail']), rng.randrange(12)] for _ in range(rng.randint(1, 5))],
               'home': rng.random() < .2}


setup = P20.setup


def nearest(p):
    while True:
        if os.path.lexists(os.path.join(p, '.git')):
            return p
        if p == '/':
            return None
        p = os.path.dirname(p)


def check(RepoPath, exc, base, dirs, home):
    for d in [os.path.join(dirs[-1], 'not', 'here')] + dirs[::-1] + [os.path.join(dirs[0], 'f.txt'), '/']:
        want = nearest(d)
        forms = [d]
        if d != '/':
            forms.append(os.path.relpath(d))
        if home and d.startswith(home + '/'):
            forms.append('~/' + os.path.relpath(d, home))
        for f in forms:
            if '..' in f.split('/'):
                continue
            p = RepoPath(f)
            got = p.working_dir
            if (None if got is None else str(got)) != want:
                return f'working_dir of {f} is {got}, expected {want}'
            if want is None:
                for attr in ('repo', 'repo_relative_path'):
                    try:
                        x = getattr(p, attr)
                        return f'{attr} of {f} is {x}'
                    except exc.NotInRepoError:
                        pass
                continue
            r = p.repo
            if r is not RepoPath(f).repo or r is not RepoPath(want).repo:
                return f'another repo the second time: {f}'
            if r.working_dir != want:
                return f'repo of {f} is {r}'
            if os.path.normpath(os.path.join(want, str(p.repo_relative_path))) != os.path.normpath(d) or p.repo_relative_path.is_absolute():
                return f'repo_relative_path of {f} is {p.repo_relative_path}'


def snap(base):
    return sorted(os.path.join(d, n) for d, ds, fs in os.walk(base) for n in ds + fs if '/.git/' not in d)


def run(c):
    from augpathlib import RepoPath, exceptions as exc
    RepoPath._repos.clear()
    try:
        return run_(c, RepoPath, exc)
    finally:
        for r in RepoPath._repos.values():
            r.close()
        RepoPath._repos.clear()


def run_(c, RepoPath, exc):
    base = os.getcwd()
    if nearest(base) is not None:
        raise RuntimeError('in a repository')
    home = base if c.get('home') else None
    os.environ['HOME'] = home or os.path.dirname(base)
    os.mkdir('t')
    dirs = [os.path.join(base, 't')]
    for up, name, kind in c['dirs']:
        d = os.path.join(dirs[up % len(dirs)], name)
        if os.path.lexists(d):
            continue
        os.mkdir(d)
        dirs.append(d)
        if kind == 1:
            P20.git('init', '-q', d)
        elif kind == 2:
            P20.git('init', '-q', '--separate-git-dir', os.path.join(base, f'sep{len(dirs)}'), d)
    P20.git('init', '-q', '-b', 'main', 'src.git')
    os.chdir('src.git')
    open('file', 'w').close()
    P20.git('add', 'file')
    P20.git('commit', '-qm', 'm')
    P20.git('commit', '-qm', 'n', '--allow-empty')
    os.chdir(base)
    P20.git('clone', '-q', 'src.git', 'other.x')
    bad = check(RepoPath, exc, base, dirs, home)
    if bad:
        return bad
    for r, want in (('digit.git', 'digit'), ('x.git.git', 'x.git'), ('a.gitx', 'a.gitx'), ('git', 'git'), ('t.i.g', 't.i.g'), ('.git', '.git'), ('a b.git', 'a b'), ('git.git', 'git')):
        for pre in ('', '/a/', 'https://example.org/b.git/', 'git@example.org:c/'):
            got = RepoPath(base).clone_path(pre + r)
            if type(got) is not RepoPath or str(got) != os.path.join(base, want):
                return f'clone_path of {pre + r} is {got}'
    os.chdir(dirs[0])
    for n, (act, i) in enumerate(c['acts']):
        d = dirs[i % len(dirs)]
        if act in ('stale', 'gone', 'rmtree'):
            if not os.path.isdir(d) or d == dirs[0]:
                continue
            if act == 'rmtree':
                old = RepoPath._repos.get(RepoPath(d))
                calls = []
                (RepoPath(d) / 'nothing').rmtree(ignore_errors=True)
                kw = {'ignore_errors': True} if (i + n) % 2 else {}
                (RepoPath(d) / 'nothing').rmtree(onerror=lambda *a: calls.append(a))
                if len(calls) != 1:
                    return 'rmtree did not report the error'
                RepoPath(d).rmtree(**kw)
                if os.path.lexists(d) or RepoPath(d) in RepoPath._repos or (old is not None and old in RepoPath._repos.values()):
                    return 'rmtree left it, or the repo'
            else:
                subprocess.run(['rm', '-rf', d + ('/.git' if act == 'stale' else '')], check=True)
            dirs = [x for x in dirs if os.path.isdir(x)]
        else:
            at = d
            if act == 'new':
                at = os.path.join(d, f'new{n}', 'x')
            elif act == 'clone_from':
                at = os.path.join(d, ['src', 'other.x'][i % 2])
            owner, before = nearest(at), snap(base)
            repos = dict(RepoPath._repos)
            remote = [os.path.join(base, 'src.git'), os.path.join(base, 'other.x')][i % 2]
            depth = [None, None, 1][(i + n) % 3]
            if depth and act.startswith('clone'):
                remote = 'file://' + remote
            p = RepoPath(at)
            empty = not os.path.isdir(at) or not os.listdir(at)
            try:
                if act == 'clone':
                    out = p.init(pathlib.Path(remote) if depth is None and i % 3 else remote, **({} if depth is None else {'depth': depth}))
                elif act == 'clone_from':
                    if str(RepoPath(d).clone_path(remote)) != at:
                        return f'clone_path is {RepoPath(d).clone_path(remote)}, not {at}'
                    out = RepoPath(d).clone_from(remote, **({} if depth is None else {'depth': depth}))
                    if type(out) is not RepoPath or str(out) != at:
                        return f'clone_from gave {out!r}'
                    out = out.repo
                elif act == 'fail':
                    if owner is not None or os.path.exists(at + '/zz'):
                        continue
                    p = RepoPath(at) / 'zz'
                    try:
                        p.init(os.path.join(base, 'nothing here'))
                        return 'cloned nothing'
                    except exc.RepoExistsError as e:
                        return f'{e!r}'
                    except Exception:
                        pass
                    if p in RepoPath._repos:
                        return 'kept a repo that was not made'
                    continue
                else:
                    out = p.init()
            except exc.RepoExistsError:
                if owner is None:
                    return f'{act} at {at} refused'
                if snap(base) != before or {k: v for k, v in RepoPath._repos.items() if k in repos} != repos:
                    return 'refused, but something changed'
                continue
            except Exception as e:
                if act in ('clone', 'clone_from') and owner is None and not empty:
                    continue
                return f'{act} at {at} (in {owner}): {type(e).__name__}: {str(e)[:300]}'
            if owner is not None:
                return f'{act} made a repository at {at} in {owner}'
            if not os.path.isdir(os.path.join(at, '.git')) or out.working_dir != at or p.repo is not out:
                return f'{act} made {out} for {at}, repo {p.repo}'
            if act.startswith('clone'):
                if not os.path.isfile(os.path.join(at, 'file')) or next(out.remote().urls) != remote:
                    return f'not a clone of {remote}'
                if len(list(out.iter_commits())) != (depth or 2):
                    return f'depth {depth}, {len(list(out.iter_commits()))} commits'
            if at not in dirs:
                dirs.append(at)
        bad = check(RepoPath, exc, base, dirs, home)
        if bad:
            return f'after {act} {i}: {bad}'
