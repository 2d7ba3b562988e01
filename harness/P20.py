"""Random uncommitted states of small repositories: one path committed, or a reference checked out and left again."""
import os
import subprocess
RULE = 'repositories of up to 6 files with staged, unstaged, untracked and ignored changes, deletions and earlier stashes; one path committed, or a branch, remote branch or tag entered and left, with and without changes and failures in the block'
NAMES = ['f0', 'f1', 'd/f2', 'f3', 'd/f4', 'ign']


def cases(rng, tier):
    yield {'do': 'commit', 'path': 0, 'ops': [['w', 0, 1], ['w', 1, 2]], 'stashes': 1, 'how': 'tree', 'fail': 0}
    yield {'do': 'commit', 'path': 0, 'ops': [], 'stashes': 1, 'how': 'index', 'fail': 0}
    yield {'do': 'commit', 'path': 0, 'ops': [['w', 0, 1], ['a', 0, 0], ['w', 1, 2], ['a', 1, 0], ['w', 4, 3]], 'stashes': 0, 'how': 'index', 'fail': 1}
    yield {'do': 'commit', 'path': 4, 'ops': [['w', 4, 1], ['w', 1, 2], ['w', 5, 2]], 'stashes': 2, 'how': 'tree', 'fail': 0, 'empty': 1}
    yield {'do': 'commit', 'path': 0, 'ops': [['w', 3, 1], ['a', 3, 0], ['w', 0, 2]], 'stashes': 0, 'how': 'index', 'fail': 0}
    yield {'do': 'commit', 'path': 2, 'ops': [['d', 2, 1]], 'stashes': 1, 'how': 'index', 'fail': 0}
    yield {'do': 'add', 'path': 2, 'ops': [['w', 2, 1], ['w', 4, 0], ['w', 0, 2]], 'stashes': 0}
    yield {'do': 'commit', 'path': 0, 'ops': [['w', 0, 1], ['w', 1, 2]], 'stashes': 1, 'how': 'tree', 'fail': 0, 'hook': 1}
    yield {'do': 'commit', 'path': 2, 'ops': [['w', 2, 1], ['a', 2, 0], ['w', 0, 2]], 'stashes': 0, 'how': 'index', 'fail': 1, 'hook': 0}
    for ref in ('other', 'same', 'tag', 'origin', 'bad', 'unborn', 'detached', 'blocked'):
        yield {'do': 'with', 'ref': ref, 'ops': [['w', 0, 1], ['w', 4, 2], ['w', 5, 2]], 'stashes': 1, 'block': [['w', 1, 3]], 'fail': 0}
        yield {'do': 'with', 'ref': ref, 'ops': [], 'stashes': 1, 'block': [], 'fail': 1}
        yield {'do': 'with', 'ref': ref, 'ops': [], 'stashes': 1, 'block': [['w', 1, 3], ['a', 1, 0], ['w', 5, 7]], 'fail': 0}
        yield {'do': 'with', 'ref': ref, 'ops': [['w', 3, 1], ['d', 1, 2]], 'stashes': 0, 'block': [], 'fail': 1}
        for inner in ('again', 'main', 'other', '--detach'):
            for fail in (0, 1):
                yield {'do': 'with', 'ref': ref, 'ops': [['w', 0, 1], ['w', 5, 2]], 'stashes': 1, 'block': [['w', 1, 3]], 'fail': fail, 'inner': inner}
    while True:
        def ops(n):
            return [[rng.choice('wwwad'), rng.randrange(6), rng.randrange(4)] for _ in range(rng.randint(0, n))]
        if rng.random() < .1:
            yield {'do': 'add', 'path': rng.randrange(5), 'ops': ops(6), 'stashes': 0}
        elif rng.random() < .5:
            yield {'do': 'commit', 'path': rng.randrange(5), 'ops': ops(6), 'stashes': rng.randrange(3), 'how': rng.choice(['tree', 'tree', 'index']), 'fail': rng.random() < .2,
                   'empty': rng.random() < .1, 'hook': rng.choice([None] * 6 + [0, 1, 2])}
        else:
            yield {'do': 'with', 'ref': rng.choice(['other', 'other', 'same', 'tag', 'origin', 'bad', 'detached', 'blocked']), 'ops': ops(6), 'stashes': rng.randrange(3), 'block': ops(4),
                   'fail': rng.random() < .3, 'inner': rng.choice([None, None, None, 'again', 'main', 'other', '--detach'])}


ENV = dict(GIT_AUTHOR_NAME='a', GIT_AUTHOR_EMAIL='a@b', GIT_COMMITTER_NAME='c', GIT_COMMITTER_EMAIL='c@b', GIT_CONFIG_NOSYSTEM='1', LC_ALL='C',
           GIT_CONFIG_GLOBAL='/dev/null')


def setup():
    os.environ.update(ENV)
    for k in list(os.environ):
        if k.startswith('GIT_') and k not in ENV:
            del os.environ[k]


def git(*a, ok=True):
    r = subprocess.run(['git', *a], capture_output=True, stdin=subprocess.DEVNULL)
    if ok and r.returncode:
        raise RuntimeError(f'{a}: {r.stderr}')
    return r.stdout.decode('utf-8', 'surrogateescape')


def tree():
    out = {}
    for d, ds, fs in os.walk('.'):
        if '.git' in ds:
            ds.remove('.git')
        for f in fs:
            p = os.path.normpath(os.path.join(d, f))
            with open(p, 'rb') as g:
                out[p] = g.read()
    return out


def apply(ops):
    for op, i, k in ops:
        n = NAMES[i]
        if op == 'w':
            os.makedirs(os.path.dirname(n) or '.', exist_ok=True)
            with open(n, 'w') as f:
                f.write(f'content {k}\n' * (k + 1))
        elif op == 'a':
            if n != 'ign':
                git('add', '-A', '--', n, ok=False)
        elif os.path.exists(n):
            os.remove(n)


def stashes():
    return git('stash', 'list', '--format=%H').split()


def at(rev):
    return {l.split('\t')[1]: l.split()[2] for l in git('ls-tree', '-r', rev).splitlines()}


def blob(data):
    import hashlib
    return hashlib.sha1(b'blob %d\0' % len(data) + data).hexdigest()


def run(c):
    from augpathlib import RepoPath, exceptions as exc
    import git as G
    RepoPath._repos.clear()
    os.mkdir('r')
    os.chdir('r')
    base = os.getcwd()
    git('init', '-q', '-b', 'main')
    empty = c.get('empty')
    if not empty:
        for n, t in [('f0', 'one\n'), ('f1', 'two\n'), ('d/f2', 'three\n'), ('.gitignore', 'ign\n')]:
            os.makedirs(os.path.dirname(n) or '.', exist_ok=True)
            with open(n, 'w') as f:
                f.write(t)
        git('add', '-A')
        git('commit', '-qm', 'init')
        for i in range(c['stashes']):
            with open('f0', 'w') as f:
                f.write(f'stash {i}\n')
            git('stash', 'push')
        git('branch', 'other')
        git('checkout', '-q', 'other')
        for n, t in [('f0', 'ONE\n'), ('f3', 'THREE\n')]:
            with open(n, 'w') as f:
                f.write(t)
        git('add', '-A')
        git('commit', '-qm', 'other')
        git('tag', 'tag')
        git('checkout', '-q', 'main')
        git('update-ref', 'refs/remotes/origin/other', 'other')
        old = stashes()
        if len(old) != c['stashes']:
            raise RuntimeError('setup')
    apply(c['ops'])
    if not empty and any(os.path.lexists(n) for n in git('diff', '--cached', '--name-only', '--diff-filter=D').split()):
        return      # git itself cannot stash and restore this
    fn = {'commit': commit, 'with': with_, 'add': add}[c['do']]
    try:
        return fn(c, RepoPath, exc, G, base)
    finally:
        for r in RepoPath._repos.values():
            r.close()
        RepoPath._repos.clear()


def entries():
    return {l.split('\t')[1]: l.split()[1] for l in git('ls-files', '-s').splitlines()}


def add(c, RepoPath, exc, G, base):
    name = NAMES[c['path']]
    if not os.path.lexists(name):
        return
    before, index = tree(), entries()
    (RepoPath(base) / name).add_index()
    if tree() != before or entries() != {**index, name: blob(before[name])}:
        return f'index {index} -> {entries()}'


class Fault(Exception):
    pass


class Interrupt(BaseException):
    pass


def commit(c, RepoPath, exc, G, base):
    name = NAMES[c['path']]
    p = RepoPath(base) / name
    before, old, head = tree(), stashes(), {} if c.get('empty') else at('HEAD')
    was = git('rev-parse', '-q', '--verify', 'HEAD', ok=False).strip()
    index = {l.split('\t')[1]: l.split()[1] for l in git('ls-files', '-s').splitlines()}
    if c['how'] == 'tree' and not os.path.lexists(name):
        return
    if c['how'] == 'index' and os.path.lexists(name) and name not in index:
        return
    real = G.IndexFile.commit
    hook = [c['hook']] if c.get('hook') is not None and not c.get('empty') else []
    if hook:
        # something else works on a file while the commit is made
        with open('.git/hooks/pre-commit', 'w') as f:
            f.write(f'#!/bin/sh\necho hook >> {NAMES[hook[0]]}\n')
        os.chmod('.git/hooks/pre-commit', 0o755)
    if c['fail']:
        def boom(self, *a, **k):
            raise Fault()
        G.IndexFile.commit = boom
    try:
        com = (p.commit_from_working_tree if c['how'] == 'tree' else p.commit)('the message', date='2001-02-03T04:05:06+0000')
        done = True
    except Fault:
        done = False
    except Exception as e:
        return f'commit raised {type(e).__name__}: {str(e)[:600]}'
    finally:
        G.IndexFile.commit = real
    if done == bool(c['fail']):
        return 'the failure was lost'
    if hook and len(stashes()) == len(old) + 1 and stashes()[1:] == old:
        # the hook is in the way of what was stashed, so that stays stashed
        kept = at('stash@{0}')
        lost = [k for k in before if blob(before[k]) != kept.get(k, head.get(k)) and blob(before[k]) != head.get(k)
                and tree().get(k) != before[k]]
        return f'lost: {lost}' if lost else None
    if hook:
        lost = [k for k in before if k != NAMES[hook[0]] and tree().get(k) != before[k]]
        return f'stashes: {old} -> {stashes()}' if stashes() != old else f'lost: {lost}' if lost else None
    if stashes() != old:
        return f'stashes: {old} -> {stashes()}'
    after = tree()
    diff = {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
    if diff:
        return f'working tree changed: { {k: (before.get(k), after.get(k)) for k in diff} }'
    if not done:
        if git('rev-parse', '-q', '--verify', 'HEAD', ok=False).strip() != was:
            return 'HEAD moved'
        return
    if git('rev-parse', 'main').strip() != com.hexsha or git('symbolic-ref', 'HEAD').strip() != 'refs/heads/main':
        return 'not on the branch'
    if git('log', '-1', '--format=%B|%ad', '--date=format:%Y-%m-%d').strip() != 'the message|2001-02-03':
        return 'message or date: ' + repr(git('log', '-1', '--format=%B|%ad', '--date=format:%Y-%m-%d'))
    new = at('HEAD')
    want = dict(head)
    if c.get('empty'):
        want = {**index, name: blob(before[name])} if name in before else index
    elif name in before:
        want[name] = blob(before[name])
    else:
        want.pop(name, None)
    if new != want:
        return f'committed {new}, expected {want}'


def with_(c, RepoPath, exc, G, base):
    repo = RepoPath(base).repo
    kind = c['ref']
    branch = 'main'
    known = {r.name for r in repo.refs}
    for n in sorted(known) + ['ain', 'mai', 'Main', 'refs/heads/main', 'origin', '', 'main ', 'other~1', 'HEAD']:
        try:
            r = repo.getRef(n)
            if r.name != n:
                return f'asked for the reference {n!r}: {r!r}'
        except ValueError:
            if n in known:
                return f'no reference {n!r}'
    if kind in ('other', 'blocked'):
        ref = repo.getRef('other')
    elif kind == 'same':
        ref = repo.getRef('main')
    elif kind == 'tag':
        ref = repo.getRef('tag')
    elif kind == 'origin':
        ref = repo.getRef('origin/other')
    elif kind == 'bad':
        ref = G.Head(repo, 'refs/heads/nothere')
    elif kind == 'unborn':
        ref = G.Head(repo, 'refs/heads/unborn')
    else:
        ref = repo.getRef('other')
        git('stash', '--all', ok=False)
        git('stash', 'drop', ok=False) if len(stashes()) > c['stashes'] else None
        git('checkout', '-q', '--detach')
    before, old, head = tree(), stashes(), git('rev-parse', 'HEAD')
    sym = git('rev-parse', '--abbrev-ref', 'HEAD')
    entered = False
    err = None
    real = G.Head.checkout

    def boom(self, *a, **k):
        G.Head.checkout = real
        raise Interrupt() if c['fail'] else Fault('checkout')
    if kind == 'blocked':
        G.Head.checkout = boom
    try:
        with ref as got:
            entered = True
            if got is not ref:
                return 'with gave another reference'
            if tree().keys() - at(ref.commit.hexsha).keys():
                return f'uncommitted things left in: {tree().keys()}'
            if {k: blob(v) for k, v in tree().items()} != at(ref.commit.hexsha):
                return 'not the tree of the reference'
            if c.get('inner') in ('main', 'other', '--detach'):
                git('checkout', '-q', c['inner'])
            apply(c['block'])
            if c.get('inner') == 'again' and kind in ('other', 'same'):
                mid, stashed = tree(), stashes()
                with ref:
                    if {k: blob(v) for k, v in tree().items()} != at(ref.commit.hexsha):
                        return 'not the tree of the reference, entered again'
                if tree() != mid or stashes() != stashed:
                    return f'entered again and left: {mid} -> {tree()}'
            dirty = bool(git('status', '--porcelain', '--ignored').strip())
            if c['fail']:
                raise Fault()
    except (Exception, Interrupt) as e:
        err = e
    finally:
        G.Head.checkout = real
    after, now = tree(), stashes()
    if git('rev-parse', 'HEAD') != head or git('rev-parse', '--abbrev-ref', 'HEAD') != sym:
        return f'HEAD is {git("rev-parse", "--abbrev-ref", "HEAD")}, {kind}, {err!r}'
    if after != before:
        return f'{kind} {entered} {err!r}: working tree {before} -> {after}, stashes {old} -> {now}'
    if entered:
        if (err is not None) != bool(c['fail']) or bool(c['fail']) != isinstance(err, Fault):
            return f'raised {err!r}'
        if dirty != (len(now) == len(old) + 1) or now[int(dirty):] != old:
            return f'stashes {old} -> {now}, dirty {dirty}'
        if kind in ('bad', 'unborn', 'detached', 'blocked'):
            return f'entered {kind}'
    else:
        if kind in ('other', 'same', 'origin'):
            return f'not entered: {err!r}'
        if kind in ('bad', 'unborn') and not isinstance(err, exc.InvalidRefError):
            return f'{err!r}'
        if now != old:
            return f'stashes {old} -> {now}'
