"""Random histories of small repositories: every version of every path, what differs, which commits."""
import os
import P20
RULE = 'histories of up to 6 commits of up to 5 files with any bytes, then staged and unstaged changes; show, diff, modified, indexed, has_uncommitted_changes, commits, latest_commit of every path compared with the recorded versions'
NAMES = ['f0', 'd/f1', 'd/f2', 'f with space', 'é']
DATA = [b'', b'\n', b'a', b'a\n', b'a\r\n\n', b'\xff\x98\x00', bytes(range(256)), b'\n' * 3, 'é\n'.encode(), b' a ']


def cases(rng, tier):
    yield {'hist': [[[0, 3], [1, 5]], [[0, 4]], [[2, 1]]], 'index': [[0, 0]], 'work': [[1, 2]]}
    yield {'hist': [[[0, 3]], [[1, 4]], [[2, 1]]], 'index': [], 'work': [], 'merge': [[0, 5], [1, 5]]}
    yield {'hist': [[[0, 0], [1, 0], [2, 0], [3, 0], [4, 0]], [[i, i + 2] for i in range(5)]], 'index': [], 'work': []}
    yield {'hist': [[[0, 6], [3, 7], [4, 8]], [[0, 3]]], 'index': [[0, 2]], 'work': [[0, 3], [1, 1]]}
    while True:
        def ch(n):
            return [[rng.randrange(5), rng.randrange(len(DATA))] for _ in range(rng.randint(0, n))]
        yield {'hist': [ch(4) or [[0, 1]] for _ in range(rng.randint(1, 6))], 'index': ch(3), 'work': ch(3), 'rel': rng.random() < .3, 'salt': rng.randrange(4),
                   'merge': ch(2) if rng.random() < .3 else []}


setup = P20.setup


def put(n, k):
    os.makedirs(os.path.dirname(n) or '.', exist_ok=True)
    with open(n, 'wb') as f:
        f.write(DATA[k])


def run(c):
    from augpathlib import RepoPath, exceptions as exc
    import git as G
    git = P20.git
    RepoPath._repos.clear()
    os.mkdir('r')
    os.chdir('r')
    git('init', '-q', '-b', 'main')
    now, past, commits = {}, [], []
    touched = {n: [] for n in NAMES + ['d']}
    for i, step in enumerate(c['hist']):
        old = dict(now)
        for j, k in step:
            put(NAMES[j], k)
            now[NAMES[j]] = DATA[k]
        git('add', '-A')
        os.environ['GIT_COMMITTER_DATE'] = os.environ['GIT_AUTHOR_DATE'] = f'{1600000000 + i * 10} +0000'
        git('commit', '-qm', f'm{i}', '--allow-empty')
        sha = git('rev-parse', 'HEAD').strip()
        git('tag', f't{i}')
        commits.append(sha)
        past.append(dict(now))
        for n in NAMES:
            if old.get(n) != now.get(n):
                touched[n].insert(0, sha)
        if any(old.get(n) != now.get(n) for n in NAMES if n.startswith('d/')):
            touched['d'].insert(0, sha)
    if c.get('merge'):
        # both sides change, and the merge makes of it something else again
        os.environ['GIT_COMMITTER_DATE'] = os.environ['GIT_AUTHOR_DATE'] = '1600001000 +0000'
        git('checkout', '-q', '-b', 'side')
        side = git('commit-tree', '-p', 'HEAD', '-m', 'side', git('write-tree').strip()).strip()
        for j, k in c['merge']:
            put(NAMES[j], (k + 1) % len(DATA))
            now[NAMES[j]] = DATA[(k + 1) % len(DATA)]
        git('add', '-A')
        old = past[-1]
        sha = git('commit-tree', '-p', commits[-1], '-p', side, '-m', 'merge', git('write-tree').strip()).strip()
        git('checkout', '-q', 'main')
        git('reset', '-q', '--hard', sha)
        git('tag', f't{len(past)}')
        commits.append(sha)
        past.append(dict(now))
        for n in NAMES:
            if old.get(n) != now.get(n):
                touched[n].insert(0, sha)
        if any(old.get(n) != now.get(n) for n in NAMES if n.startswith('d/')):
            touched['d'].insert(0, sha)
    os.symlink('d', 'link')
    index = dict(now)
    for j, k in c['index']:
        put(NAMES[j], k)
        git('add', '--', NAMES[j])
        index[NAMES[j]] = DATA[k]
    work = dict(index)
    for j, k in c['work']:
        put(NAMES[j], k)
        work[NAMES[j]] = DATA[k]
    head = past[-1]
    base = '' if c.get('rel') else os.getcwd() + '/'
    try:
        salt = c.get('salt', 0)
        for i, n in enumerate(NAMES + ['d']):
            p = RepoPath(base + n)
            if n.startswith('d/') and os.path.isdir('d'):
                want = touched[n]
                # through a link, or up and down again, it is the same file
                for x in (RepoPath(base + 'd/../' + n), RepoPath(base + 'link/' + n[2:])):
                    if [z.hexsha for z in x.commits()] != want:
                        return f'commits of {x}, expected {want}'
                    try:
                        got = x.latest_commit().hexsha
                    except exc.NoCommitsForFile:
                        got = None
                    if got != (want[0] if want else None):
                        return f'latest_commit of {x} is {got}, expected {want}'
            sub = [m for m in NAMES if m == n or m.startswith(n + '/')]

            def differ(a, b, workside=False):
                # what is not tracked is not a difference with the working tree
                return any(a.get(m) != b.get(m) for m in sub if not (workside and m not in index))
            if n != 'd':
                for ref, vers in [(f't{i}', v) for i, v in enumerate(past)] + [(commits[0], past[0]), ('HEAD', head), ('', index), (None, work)]:
                    try:
                        got = p.show(ref)
                    except (FileNotFoundError if ref is None else G.GitCommandError):
                        got = None
                    if got != vers.get(n):
                        return f'show({ref!r}) of {n}: {got!r}, expected {vers.get(n)!r}'
                if index.get(n) is not None and p.show() != index[n]:
                    return f'show() of {n}'
            for rev, upto in ((None, len(commits)), ('t0', 1), (commits[-1], len(commits))):
                want = [s for s in touched[n] if s in commits[:upto]]
                got = [x.hexsha for x in p.commits(rev=rev)]
                if got != want or [x.hexsha for x in p.commits(rev=rev, max_count=1)] != want[:1]:
                    return f'commits({rev}) of {n}: {got}, expected {want}'
                try:
                    got = p.latest_commit(rev).hexsha
                except exc.NoCommitsForFile:
                    got = None
                if got != (want[0] if want else None):
                    return f'latest_commit({rev}) of {n}: {got}, expected {want}'
            trees = [(None, work), ('', index), ('HEAD', head), ('t0', past[0]), (commits[-1], head)]
            checks = [(p.modified, differ(index, work, True), 'modified', index, work), (p.indexed, differ(head, index), 'indexed', head, index),
                      (p.has_uncommitted_changes, differ(head, work, True), 'has_uncommitted_changes', head, work),
                      (p.diff, differ(index, work, True), 'diff()', index, work)]
            for a, x in trees:
                for b, y in trees:
                    salt += 1
                    if {a, b} != {None} and (salt % 4 == 0 or len(past) < 3):
                        side = None in (a, b)
                        checks.append((lambda a=a, b=b: p.diff(a, b), differ(x, y, side), f'diff({a!r}, {b!r})', *((x, y) if b is None else (y, x))))
            there = os.path.lexists(n)
            for f, want, name, old, new in checks:
                try:
                    got = f()
                except FileNotFoundError:
                    got = 'not found'
                if not there:
                    if got != 'not found':
                        return f'{name} of {n}, which is not there: {got}'
                elif isinstance(got, str) or (got is not None) != want:
                    return f'{name} of {n}: {got}, expected {want}'
                elif got is not None and not {got.a_path, got.b_path} & set(sub):
                    return f'{name} of {n} is about {got.a_path}'
                elif got is not None:
                    for side, blob, vers in (('former', got.a_blob, old), ('latter', got.b_blob, new)):
                        # the blob of the working tree is not stored
                        if blob is not None and vers is not work and blob.data_stream.read() != vers.get(blob.path):
                            return f'{name} of {n}: the {side} is {blob.path}, with other content'
                        if blob is None and vers is not work and vers.get(got.a_path or got.b_path) is not None:
                            return f'{name} of {n}: no {side}'
            if there and n in head and head[n] != work.get(n):
                d = p.diff('HEAD', create_patch=True)
                if not d.diff and b'\0' not in head[n] + work[n]:
                    return f'no patch for {n}'
            if p.diff(None, None) is not None:
                return 'diff(None, None)'
    finally:
        for r in RepoPath._repos.values():
            r.close()
        RepoPath._repos.clear()
