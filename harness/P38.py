"""Addresses of files of real repositories against an independent reading of the address of their remote."""
import os
import P20
import run as R
from augpathlib import RepoPath
setup, git = P20.setup, P20.git
RULE = 'every form of address, names with dots and suffixes, files in and below the repository, every kind of revision; clones of local repositories, other hosts'
NAMES = ['repo', 'foo.js', 'a.b.c', '.github', 'git', 'repo.git.d', 'my-repo_1', 'x.py', 'github.com', 'origin', 'x.git']
GROUPS = ['group', 'g.h', 'my-group', 'blob']
FORMS = ['git@github.com:{}', 'https://github.com/{}', 'ssh://git@github.com/{}', 'git://github.com/{}', 'http://github.com/{}']
ELSE = ['git@github.example.org:{}', 'git@github.company:{}', 'https://gitlab.com/{}', 'git@gitlab.com:{}', 'https://example.org/github.com/{}', '/no/such/{}', '../no/{}',
        'https://notgithub.com/{}', 'https://gist.github.com/{}', 'git@gist.github.com:{}']
SUF = ['', '.git', '.git/', '/']
FILES = ['f', 'd/e/g.txt', 'd', 'd/new', '.git.d/h', 'blob/main']
REFS = ['none', 'None', 'empty', 'HEAD', 'branch', 'slash', 'tag', 'sha', 'commit', 'unknown', 'remote', 'remote-slash', 'HEAD1', 'short']


def cases(rng, tier):
    for f in FORMS + ELSE:
        for s in SUF:
            yield {'form': f, 'suf': s, 'name': NAMES[(len(f) + len(s)) % len(NAMES)], 'group': 'group', 'file': 'd/e/g.txt', 'refs': ['none', 'HEAD'], 'clone': 0}
    for n in NAMES:
        yield {'form': FORMS[0], 'suf': '.git', 'name': n, 'group': 'g.h', 'file': 'f', 'refs': ['none', 'sha'], 'clone': 0}
    yield {'form': FORMS[0], 'suf': '.git', 'name': 'repo', 'group': 'group', 'file': 'd/e/g.txt', 'refs': REFS, 'clone': 0}
    yield {'form': FORMS[0], 'suf': '.git', 'name': 'repo', 'group': 'group', 'file': 'd/e/g.txt', 'refs': REFS, 'clone': 2}
    yield {'form': FORMS[0], 'suf': '.git', 'name': 'foo.js', 'group': 'group', 'file': 'f', 'refs': ['none', 'branch', 'None'], 'clone': 1, 'rel': 1, 'remote2': 1}
    yield {'form': FORMS[0], 'suf': '.git', 'name': 'foo.js', 'group': 'group', 'file': 'f', 'refs': ['none', 'commit'], 'clone': 0, 'detached': 1}
    while True:
        form = rng.choice(FORMS * 3 + ELSE)
        yield {'form': form, 'suf': rng.choice(SUF), 'name': rng.choice(NAMES), 'group': rng.choice(GROUPS), 'file': rng.choice(FILES),
               'refs': [rng.choice(REFS) for _ in range(4)], 'clone': rng.choice([0, 0, 0, 1, 2]), 'rel': rng.randrange(3),
               'remote2': rng.randrange(2), 'detached': rng.random() < .1, 'branch': rng.choice(['main', 'topic/one', 'origin', 'v1.0'])}


def run(c):
    base = os.getcwd()
    branch = c.get('branch', 'main')
    os.mkdir('r0')
    os.chdir('r0')
    git('init', '-q', '-b', branch)
    for f in FILES[:2]:
        os.makedirs(os.path.dirname(f) or '.', exist_ok=True)
        with open(f, 'w') as g:
            g.write(f)
    git('add', '.')
    git('commit', '-qm', 'one')
    git('tag', 'tagged')
    git('branch', 'feature/x')
    git('branch', 'other')
    git('branch', 'HEAD1')
    # only with the suffix can a name that ends with it be told from it
    url = c['form'].format(f'{c["group"]}/{c["name"]}') + (c['suf'] if c['name'] != 'x.git' else '.git' + c['suf'].replace('.git', ''))
    git('remote', 'add', 'origin', url)
    if c.get('remote2'):
        git('remote', 'add', 'aaa', 'https://github.com/not/this')
        git('remote', 'set-url', '--add', 'origin', 'https://github.com/nor/this')
    sha = git('rev-parse', 'HEAD').strip()
    git('update-ref', 'refs/remotes/origin/far', sha)
    git('update-ref', 'refs/remotes/origin/some/far', sha)
    if c.get('detached'):
        git('checkout', '-q', '--detach')
    here = base + '/r0'
    for i in range(c['clone']):
        git('clone', '-q', here, f'{base}/r{i + 1}')
        here = f'{base}/r{i + 1}'
        os.chdir(here)
        # (revisions are those of the repository it was cloned from)
    p = RepoPath(here) / c['file']
    if c.get('rel') == 1:
        os.chdir(here)
        p = RepoPath(c['file'])
    elif c.get('rel') == 2:
        os.chdir(base)
        p = RepoPath(os.path.basename(here)) / c['file']
    at = c['form'] in FORMS
    top = f'{c["group"]}/{c["name"]}'
    if not c['clone']:
        for ep in ('', '/releases', '/tags'):
            try:
                got = p.remote_uri_api(ep) if ep else p.remote_uri_api()
            except Exception as e:
                got = e
            if at and got != f'https://api.github.com/repos/{top}{ep}':
                return f'{c}: api {ep}: {got!r}'
    for k in c['refs']:
        kw = {'none': {}, 'None': {'ref': None}, 'empty': {'ref': ''}, 'HEAD': {'ref': 'HEAD'}, 'branch': {'ref': 'other'}, 'slash': {'ref': 'feature/x'},
              'tag': {'ref': 'tagged'}, 'sha': {'ref': sha}, 'commit': {'ref': p.repo.commit()}, 'unknown': {'ref': 'no-such'}, 'remote': {'ref': 'far'}, 'remote-slash': {'ref': 'some/far'}, 'HEAD1': {'ref': 'HEAD1'}, 'short': {'ref': sha[:12]}}[k]
        if k == 'commit' and c['clone']:
            kw = {'ref': RepoPath(here).repo.commit()}
        want = kw.get('ref') or branch
        want = branch if want == 'HEAD' else str(want)
        for m, pre in (('remote_uri_human', f'https://github.com/{top}/blob/'), ('remote_uri_machine', f'https://raw.githubusercontent.com/{top}/')):
            try:
                got = getattr(p, m)(**kw)
            except Exception as e:
                got = e
            if not at:
                if not isinstance(got, NotImplementedError):
                    return f'{c}: {m}({k}) elsewhere is {got!r}'
            elif k == 'unknown':
                if isinstance(got, str) and got != pre + want + '/' + c['file']:
                    return f'{c}: {m}({k}) is {got!r}'
            elif c.get('detached') and k in ('none', 'None', 'empty', 'HEAD'):
                if isinstance(got, str):
                    return f'{c}: {m}({k}) with HEAD detached is {got!r}'
            elif got != pre + want + '/' + c['file']:
                return f'{c}: {m}({k}) is {got!r}, not {pre}{want}/{c["file"]}'
