"""rmtree on real trees in the scratch directory (with links leading out of the tree, failing calls, the current
directory inside) and, with recording stand-ins for every removal, on dangerous paths."""
import os
import pathlib
from augpathlib import LocalPath, AugmentedPath, RepoPath
from augpathlib import exceptions as exc
import guard
import run as R
import env
RULE = 'trees of up to 7 entries with links in and out; every failing call; options; relative and dangerous paths'
FIXED = [[], [['f', 'a']], [['d', 'a'], ['f', 'a/b'], ['l', 'c', 'OUT']], [['d', 'a'], ['d', 'a/b'], ['d', 'a/b/c'], ['f', 'a/b/c/f']],
         [['l', 'x', 'OUT/sub'], ['l', 'y', 'OUT/file'], ['l', 'z', 'nowhere'], ['l', 'w', '.']],
         [['d', 'a'], ['l', 'a/up', '..'], ['l', 'a/out', 'OUT'], ['f', 'a/f'], ['f', 'g']]]
DANGER = ['/', '/etc', '/home', '/home/user', '/x/home', '/home/user/proj', '/var/log/x', '/var/x', '/tmp', '/a/b/home', 'rel', 'rel/a/b/c',
          '.', '..', '../../x/y/z', '/homes/user', '/srv/home/x']


def cases(rng, tier):
    for t in FIXED:
        for mode in ('raise', 'ignore', 'onerror'):
            for n in [None] + list(range(1, 7)):
                yield {'tree': t, 'mode': mode, 'n': n, 'cls': 'local', 'dz': False}
    for t in FIXED[2:4]:
        for cls in ('repo', 'aug'):
            yield {'tree': t, 'mode': 'raise', 'n': None, 'cls': cls, 'dz': False}
        for dz in (True, False):
            yield {'tree': t, 'mode': 'raise', 'n': None, 'cls': 'local', 'dz': dz, 'rel': True}
            for cwd in ('a', '', 'OUT'):
                for mode in ('raise', 'ignore', 'onerror'):
                    yield {'tree': t, 'mode': mode, 'n': None, 'cls': 'local', 'dz': dz, 'cwd': cwd}
    for d in DANGER:
        for dz in (False, True, 1, 'yes', None):
            for kind in ('file', 'dir'):
                for ig in (False, True):
                    yield {'danger': d, 'dz': dz, 'kind': kind, 'ignore': ig}
    yield {'repo': True}
    yield {'repo': False}
    for what in ('file', 'linkfile', 'linkdir', 'broken', 'none'):
        for mode in ('raise', 'ignore', 'onerror'):
            yield {'single': what, 'mode': mode}
    while True:
        t, ds = [], ['']
        for i in range(rng.randint(0, 7)):
            p = rng.choice(ds)
            n = (p + '/' if p else '') + 'n%d' % i
            k = rng.choice('ddffl')
            if k == 'd':
                ds.append(n)
            t.append([k, n, rng.choice(['OUT', 'OUT/sub', 'OUT/file', '..', '.', 'nowhere', 'n0'])] if k == 'l' else [k, n])
        yield {'tree': t, 'mode': rng.choice(['raise', 'ignore', 'onerror']), 'n': rng.choice([None, rng.randint(1, 9)]),
               'cls': rng.choice(['local', 'repo']), 'dz': rng.choice([True, False])}


def outside():
    os.makedirs('out/sub/deep')
    for f in ('out/file', 'out/sub/f', 'out/sub/deep/g'):
        with open(f, 'w') as h:
            h.write(f)
    os.chmod('out/file', 0o444)


def repo(c):
    os.makedirs('w/x/top/.git')
    p = RepoPath(os.path.abspath('w/x/top'))
    if not isinstance(getattr(RepoPath, '_repos', None), dict):
        raise R.NotApplicable
    log = []

    class G:
        def close(self):
            log.append(os.path.exists(p))
    if c['repo']:
        RepoPath._repos[p] = G()
    other = RepoPath(os.path.abspath('w/x'))
    RepoPath._repos[other] = o = G()
    try:
        p.rmtree()
        if os.path.exists(p) or p in RepoPath._repos or log != [True] * c['repo']:
            return f'removing an open repository: closed before removal {log}, known {p in RepoPath._repos}'
        if RepoPath._repos.get(other) is not o:
            return 'another repository was forgotten'
    finally:
        RepoPath._repos.clear()


def run(c):
    if 'repo' in c:
        return repo(c)
    if 'danger' in c:
        return danger(c)
    outside()
    out = os.path.abspath('out')
    if 'single' in c:
        return single(c, out)
    os.makedirs('w/x/top')
    top = os.path.abspath('w/x/top')
    for e in c['tree']:
        p = os.path.join(top, e[1])
        if e[0] == 'd':
            os.mkdir(p)
        elif e[0] == 'f':
            open(p, 'w').write('x')
        else:
            os.symlink(e[2].replace('OUT', out), p)
    with open('w/x/sibling', 'w') as h:
        h.write('s')
    before = env.tree('.', skip=('w/x/top',))
    P = {'local': LocalPath, 'repo': RepoPath, 'aug': AugmentedPath}[c['cls']]
    p = P(top)
    if c.get('rel'):
        p = P('w/x/top')
        b = env.tree('.')
        try:
            p.rmtree(DANGERZONE=c['dz'])
            return 'a relative path was not refused'
        except exc.WillNotRemovePathError:
            return None if env.tree('.') == b else 'refused, but something is gone'
    got = []
    kw = {}
    if c['mode'] == 'ignore':
        kw['ignore_errors'] = True
    if c['mode'] == 'onerror':
        kw['onerror'] = lambda *a: got.append(a)
    home = os.getcwd()
    cwd = None
    if 'cwd' in c:
        cwd = out if c['cwd'] == 'OUT' else os.path.join(top, c['cwd'])
        os.chdir(cwd)
    err = None
    with guard.fault(c['n'], 13) as inj:
        try:
            p.rmtree(**kw, **({} if c['dz'] is False else {'DANGERZONE': c['dz']}))
        except BaseException as e:
            err = e
    hit = c['n'] is not None and inj['count'] >= c['n']
    os.chdir(home)
    after = env.tree('.', skip=('w/x/top',))
    if after != before:
        return f'outside of the tree: {sorted(set(before.items()) ^ set(after.items()))[:3]}'
    if cwd and c['cwd'] != 'OUT' and not c['dz']:
        if not isinstance(err, exc.WillNotRemovePathError):
            return f'current directory at or below: {err!r}'
        if not os.path.isdir(cwd):
            return 'the current directory is gone'
        if c['cwd'] == '' and {k for k in env.tree(top)} != {e[1] for e in c['tree']}:
            return 'refused, but something is gone'
        return
    if not hit:
        if err is not None or got:
            return f'error without failure: {err!r} {got}'
        return None if not os.path.lexists(top) else f'still there: {sorted(env.tree(top))}'
    if not os.path.lexists(top):
        return 'gone although a removal failed'
    if c['mode'] == 'raise':
        return None if isinstance(err, OSError) else f'a failure is not raised: {err!r}'
    if err is not None:
        return f'raised with {c["mode"]}: {err!r}'
    if c['mode'] == 'ignore':
        return
    if not got:
        return 'a failure is not reported to onerror'
    f, q, info = got[0]
    if not isinstance(info[1], OSError) or info[0] is not type(info[1]):
        return f'onerror got {info}'
    want = 'rmdir' if inj['log'][c['n'] - 1] == 'os.rmdir' else 'unlink'
    if getattr(f, '__name__', None) != want or not str(q).startswith(top) or not os.path.lexists(q):
        return f'onerror got {f}, {q} for a failing {want}'


def single(c, out):
    os.makedirs('w/x')
    p = os.path.abspath('w/x/top')
    w = c['single']
    if w == 'file':
        open(p, 'w').write('x')
    elif w != 'none':
        os.symlink({'linkfile': out + '/file', 'linkdir': out + '/sub', 'broken': out + '/nope'}[w], p)
    before = env.tree('.', skip=('w/x/top',))
    got, err = [], None
    kw = {}
    if c['mode'] == 'ignore':
        kw['ignore_errors'] = True
    if c['mode'] == 'onerror':
        kw['onerror'] = lambda *a: got.append(a)
    try:
        LocalPath(p).rmtree(**kw)
    except BaseException as e:
        err = e
    if env.tree('.', skip=('w/x/top',)) != before:
        return 'something else was touched'
    fails = w in ('linkdir', 'none')
    if not fails:
        return f'{err!r} {got}' if err or got or os.path.lexists(p) else None
    if w == 'linkdir' and not os.path.islink(p):
        return 'a link to a directory was removed'
    if c['mode'] == 'raise':
        return None if isinstance(err, OSError) else f'not raised: {err!r}'
    if err is not None:
        return f'raised {err!r}'
    if c['mode'] == 'onerror' and (len(got) != 1 or str(got[0][1]) != p or not isinstance(got[0][2][1], OSError)):
        return f'onerror got {got}'


def danger(c):
    return danger_of(c, LocalPath) or danger_of(c, RepoPath)


def danger_of(c, base):
    log = []

    class P(base):
        def unlink(self, *a, **k):
            log.append(('unlink', str(self)))

        def rmdir(self):
            log.append(('rmdir', str(self)))

        def iterdir(self):
            log.append(('list', str(self)))
            return iter(())

        def is_dir(self, *a, **k):
            return c['kind'] == 'dir'

        def is_symlink(self):
            return False
    if hasattr(P, '_bind_flavours'):
        P._bind_flavours()
    p = P(c['danger'])
    kw = {'ignore_errors': True} if c['ignore'] else {}
    n = len(pathlib.PurePosixPath(c['danger']).parts)
    bad = not c['danger'].startswith('/') or (c['dz'] is not True and (n <= 2 or (n <= 3 and 'home' in pathlib.PurePosixPath(c['danger']).parts)))
    try:
        p.rmtree(**kw, **({} if c['dz'] is False else {'DANGERZONE': c['dz']}))
        r = None
    except exc.WillNotRemovePathError as e:
        r = e
    if bad and (r is None or log):
        return f'rmtree of {c["danger"]} with DANGERZONE={c["dz"]!r}: not refused, {log}'
    if not bad:
        if r is not None:
            return f'rmtree of {c["danger"]} with DANGERZONE={c["dz"]!r}: refused'
        want = [('list', str(p)), ('rmdir', str(p))] if c['kind'] == 'dir' else [('unlink', str(p))]
        if log != want:
            return f'rmtree of {c["danger"]}: {log}'
