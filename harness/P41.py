"""Ways between paths joined to where they begin, links made of them, and the answers of the system."""
import itertools
import os
from augpathlib import AugmentedPath, LocalPath
RULE = 'two paths of up to 5 names from few, each absolute or relative; links whole, broken and to themselves; every kind of access to files, directories, links'
NAMES = ['a', 'b', 'ab', 'a.b', ' ', 'ä', '-', '...', 'a\nb']


def norm(p):
    return os.path.normpath(p)


def cases(rng, tier):
    few = [list(x) for k in range(4) for x in itertools.product('ab', repeat=k)]
    for a, b in itertools.product(few, few):
        for absolute in (True, False):
            yield {'what': 'way', 'self': a, 'other': b, 'abs': [absolute, absolute]}
    for x in ([True, False], [False, True]):
        yield {'what': 'way', 'self': ['a'], 'other': ['a', 'b'], 'abs': x}
    for to in ('file', 'dir', 'nothing', 'self', '../a/b', 'ä b', '/file', 'a\nb', 'd/', 'no link', 'no file'):
        yield {'what': 'link', 'to': to}
    for kind in ('file', 'exe', 'none', 'dir', 'link', 'broken', 'absent', '/sys/kernel', '/proc/version'):
        for mode in ('read', 'write', 'execute', os.R_OK, os.W_OK, os.X_OK, None, 'exec', 0, 6, 'READ'):
            for follow in (None, True, False):
                yield {'what': 'access', 'kind': kind, 'mode': mode, 'follow': follow}
    for mode in range(8):
        yield {'what': 'user', 'mode': mode}
    while True:
        few = rng.sample(NAMES, rng.choice([1, 2, 3]))
        top = [rng.choice(few) for _ in range(rng.randint(0, 2))]
        f = lambda: top + [rng.choice(few) for _ in range(rng.randint(0, 5))]
        a = rng.random() < .5
        yield {'what': 'way', 'self': f(), 'other': f(), 'abs': [a, a if rng.random() < .95 else not a]}


def way(c, d):
    P = LocalPath if len(c['self']) % 2 else AugmentedPath
    p, q = [P(*(['/'] if a else []), *x) for x, a in zip((c['self'], c['other']), c['abs'])]
    if c['abs'][0] != c['abs'][1]:
        for f in (lambda: p.relative_path_from(q), lambda: q.relative_path_to(p), lambda: p.commonpath(q)):
            try:
                return f'a way between {p!r} and {q!r}: {f()!r}'
            except ValueError:
                pass
        return
    n = 0
    for x, y in zip(c['self'], c['other']):
        if x != y:
            break
        n += 1
    com = p.commonpath(q)
    if com != P(*(['/'] if c['abs'][0] else []), *c['self'][:n]) or type(com) is not type(p):
        return f'common to {p!r} and {q!r}: {com!r}'
    w = p.relative_path_from(q)
    if w != q.relative_path_to(p) or type(w) is not type(p):
        return f'either way: {w!r} {q.relative_path_to(p)!r}'
    if w.is_absolute():
        return f'{w!r} is absolute'
    above = n == len(c['other'])
    start = q if above else q.parent
    if norm(os.path.join(start, w)) != norm(p):
        return f'{w!r} leads from {start!r} to {norm(os.path.join(start, w))!r}, not to {p!r}'
    if w.parts.count('..') != (0 if above else len(c['other']) - n - 1):
        return f'{w!r} goes up too far'
    if not above and c['abs'][0] and all('\n' not in x for x in c['self'] + c['other']):
        # a link of it, in a real tree
        a, b = os.path.join(d, *c['self']), os.path.join(d, *c['other'])
        if n < len(c['self']):
            os.makedirs(a)
            os.makedirs(os.path.dirname(b), exist_ok=True)
            os.symlink(AugmentedPath(a).relative_path_from(AugmentedPath(b)), b)
            if os.path.realpath(b) != os.path.realpath(a):
                return f'the link {b!r} -> {os.readlink(b)!r} does not lead to {a!r}'


def link(c, d):
    os.mkdir('s')
    open('s/file', 'w').close()
    os.mkdir('s/dir')
    l = 's/l'
    p = AugmentedPath(l)
    to = c['to']
    if to == 'no link':
        p = AugmentedPath('s/file')
    elif to != 'no file':
        os.symlink('l' if to == 'self' else to, l)
    else:
        p = AugmentedPath('s/absent')
    try:
        got = p.readlink(), p.readlink(raw=True), p.readlink(raw=False)
    except OSError:
        return None if to in ('no link', 'no file') else f'{to!r}: fails'
    if to in ('no link', 'no file'):
        return f'{to}: {got}'
    want = os.readlink(l)
    if got[1] != want or type(got[1]) is not str or str(got[0]) != str(AugmentedPath(want)) or got[0] != got[2] or type(got[0]) is str:
        return f'{want!r} read as {got}'


def access(c, d):
    k = c['kind']
    if k in ('file', 'exe', 'none'):
        open('x', 'w').close()
        os.chmod('x', {'file': 0o644, 'exe': 0o755, 'none': 0}[k])
    elif k == 'dir':
        os.mkdir('x')
    elif k in ('link', 'broken'):
        open('y', 'w').close()
        os.symlink('y' if k == 'link' else 'z', 'x')
    path = k if k[0] == '/' else 'x'
    m = {'read': os.R_OK, 'write': os.W_OK, 'execute': os.X_OK}.get(c['mode'], c['mode'])
    kw = {} if c['follow'] is None else {'follow_symlinks': c['follow']}
    a = [] if c['mode'] is None else [c['mode']]
    try:
        got = AugmentedPath(path).access(*a, **kw)
    except TypeError:
        return None if a and m not in (4, 2, 1) else f'{c}: refused'
    if a and m not in (4, 2, 1):
        return f'{c}: {got}'
    want = os.access(path, m if a else os.R_OK, **kw)
    if got != want:
        return f'{c}: {got}, not {want}'


def user(c, d):
    """ the same for a user with a part of the rights """
    open('x', 'w').close()
    os.chmod('x', c['mode'])
    os.chmod('.', 0o755)
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        out = b'0'
        try:
            try:
                os.setgroups([])
                os.setresgid(65534, 65534, 65534)
                os.setresuid(65534, 65534, 65534)
            except OSError:
                os._exit(0)
            p = AugmentedPath('x')
            got = [p.access(m) for m in ('read', 'write', 'execute', os.R_OK, os.W_OK, os.X_OK)]
            want = [os.access('x', m) for m in (os.R_OK, os.W_OK, os.X_OK)] * 2
            if got != want:
                out = repr((got, want)).encode()
        except BaseException as e:
            out = repr(e).encode()
        finally:
            os.write(w, out)
            os._exit(0)
    os.close(w)
    with open(r, 'rb') as f:
        out = f.read()
    os.waitpid(pid, 0)
    if out not in (b'', b'0'):
        return f'access to a file of mode {c["mode"]}: {out.decode()}'


def run(c):
    return {'user': user, 'way': way, 'link': link, 'access': access}[c['what']](c, os.getcwd())
