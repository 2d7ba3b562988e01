"""Reading, ranges, writing and copying of real files."""
import os
import pathlib
import shutil
import itertools
from augpathlib import LocalPath, AugmentedPath
from augpathlib import exceptions as exc
from run import NotApplicable
RULE = 'sizes around multiples of the chunk size x ranges x chunkings of the source x failure point x target state'


def cases(rng, tier):
    for n in (0, 1, 3, 4, 5, 7, 8, 9, 4095, 4096, 4097, 8192):
        yield {'k': 'data', 'n': n}
        yield {'k': 'write', 'n': n, 'c': 4, 'fail': None, 'xattr': n % 2 == 0}
    for fail in (0, 1, 2):
        for how in ('data', 'filter', 'append'):
            yield {'k': 'fail', 'how': how, 'fail': fail}
    for n, t, force, meta, cls in itertools.product((0, 5), ('none', 'file', 'link', 'broken', 'self', 'hard', 'sym-self', 'dir'),
                                                    (False, True), (False,), ('L', 'A')):
        yield {'k': 'copy', 'n': n, 't': t, 'force': force, 'cls': cls, 'how': 'to'}
        if n:
            yield {'k': 'copy', 'n': n, 't': t, 'force': force, 'cls': cls, 'how': 'to', 'tcls': 'P'}
            yield {'k': 'copy', 'n': n, 't': t, 'force': force, 'cls': cls, 'how': 'to', 'tcls': 'A' if cls == 'L' else 'L'}
    for how in ('from', 'infrom', 'outto', 'outto-file'):
        for cls in 'LA':
            for t in ('none', 'file', 'link', 'broken', 'hard', 'sym-self', 'dir'):
                for force in (False, True):
                    yield {'k': 'copy', 'n': 5, 't': t, 'force': force, 'cls': cls, 'how': how}
    for n, cs in itertools.product((0, 1, 7, 8, 9, 16, 20), (1, 2, 7, 8, 9, 100, None)):
        rs = [[0, None], [0, 0], [0, n], [n, n], [0, n + 3], [min(3, n), n], [min(3, n), None], [n + 2, None], [-min(n, 4), None],
              [-min(n, 5), -min(n, 2)], [-min(n, 8), 0], [1, 1 + 8], [0, 16], [2, 10]]
        for r in rs:
            yield {'k': 'range', 'n': n, 'cs': cs, 'r': [r]}
        yield {'k': 'range', 'n': n, 'cs': cs, 'r': []}
        yield {'k': 'range', 'n': n, 'cs': cs, 'r': rs}
    for n in (0, 5):
        for app in (False, True):
            for at in ('link', 'broken', 'hard'):
                yield {'k': 'filter', 'n': n, 'c': 3, 'fail': None, 'xattr': False, 'append': app, 'at': at}
    while True:
        n = rng.randrange(60)
        k = rng.choice(['range', 'range', 'write', 'filter'])
        if k == 'range':
            r = []
            for _ in range(rng.randrange(1, 4)):
                a = rng.randrange(n + 4)
                r.append(rng.choice([[a, None], [a, a + rng.randrange(30)]] + ([[-rng.randrange(n) - 1, None]] if n else [])))
            yield {'k': 'range', 'n': n, 'cs': rng.randrange(1, 20), 'r': r}
        else:
            yield {'k': k, 'n': n, 'c': rng.randrange(1, 20), 'fail': None, 'xattr': rng.random() < .3, 'append': rng.random() < .5,
                   'empty': rng.random() < .2}


def blob(n):
    return bytes((i * 7 + i // 251) % 256 for i in range(n))


def src(data, c, fail=None, empty=False):
    k = 0
    for i in range(0, len(data), c):
        if fail is not None and k == fail:
            raise OSError(5, 'source')
        if empty:
            yield b''
        yield data[i:i + c]
        k += 1
    if fail is not None:
        raise OSError(5, 'source')


def want(data, a, b):
    lo = len(data) + a if a < 0 else a
    hi = len(data) if b is None else (len(data) + b if a < 0 else b)
    return data[lo:hi]


def run(c):
    k = c['k']
    p = LocalPath(os.path.abspath('f'))
    data = blob(c.get('n', 0))
    if k == 'data':
        open(p, 'wb').write(data)
        ch = list(p.data)
        if b''.join(ch) != data or b'' in ch:
            return f'data of {len(data)} bytes read as chunks of {[len(x) for x in ch]}'
        return
    if k == 'range':
        f = getattr(p, '_data', None)
        if f is None:
            raise NotApplicable
        open(p, 'wb').write(data)
        kw = {} if c['cs'] is None else {'chunksize': c['cs']}
        got = b''.join(f(tuple(tuple(r) for r in c['r']), **kw) if c['r'] else f(**kw))
        w = b''.join(want(data, *r) for r in c['r']) if c['r'] else data
        if got != w:
            return f'ranges {c["r"]} of {len(data)} bytes give {len(got)} bytes {got[:20]!r} instead of {len(w)} {w[:20]!r}'
        return
    if k in ('write', 'filter'):
        old = b'old' * 30
        at = c.get('at')
        if at:
            os.symlink('real', p)       # what is written goes where the link leads
            if at == 'hard':
                os.unlink(p)
                open('real', 'wb').write(old)
                os.link('real', p)
            if at == 'broken':
                old = b''
        if at != 'broken':
            open(p, 'wb').write(old)
        if c['xattr']:
            os.setxattr(p, 'user.k', b'v')
        g = src(data, c['c'], empty=c.get('empty'))
        if k == 'write':
            p.data = g
        else:
            f = getattr(p, '_data_setter', None)
            if f is None:
                raise NotApplicable
            got = b''.join(f(g, append=c['append']))
            if got != data:
                return 'the filter passes on other data'
        w = (old if c.get('append') and k == 'filter' else b'') + data
        if open(p, 'rb').read() != w:
            return f'{len(w)} bytes written as {os.path.getsize(p)}'
        if at and (open('real', 'rb').read() != w or os.path.islink(p) != (at != 'hard')):
            return 'a link is replaced by what is written to it'
        if c['xattr'] and os.getxattr(p, 'user.k') != b'v':
            return 'the metadata of the file is lost'
        return
    if k == 'fail':
        old = b'old' * 3
        data = blob(20)
        open(p, 'wb').write(old)
        try:
            if c['how'] == 'data':
                p.data = src(data, 4, c['fail'])
            else:
                f = getattr(p, '_data_setter', None)
                if f is None:
                    raise NotApplicable
                list(f(src(data, 4, c['fail']), append=c['how'] == 'append'))
            return 'the failure of the source is not reported'
        except OSError:
            pass
        got = open(p, 'rb').read()
        if c['fail'] == 0:
            return None if got == old else 'a source that fails at once changes the file'
        w = (old if c['how'] == 'append' else b'') + data[:4 * c['fail']]
        return None if got == w else f'after a failure the file holds {got!r}'
    cls = {'L': LocalPath, 'A': AugmentedPath}[c['cls']]
    p = cls(os.path.abspath('f'))
    open(p, 'wb').write(data)
    os.mkdir('d')
    t = {'L': LocalPath, 'A': AugmentedPath, 'P': pathlib.Path}[c.get('tcls', c['cls'])](os.path.abspath('d/f'))
    other = b'other data'
    kind = c['t']
    if kind == 'file':
        open(t, 'wb').write(other)
    elif kind == 'dir':
        if c['force']:
            return
        os.mkdir(t)
    elif kind == 'link':
        open('x', 'wb').write(other)
        os.symlink('../x', t)
    elif kind == 'broken':
        os.symlink('../nope', t)
    elif kind == 'self':
        t = p
    elif kind == 'hard':
        os.link(p, t)
    elif kind == 'sym-self':
        os.symlink('../f', t)
    import env
    before = env.tree('.')
    kw = {'force': True} if c['force'] else {}
    res = None
    try:
        if c['how'] == 'to':
            p.copy_to(t, **kw)
        elif c['how'] == 'from':
            t.copy_from(p, **kw)
        elif c['how'] == 'infrom':
            cls(os.path.abspath('d')).copy_infrom(p, **kw)
        elif c['how'] == 'outto':
            res = p.copy_outto(cls(os.path.abspath('d')), **kw)
        else:
            p.copy_outto(p, **kw)
        raised = None
    except Exception as e:
        raised = e
    after = env.tree('.')
    if c['how'] == 'outto-file':
        return None if isinstance(raised, NotADirectoryError) and after == before else f'copied into a file: {raised!r}'
    if kind != 'none' and not c['force']:
        if not isinstance(raised, exc.PathExistsError) or after != before:
            return f'copied over a {kind}: {raised!r}'
        return
    if kind in ('self', 'hard', 'sym-self'):
        if not isinstance(raised, shutil.SameFileError):
            return f'copied a file onto itself: {raised!r}'
        return None if after == before else 'a refused copy onto itself changed something'
    if raised:
        return f'not copied: {raised!r}'
    if open(t, 'rb').read() != data or open(p, 'rb').read() != data:
        return 'the copy differs'
    if c['how'] == 'outto' and res != t:
        return f'copy_outto returned {res!r}'
