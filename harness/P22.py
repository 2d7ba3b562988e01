"""Zip files of all kinds, seen through paths, against zipfile."""
import io
import os
import zipfile
from augpathlib import ZipPath
from augpathlib.zip import ZipInternalPath, ZipHelper
RULE = 'zip files of up to 12 members: implied and explicit directories, repeated names, odd names, sizes around the chunk size; every path; reads that overlap'
NAMES = ['a', 'b', 'a.zip', 'ä', 'a b', '.x', 'x.txt', '%41', '-']
SIZES = [0, 1, 7, 4095, 4096, 4097, 8192, 10000]


def cases(rng, tier):
    yield {'members': [], 'name': 'e.zip', 'kind': 'zip'}
    yield {'members': [[['a', 'b', 'x.txt'], 4097, 0], [['b'], 5, 0]], 'name': 'z.zip', 'kind': 'zip'}
    yield {'members': [[['a'], 4097, 0], [['a'], 9, 0], [['b', 'a'], 0, 1]], 'name': 'z.zip', 'kind': 'zip'}
    yield {'members': [[['a', 'b'], 3, 0]], 'name': 'noext', 'kind': 'zip'}
    for k in ('none', 'dir', 'text'):
        for n in ('x.zip', 'x', 'x.txt'):
            yield {'members': [], 'name': n, 'kind': k}
    while True:
        yield {'members': [[[rng.choice(NAMES) for _ in range(rng.randint(1, 4))], rng.choice(SIZES), int(rng.random() < .2)]
                           for _ in range(rng.randint(0, 12))], 'name': rng.choice(['z.zip', 'z', 'z.tar', 'Z.ZIP']), 'kind': 'zip',
               'compress': int(rng.random() < .5), 'up': rng.random() < .3}


def run(c):
    d = os.path.join(os.getcwd(), 'dir.zip' if c.get('up') else 'dir')
    os.mkdir(d)
    f = os.path.join(d, c['name'])
    files, dirs = {}, set()
    if c['kind'] == 'dir':
        os.mkdir(f)
    elif c['kind'] == 'text':
        open(f, 'w').write('text')
    elif c['kind'] == 'zip':
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with zipfile.ZipFile(f, 'w', zipfile.ZIP_DEFLATED if c.get('compress') else zipfile.ZIP_STORED) as z:
                for i, (parts, size, isdir) in enumerate(c['members']):
                    p = tuple(parts)
                    if any(p[:k] in files for k in range(1, len(p) if not isdir else len(p) + 1)) or (not isdir and p in dirs):
                        continue
                    if isdir:
                        dirs.add(p)
                        z.writestr('/'.join(p) + '/', b'x' * (size % 3))
                    else:
                        files[p] = bytes((i + j * 7) % 251 for j in range(size))
                        z.writestr('/'.join(p), files[p])
                    dirs |= {p[:k] for k in range(1, len(p))}
    zp = ZipPath(f)
    if c['kind'] != 'zip':
        for p, e in ((zp, c['kind'] != 'none'), (zp / 'y', False)):
            try:
                r = p.exists()
            except Exception as x:
                return f'exists of {p}, not a zip file, fails: {x!r}'
            if r is not e:
                return f'exists of {p}, not a zip file: {r}'
            if p.zip_path is not None:
                return f'{p} is not in a zip file'
        if c['kind'] == 'text':
            with zp.open() as h:
                if h.read() != 'text':
                    return 'another text'
        return None
    every = set(files) | dirs | {()}
    root = zp.asInternal()
    inner = lambda p: root.__class__(*p) if p else root
    probes = every | {p + ('nope',) for p in every} | {('nope', 'a')} | {p[:-1] + (p[-1] + 'x',) for p in files}
    for p in sorted(probes):
        ip, ep = inner(p), ZipPath(os.path.join(f, *p))
        if ep.zip_path != zp:
            return f'zip_path of {ep} is {ep.zip_path}'
        if ep.asInternal() != ip:
            return f'the internal path of {ep} is {ep.asInternal()}'
        if ip.exists() != (p in every) or ep.exists() != (p in every):
            return f'exists of {p}: {ip.exists()} {ep.exists()}'
        if ip.is_dir() != (p in every and p not in files):
            return f'is_dir of {p}: {ip.is_dir()}'
        got = sorted(x.parts for x in ip.children)
        if got != sorted(q for q in every if len(q) == len(p) + 1 and q[:-1] == p):
            return f'children of {p}: {got}'
        want = sorted(q for q in every if len(q) > len(p) and q[:len(p)] == p)
        got = sorted(x.parts for x in ip.rchildren)
        if got != want:
            return f'rchildren of {p}: {got}'
        got = sorted(os.path.relpath(str(x), f) for x in ep.rchildren)
        if got != sorted('/'.join(q) for q in want):
            return f'rchildren of {ep}: {got}'
        for what, g in (('open', lambda: ip.open().read()), ('data', lambda: b''.join(ip.data)), ('path', lambda: ep.open().read())):
            try:
                r = g()
            except IsADirectoryError:
                r = 'dir'
            except FileNotFoundError:
                r = None
            except BaseException as e:
                return f'{what} of {p}: {e!r}'
            if r != (files[p] if p in files else 'dir' if p in every else None):
                return f'{what} of {p}: {r[:20] if r else r}'
    many = sorted(files)
    for p in many[:2]:
        for x in (inner(p), ZipPath(os.path.join(f, *p))):
            if x.open('r').read() != files[p] or x.open(mode='r').read() != files[p]:
                return f'open of {p} with a mode'
            try:
                x.open('nonsense')
            except ValueError:
                continue
            return f'open of {p} with a mode that is none'
    gens = [(p, inner(p).data) for p in many + many]
    acc = [[] for _ in gens]
    live = set(range(len(gens)))
    while live:
        for i in sorted(live, reverse=len(live) % 2):
            try:
                acc[i].append(next(gens[i][1]))
            except StopIteration:
                live.discard(i)
            except Exception as e:
                return f'reads of {gens[i][0]} that overlap: {e!r}'
    for (p, g), a in zip(gens, acc):
        if b''.join(a) != files[p]:
            return f'reads of {p} that overlap differ'
    # the same name in another directory
    os.mkdir('other')
    with zipfile.ZipFile(os.path.join('other', c['name']), 'w') as z:
        z.writestr('other', b'other')
    os.chdir(d)
    a = sorted(str(x) for x in ZipPath(c['name']).rchildren)
    if a != sorted(os.path.join(c['name'], *p) for p in every if p):
        return f'relative: {a}'
    os.chdir('../other')
    b = sorted(str(x) for x in ZipPath(c['name']).rchildren)
    if b != [c['name'] + '/other']:
        return f'relative, elsewhere: {b}'
    return None
