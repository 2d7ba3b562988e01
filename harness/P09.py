"""etag against its definition (md5 of the md5s of the parts), for every way to cut the data."""
import hashlib
import os
from augpathlib import etag, LocalPath
RULE = 'chunk size x length around its multiples x cuts x when digest is called; files read with other chunk sizes'


def cases(rng, tier):
    for cs in (1, 2, 3, 5):
        for n in range(0, 4 * cs + 2):
            yield {'cs': cs, 'n': n, 'cuts': [], 'early': []}
            for k in range(0, n + 1):
                yield {'cs': cs, 'n': n, 'cuts': [k], 'early': [0]}
    for n in (0, 1, 4095, 4096, 4097, 8192, 9000):
        for cs in (1000, 4096, 4097, 8192, 10000):
            yield {'file': n, 'cs': cs, 'rc': None}
    for rc in (1, 2, 7):
        for cs in (1, 2, 3, 7, 8):
            yield {'file': 15, 'cs': cs, 'rc': rc}
    yield {'dir': True}
    while True:
        n = rng.randrange(80)
        cuts = sorted(rng.randrange(n + 1) for _ in range(rng.randrange(8)))
        yield {'cs': rng.randrange(1, 20), 'n': n, 'cuts': cuts, 'early': [i for i in range(len(cuts)) if rng.random() < .3]}


def blob(n):
    return bytes((i * 13 + i // 251) % 256 for i in range(n))


def spec(data, cs):
    parts = [hashlib.md5(data[i:i + cs]).digest() for i in range(0, len(data), cs)]
    return hashlib.md5(b''.join(parts)).digest(), len(parts)


def run(c):
    if 'dir' in c:
        os.mkdir('d')
        r = LocalPath(os.path.abspath('d')).etag(5), LocalPath(os.path.abspath('nope')).etag(5)
        return None if r == (None, None) else f'etag of no file: {r}'
    if 'file' in c:
        data = blob(c['file'])
        p = LocalPath(os.path.abspath('f'))
        open(p, 'wb').write(data)
        if c['rc']:
            p.chunksize = c['rc']
        got = p.etag(c['cs'])
        return None if tuple(got) == spec(data, c['cs']) else f'etag of a file of {len(data)} bytes, chunk size {c["cs"]}: {got}'
    data = blob(c.get('n', max(c['cuts'] or [0])))
    e = etag(c['cs'])
    at = 0
    for i, k in enumerate(list(c['cuts']) + [len(data)]):
        e.update(data[at:k])
        at = k
        if i in c.get('early', ()):
            got = e.digest()
            if tuple(got) != spec(data[:at], c['cs']):
                return f'digest after {at} of {len(data)} bytes is {got}'
    for _ in range(2):
        got = e.digest()
        if tuple(got) != spec(data, c['cs']):
            return f'etag of {len(data)} bytes in chunks of {c["cs"]} is {got} instead of {spec(data, c["cs"])}'
    d, n = spec(data, c['cs'])
    if e.hexdigest() != f'{d.hex()}-{n}':
        return f'hexdigest is {e.hexdigest()}'
