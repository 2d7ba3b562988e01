"""checksum against hashlib, for every combination of cypher given, cypher of the class and extra cyphers."""
import hashlib
import os
from augpathlib import LocalPath, AugmentedPath
from augpathlib.utils import default_cypher
RULE = 'class x cypher of the class x cypher given x extra cyphers x size around the read chunk size'
A = {'blake2b': hashlib.blake2b, 'sha256': hashlib.sha256, 'md5': hashlib.md5, 'sha1': hashlib.sha1}


def cases(rng, tier):
    for n in (0, 1, 4095, 4096, 4097, 8192):
        for own in (None, 'cache:blake2b', 'cache:sha256', 'path:sha256', 'cache:none'):
            for given in (None, 'blake2b', 'md5', 'sha256'):
                for extra in ([], ['sha1'], ['md5', 'sha256'], ['sha256', 'blake2b', 'sha1'],
                              ['sha256', 'sha1', 'sha256'], ['md5', 'sha1', 'sha256'] * 4):
                    yield {'n': n, 'own': own, 'given': given, 'extra': extra}
    yield {'what': 'dir'}
    yield {'what': 'none'}


def run(c):
    class P(LocalPath):
        sysid = 'x'
    if hasattr(P, '_bind_flavours'):
        P._bind_flavours()
    if 'what' in c:
        if c['what'] == 'dir':
            os.mkdir('f')
        r = P(os.path.abspath('f')).checksum()
        return None if r is None else f'checksum of no file: {r!r}'
    data = bytes((i * 13 + i // 251) % 256 for i in range(c['n']))
    own = c['own']
    if own and own.startswith('cache:'):
        class C:
            pass
        if own != 'cache:none':
            C.cypher = staticmethod(A[own[6:]]) if not isinstance(A[own[6:]], type) else A[own[6:]]
        P._cache_class = C
    elif own:
        P.cypher = staticmethod(A[own[5:]])
    p = P(os.path.abspath('f'))
    p._cache = None
    open(p, 'wb').write(data)
    kw = {}
    if c['given']:
        kw['cypher'] = A[c['given']]
    if c['extra']:
        kw['extra_cyphers'] = tuple(A[x] for x in c['extra'])
    got = p.checksum(**kw)
    a = c['given'] if c['given'] else (own.split(':')[1] if own and not own.endswith('none') else 'blake2b')
    want = A[a](data).digest()
    if c['extra']:
        want = (want,) + tuple(A[x](data).digest() for x in c['extra'])
    if got != want:
        return f'checksum is {got!r} instead of {want!r}'
