"""Fetching and validating through the public entry points: every combination of
what the record knows, what the data source gives, and the limit."""
import hashlib
import itertools
import os
import env
import guard
from augpathlib import PathMeta, SymlinkCache
from augpathlib import exceptions as exc
RULE = 'entry point x link/file/dir x size/checksum/etag right, wrong or unknown x known errors x limit x failure'
DATA = b'some data of the remote file'
MB = 1024 ** 2


def cases(rng, tier):
    c = []
    for at, size, csum, errs, cy in itertools.product(
            ('link', 'file', 'present'), ('right', 'wrong', 'zero', None), ('right', 'wrong', 'cut', 'long', None),
            ((), ('other',), ('checksum-mismatch',), ('other', 'checksum-mismatch'), ('checksum', 'other', 'x')), (None, 'sha256', 'blake2b')):
        c.append(dict(k='fetch', at=at, size=size, csum=csum, errs=errs, cy=cy, limit=None, fail=None, n=None))
    rng.shuffle(c)
    for at in ('link', 'file'):
        for size in ('under', 'equal', 'over', 'tiny-over', None):
            yield dict(k='limit', at=at, size=size)
        for size in ('under', 'equal', 'over', 'tiny-over'):
            yield dict(k='limit', at=at, size=size, lim='half')
        for lim in ('none', 'default'):
            yield dict(k='limit', at=at, size='over', lim=lim)
        for f in ('start', 'mid'):
            yield dict(k='fetch', at=at, size='right', csum='right', errs=(), cy=None, limit=None, fail=f, n=None)
    yield dict(k='dir')
    yield dict(k='nofile')
    for entry in ('fetch', 'validate'):
        for cy in ('md99', 'sha-256', 'SHA256', 'x'):
            for csum in ('sha256', 'blake2b'):
                yield dict(k='unknown', entry=entry, cy=cy, csum=csum)
    v = [dict(k='validate', size=s, csum=cs, errs=e, cy=cy, etag=et) for s, cs, e, cy, et in itertools.product(
        ('right', 'wrong', 'zero', None), ('right', 'wrong', 'cut', 'long', None), ((), ('other',), ('checksum-mismatch', 'x'), ('checksum', 'other', 'x')), (None, 'sha256', 'blake2b'), (None, 'right', 'wrong'))]
    rng.shuffle(v)
    for x in c + v:
        if rng.random() < .3:
            x['own'] = 'sha256'
    for a, b in itertools.zip_longest(c, v):
        if a:
            yield a
        if b:
            yield b


def digest(cy, data):
    if cy in (None, 'blake2b'):
        return hashlib.blake2b(data).digest()
    return hashlib.sha256(data).digest()


def known(p, w):
    """ the record stored at p, read back """
    c = w.CacheT(p)
    return SymlinkCache(c).meta if os.path.islink(p) else c.meta


def run(c):
    w = env.World()
    w.anchor()
    w.add('a', 'a.txt', data=DATA)
    if c['k'] == 'dir':
        w.add('d', 'd', dir=True)
        d = w.local('d')
        os.mkdir(d)
        for k, v in PathMeta(id='d', name='d').as_xattrs('vt').items():
            os.setxattr(d, b'user.' + k.encode() if isinstance(k, str) else b'user.' + k, v)
        before = env.tree(w.base)
        try:
            d.cache.fetch()
        except NotImplementedError:
            pass
        else:
            return 'a directory was fetched'
        return None if env.tree(w.base) == before and not w.fetched else 'fetching a directory changed something'
    if c['k'] == 'nofile':
        p = w.put('a.txt', link=True, id='a', name='a.txt', size=len(DATA))
        p.cache.fetch()
        if (('a', True)) not in w.refreshed and not w.fetched:
            return 'a record without file id is not refreshed'
        return
    if c['k'] == 'unknown':
        p = w.put('a.txt', data=DATA, id='a', name='a.txt', size=len(DATA), file_id=3, checksum=digest(c['csum'], DATA), checksum_cypher=c['cy'])
        try:
            if c['entry'] == 'fetch':
                p.cache.fetch(size_limit_mb=None)
            else:
                p.cache.validate_file()
        except NotImplementedError:
            return
        return f'the unknown cypher {c["cy"]} is not refused'
    if c['k'] == 'limit':
        size = {'under': 3 * MB - 1, 'equal': 3 * MB, 'tiny-over': 3 * MB + 1, 'over': 9 * MB, None: None}[c['size']]
        lim = {'none': None, 'default': 2, 'half': 2.5}.get(c.get('lim'), 3)
        if c.get('lim') == 'half' and c['size'] != 'over':
            size -= MB // 2
        p = w.put('a.txt', data=b'', link=c['at'] == 'link', id='a', name='a.txt', size=size, file_id=3)
        if size:
            w.nodes['a']['data'] = b'x' * size
        before = env.tree(w.base)
        p.cache.fetch(**({} if c.get('lim') == 'default' else {'size_limit_mb': lim}))
        done = bool(w.fetched)
        want = lim is None or c['size'] == 'under'
        if done != want:
            return f'fetched {done} with size {size} and limit {lim}'
        if not done and env.tree(w.base) != before:
            return 'a refused fetch changed something'
        if done and env.content(p) != w.nodes['a']['data']:
            return 'the fetched data differs'
        return
    cy = c['cy']
    own = c.get('own')
    if own:
        w.CacheT.cypher = hashlib.sha256
    kw = dict(id='a', name='a.txt', file_id=3, user_id=7, parent_id='root-id')
    if c['size']:
        kw['size'] = 0 if c['size'] == 'zero' else len(DATA) + (c['size'] == 'wrong')
    if c['csum']:
        kw['checksum'] = digest(cy or own, DATA + b'x' * (c['csum'] == 'wrong'))
        if c['csum'] in ('cut', 'long'):
            # of another length
            kw['checksum'] = {'cut': kw['checksum'][:-1], 'long': kw['checksum'] + b'x'}[c['csum']]
    if cy:
        kw['checksum_cypher'] = cy
    if c['errs']:
        kw['errors'] = tuple(c['errs'])
    if c['k'] == 'validate':
        et = c['etag']
        if et:
            # chunks of 10: md5 of the md5s
            parts = [hashlib.md5(DATA[i:i + 10]).digest() for i in range(0, len(DATA), 10)]
            kw['etag'] = (hashlib.md5(b''.join(parts)).digest(), len(parts) + (et == 'wrong'))
            kw['chunksize'] = 10
        p = w.put('a.txt', data=DATA, **kw)
        m0 = p.cache.meta
        before = env.tree(w.base)
        try:
            p.cache.validate_file()
            raised = None
        except Exception as e:
            raised = e
        want_size = not et and not kw.get('checksum') and c['size'] in ('wrong', 'zero')
        if bool(raised) != want_size or raised and not isinstance(raised, exc.SizeError):
            return f'validate raised {raised!r}'
        m = p.cache.meta
        bad = not et and c['csum'] in ('wrong', 'cut', 'long') and 'checksum-mismatch' not in c['errs']
        if m != (PathMeta(**{**kw, 'errors': tuple(c['errs']) + ('checksum-mismatch',)}) if bad else m0):
            return f'after validating the record is {m!r}'
        if not bad and env.tree(w.base) != before:
            return 'validating changed something'
        if env.content(p) != DATA:
            return 'validating changed the data'
        return
    if c['at'] == 'present':
        p = w.put('a.txt', data=DATA, **kw)
    else:
        p = w.put('a.txt', data=b'', link=c['at'] == 'link', **kw)
    if c['fail']:
        w.fail_data = None

        def chunks(id, real=w.chunks):
            if c['fail'] == 'mid':
                yield DATA[:3]
            raise OSError(5, 'source failed')
        w.chunks = chunks
    m0 = PathMeta(**kw)
    try:
        p.cache.fetch(size_limit_mb=None)
        raised = None
    except Exception as e:
        raised = e
    if c['fail']:
        if not isinstance(raised, OSError):
            return f'the failure of the data source is reported as {raised!r}'
        return None if known(p, w) == m0 else 'the record is lost if the source fails'
    if not os.path.isfile(p) or os.path.islink(p) or env.content(p) != DATA:
        return 'the fetched data is not at the path'
    if bool(raised) != (c['size'] != 'right'):
        return f'{c["size"]} size: {raised!r}'
    if raised:
        return None if isinstance(raised, ValueError) and known(p, w) == m0 else f'wrong size: {raised!r}'
    m = known(p, w)
    bad = c['csum'] not in ('right', None) and 'checksum-mismatch' not in c['errs']
    want = PathMeta(**{**kw, 'errors': tuple(c['errs']) + ('checksum-mismatch',)}) if bad else m0
    if m != want:
        return f'the record is {m!r} instead of {want!r}'
