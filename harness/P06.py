"""Metadata stored as links: every ordering of the old and new record, what is
there before, and a failing file system call at each point."""
import os
import itertools
import env
import guard
from augpathlib import SymlinkCache, PathMeta
from augpathlib import exceptions as exc
from augpathlib.utils import fs_safe_id
from datetime import datetime, timezone, timedelta
RULE = 'id relation x updated/created/size presence and order x what is at the path x n-th failing call'
from datetime import timezone as tz
# a day apart, a microsecond apart, and the same moment in another zone
T = [None] + [datetime(2020, 1, d, 3, 4, 5, 678901 * (d % 2), tzinfo=timezone.utc) for d in (1, 2)]
T += [T[1] + timedelta(microseconds=1), T[2].astimezone(timezone(timedelta(hours=9))), T[2] - timedelta(microseconds=1)]


def cases(rng, tier):
    c = [dict(zip(('same', 'ou', 'nu', 'oc', 'nc', 'os', 'ns'), v)) | {'at': 'link', 'n': None, 'trash': False}
         for v in itertools.product((False, True), (0, 1, 2), (0, 1, 2), (0, 1, 2), (0, 1, 2), (None, 3), (None, 3, 5))]
    near = [dict(same=False, ou=a, nu=b, oc=x, nc=y, os=3, ns=5, at='link', n=None, trash=False)
            for a, b in itertools.product(range(1, 6), repeat=2) for x, y in ((1, 1), (1, 3), (3, 1), (2, 5), (5, 4), (4, 2))]
    near += [dict(same=same, ou=1, nu=b, oc=1, nc=1, os=o, ns=n, at='link', n=None, trash=False)
             for same in (True, False) for b in (1, 2) for o, n in itertools.product((0, 1, None), (0, 1, None))]
    rng.shuffle(c)
    rng.shuffle(near)
    yield from near
    for at in ('file', 'dir', 'resolving', 'resolving-dir'):
        yield c[0] | {'at': at}
    for same in (True, False):
        for n in range(1, 8):
            for tr in (False, True):
                yield dict(same=same, ou=1, nu=2, oc=1, nc=1, os=3, ns=5, at='link', n=n, trash=tr)
                yield dict(same=same, ou=2, nu=1, oc=1, nc=1, os=3, ns=5, at='link', n=n, trash=tr)
    yield dict(same=True, ou=1, nu=1, oc=1, nc=1, os=3, ns=3, at='link', n=None, trash=False)
    yield dict(same=True, ou=1, nu=2, oc=1, nc=1, os=3, ns=5, at='none', n=None, trash=False)
    yield from c


def run(c):
    w = env.World()
    w.anchor()
    idn = 'i:1' if c['same'] else 'j:2'
    w.nodes['i:1'] = w.nodes['j:2'] = dict(name='f.x', parent='root-id', dir=False, data=b'', kw={})
    old = dict(id='i:1', name='f.x', updated=T[c['ou']], created=T[c['oc']], size=c['os'])
    new = dict(id=idn, name='f.x', updated=T[c['nu']], created=T[c['nc']], size=c['ns'])
    p = w.put('f.x', link=True, **old)
    cache = w.CacheT(p)
    if SymlinkCache(cache).meta != PathMeta(**old):
        return 'the metadata of a link does not read back'
    if c['at'] != 'link':
        os.unlink(p)
    if c['at'] == 'file':
        open(p, 'w').write('data')
    if c['at'] == 'dir':
        os.mkdir(p)
    if c['at'].startswith('resolving'):
        if c['at'] == 'resolving':
            open(str(p) + 'x', 'w').write('data')
        else:
            os.mkdir(str(p) + 'x')
        os.symlink(str(p) + 'x', p)
        try:
            m = SymlinkCache._meta_impl(cache)
            return f'metadata {m!r} read from a link to a file'
        except BaseException as e:
            if not isinstance(e, exc.PathExistsError):
                return f'{e!r} from a link to something that exists'
    if c['trash']:
        q = w.base + '/trash/' + fs_safe_id('i:1')
        open(q, 'w').write('x')
    before = env.tree(w.base, skip=('root/.operations',))
    m = PathMeta(**new)
    raised = None
    with guard.fault(c['n']):
        try:
            SymlinkCache(cache, meta=m)
        except BaseException as e:
            raised = e
    after = env.tree(w.base, skip=('root/.operations',))
    me, tr = 'root/f.x', 'trash/' + fs_safe_id('i:1')
    if c['at'] in ('file', 'dir', 'resolving', 'resolving-dir'):
        if not isinstance(raised, exc.PathExistsError):
            return f'metadata written where something exists: {raised!r}'
        return None if after == before else 'a refused write changed something'
    if c['at'] == 'none':
        if raised or SymlinkCache(w.CacheT(p)).meta != m:
            return f'not stored: {raised!r}'
        return
    want_link = str(m.as_symlink(local_name='f.x'))
    a, b = T[c['ou']], T[c['nu']]
    x, y = T[c['oc']], T[c['nc']]
    later = a is not None and b is not None and (a < b or a == b and x is not None and y is not None and x < y)
    loses = c['os'] is not None and c['ns'] is None
    may = PathMeta(**old) != m and (c['same'] or later) and not loses
    got = after.get(me)
    if raised is not None:
        if c['n'] is None:
            if may:
                return f'metadata that should be stored is refused: {raised!r}'
            if after != before:
                return f'a refused update changed something: {raised!r}'
            amb = not c['same'] and a is not None and a == b and x is None and y is not None
            if isinstance(raised, exc.MetadataIdMismatchError) and not amb:
                return f'refused as a mismatch: {raised!r}'
            if not isinstance(raised, exc.MetadataIdMismatchError) and (a is None) == (b is None):
                return f'unexpected {raised!r}'
            return
        if before[me] not in (got, after.get(tr)):
            return f'the old metadata is lost: {raised!r}'
        return
    if not may:
        if after != before:
            return f'the old metadata was replaced by {got}'
        if not c['same'] and a is not None and a == b and x is None and y is not None:
            return 'records of different ids that cannot be ordered are accepted silently'
        return
    if got != ('link', want_link):
        return f'the link is {got} instead of {want_link}'
    if after.get(tr) != before[me]:
        if not c['trash']:
            return 'the replaced link is not in the trash'
    if SymlinkCache(w.CacheT(p)).meta != m:
        return 'does not read back'
