"""Shared generators: metadata values as JSON-able descriptions."""
from datetime import datetime, timezone, timedelta

ALPH = ['a', 'B', '0', ' ', '-', ':', '.', '/', '|', '!', ';', '#', 'é', '+00:00', ',', '..', 'Z', 'meta', 'mdv6', '\n', '%']
SAFE = [x for x in ALPH if x not in ('|', '!', ';', '/', '#')]
INTS = ('file_id', 'size', 'chunksize', 'multi', 'gid')
STRS = ('name', 'id', 'old_id', 'parent_id', 'mode', 'checksum_cypher')
FIELDS = ('name', 'size', 'created', 'updated', 'checksum', 'checksum_cypher', 'etag', 'chunksize', 'multi', 'parent_id',
          'id', 'file_id', 'old_id', 'gid', 'user_id', 'mode', 'errors')


def gstr(rng, alph=ALPH, lo=1, hi=5):
    return ''.join(rng.choice(alph) for _ in range(rng.randint(lo, hi)))


NAIVE = []      # [None] where times without a time zone are made as well


def gdt(rng):
    off = rng.choice([0, 0, 0, 60, -420, 330, 825, -1] + NAIVE)
    us = rng.choice([0, 0, 1, 999999, 100000, rng.randrange(10 ** 6)])
    return {'dt': [rng.randint(1970, 2100), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23),
                   rng.randint(0, 59), rng.randint(0, 59), us], 'off': off}


def gval(rng, field, alph=ALPH):
    if field in INTS:
        v = rng.choice([0, 1, -1, 7, 1023, 1024, 2 ** 31, 2 ** 63, 10 ** 20, rng.randrange(10 ** 9)])
        if field in ('size', 'chunksize'):
            v = abs(v)
        if field == 'file_id' and v == 0:
            v = 5
        return v
    if field in ('created', 'updated'):
        return gdt(rng)
    if field == 'checksum':
        return {'hex': bytes(rng.randrange(256) for _ in range(rng.choice([1, 4, 32]))).hex()}
    if field == 'etag':
        return {'etag': [bytes(rng.randrange(256) for _ in range(16)).hex(), rng.choice([0, 1, 2, 99, 10000])]}
    if field == 'user_id':
        return rng.choice([0, 1, 1000, 'N:user:' + gstr(rng, alph), 'x' + gstr(rng, alph)])
    if field == 'errors':
        return {'tuple': [gstr(rng, alph) for _ in range(rng.randint(1, 3))]}
    return gstr(rng, alph)


def gmeta(rng, alph=ALPH, p=.5, need=('id',)):
    return {f: gval(rng, f, alph) for f in FIELDS if f in need or rng.random() < p}


def build(v):
    if isinstance(v, dict):
        if 'dt' in v:
            y, mo, d, h, mi, s, us = v['dt']
            tz = None if v['off'] is None else timezone.utc if v['off'] == 0 else timezone(timedelta(minutes=v['off']))
            return datetime(y, mo, d, h, mi, s, us, tz)
        if 'hex' in v:
            return bytes.fromhex(v['hex'])
        if 'etag' in v:
            return (bytes.fromhex(v['etag'][0]), v['etag'][1])
        if 'tuple' in v:
            return tuple(v['tuple'])
    return v


def kwargs(desc):
    return {k: build(v) for k, v in desc.items()}


def meta(desc):
    from augpathlib import PathMeta
    return PathMeta(**kwargs(desc))


def check_meta(m, desc, what):
    """ every described value is the value m has, everything else is absent """
    for f in FIELDS:
        got = getattr(m, f)
        want = build(desc.get(f))
        if f == 'errors':
            want = want or ()
            got = tuple(got)
        if type(want) is int and f != 'user_id':
            ok = got == want and isinstance(got, int)
        elif want is None:
            ok = got is None
        else:
            ok = got == want and (isinstance(got, type(want)))
        if not ok:
            return f'{what}: {f} is {got!r} instead of {want!r}'
