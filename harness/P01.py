"""Metadata through real symbolic links, with and without a local name; golden
records of every published version; links that name another file."""
import os
from augpathlib import AugmentedPath, PathMeta
from augpathlib import exceptions as exc
from augpathlib.meta import _PathMetaAsSymlink
import gens
from gens import ALPH, SAFE, FIELDS
gens.NAIVE[:] = [None]
RULE = ('random metadata (17 fields, hostile alphabet), each field alone, golden records of 7 versions with 1 or 2 id '
        'components, name mismatches; every read goes through a real symbolic link')
_m = 'file_id size created updated checksum'.split()
FORMATS = {
    'meta': _m + 'old_id gid user_id mode errors'.split(),
    'mdv1': _m + 'chunksize old_id gid user_id mode errors'.split(),
    'mdv2': _m + 'etag chunksize old_id gid user_id mode errors'.split(),
    'mdv3': _m + 'etag chunksize parent_id old_id gid user_id mode name errors'.split(),
    'mdv4': _m + 'checksum_cypher etag chunksize parent_id old_id gid user_id mode name errors'.split(),
    'mdv5': _m + 'checksum_cypher etag chunksize parent_id old_id gid user_id mode name errors'.split(),
    'mdv6': _m + 'checksum_cypher etag chunksize multi parent_id old_id gid user_id mode name errors'.split(),
}


def cases(rng, tier):
    for f in FIELDS:
        for _ in range(4):
            yield {'k': 'field', 'field': f, 'value': gens.gval(rng, f, SAFE)}
        yield {'k': 'field', 'field': f, 'value': gens.gval(rng, f)}
    for f in gens.STRS + ('user_id',):
        for v in ('a.b', 'a/b', 'a|b', 'a!b', '#', '', 'x', '.', '..', 'a;b', 'a.', '/', ' '):
            yield {'k': 'field', 'field': f, 'value': v}
    for v in ([''], ['a', 'b'], ['a.b'], ['a;b'], ['a!b'], ['a|b'], ['#'], ['a', ''], ['a/b', 'c'], [], ['..'], ['a', '#']):
        yield {'k': 'field', 'field': 'errors', 'value': {'tuple': v}}
    for v in FORMATS:
        for n in range(10):
            yield {'k': 'golden', 'version': v, 'seed': rng.randrange(10 ** 9), 'ids': 1 + n % 2}
    for a, b in (('a', 'b'), ('a', 'A'), ('a', 'a '), ('a.txt', 'a.TXT'), ('x', '.x')):
        yield {'k': 'mismatch', 'link': a, 'inside': b}
    n = 0
    while n < (2500 if tier == 'quick' else 40000):
        n += 1
        yield {'k': 'meta', 'meta': gens.gmeta(rng, rng.choice([SAFE, SAFE, ALPH, ['a', '.', '/']]), rng.random()),
               'name': rng.random() < .7}


def representable(desc):
    bad = lambda v: '|' in v or '!' in v or v == '#'
    for f, v in desc.items():
        if isinstance(v, str) and (bad(v) or f == 'name' and '/' in v or f == 'id' and not v):
            return False
        if f == 'errors':
            e = v['tuple']
            if any(not x or ';' in x for x in e) or bad(';'.join(e)):
                return False
    return True


def domain(desc):
    """ user ids that look like numbers come back as numbers by design; ids
        that are not path components of their own have no representation """
    u = desc.get('user_id')
    if isinstance(u, str):
        try:
            int(u)
            return False
        except ValueError:
            pass
    if desc.get('file_id') == 0:
        return False
    return True


def through_link(m, desc, name):
    os.makedirs('d')
    fn = 'file.txt'
    try:
        link = m.as_symlink(**({'local_name': fn} if name else {}))
    except ValueError:
        if representable(desc):
            return 'representable metadata is refused'
        return
    s = str(link)
    if s.startswith('/'):
        return f'the link target is absolute: {s!r}'
    try:
        os.symlink(s, f'd/{fn}')
    except OSError:
        return                                  # longer than a symlink can be
    if os.path.exists(f'd/{fn}'):
        return 'the link points to something that exists'
    got = PathMeta.from_symlink(AugmentedPath(os.path.abspath(f'd/{fn}')))
    w = gens.check_meta(got, desc, 'read back from the link')
    if w:
        return w
    if got != m:
        return f'metadata read back is not equal: {got!r} != {m!r}'


def run(c):
    if c['k'] in ('field', 'meta'):
        if c['k'] == 'field':
            desc = {'id': 'N:x:1'}
            if c['value'] is None:
                import random
                c = dict(c, value=gens.gval(random.Random(3), c['field']))
            v = c['value']
            if c['field'] == 'errors' and isinstance(v, list):
                v = {'tuple': v}
            desc[c['field']] = v
        else:
            desc = c['meta']
        if not domain(desc):
            return
        m = gens.meta(desc)
        if c['k'] == 'field':
            w = direct(m, desc, c['field'])
            if w:
                return w
            os.mkdir('n')
            os.chdir('n')
            w = through_link(m, desc, False)
            if w:
                return w
            os.chdir('..')
        return through_link(m, desc, c.get('name', True))
    if c['k'] == 'golden':
        return golden(c)
    if c['k'] == 'mismatch':
        m = PathMeta(id='N:1', size=3)
        os.symlink(str(m.as_symlink(local_name=c['inside'])), c['link'])
        p = AugmentedPath(os.path.abspath(c['link']))
        try:
            got = PathMeta.from_symlink(p)
        except exc.CircularSymlinkNameError:
            return
        return f'a link that names {c["inside"]!r} is read as metadata of {c["link"]!r}'


def direct(m, desc, field):
    codec = _PathMetaAsSymlink()
    v = gens.build(desc.get(field))
    try:
        t = codec.encode(field, v)
    except ValueError:
        if representable(desc):
            return f'{field}: representable value {v!r} is refused'
        return
    if not representable(desc):
        return f'{field}: {v!r} is not refused, it is written as {t!r}'
    if '.' in t or '/' in t:
        return f'{field}: {v!r} is written with a separator: {t!r}'


def golden(c):
    import random
    rng = random.Random(c['seed'])
    v = c['version']
    desc = {}
    toks = []
    for f in FORMATS[v]:
        if rng.random() < .3:
            toks.append('#')
            continue
        esc = v in ('mdv5', 'mdv6')
        alph = ['a', 'b', ' ', ':', '-', 'é']
        val = gens.gval(rng, f, alph)
        if f == 'user_id':
            val = rng.choice([5, 'x y'])
        if f in ('created', 'updated') and val['off'] == -1:
            val['off'] = 0
        desc[f] = val
        b = gens.build(val)
        if f in ('created', 'updated'):
            toks.append(b.isoformat().replace('.', ',').replace('+00:00', 'Z'))
        elif f == 'checksum':
            toks.append(b.hex())
        elif f == 'etag':
            toks.append(f'{b[0].hex()}-{b[1]}')
        elif f == 'errors':
            toks.append(';'.join(b))
        else:
            toks.append(str(b))
            if isinstance(b, str) and f in ('old_id', 'parent_id', 'mode') and rng.random() < .3:
                toks[-1] += '|q'
                desc[f] += '/q'
            if esc and isinstance(b, str) and f != 'user_id' and rng.random() < .3:
                toks[-1] += '!r'
                desc[f] += '.r'
    if v not in ('meta', 'mdv1'):
        toks.append(rng.choice(['#', '10K', '2.5M', '??']))
    ids = ['N:a:1', 'N:b:2'][:c['ids']]
    desc['id'] = '/'.join(ids)
    os.symlink('/'.join(['f', *ids, f'.{v}.' + '.'.join(toks)]), 'f')
    got = PathMeta.from_symlink(AugmentedPath(os.path.abspath('f')))
    return gens.check_meta(got, desc, f'a version {v} record')
