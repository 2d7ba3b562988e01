"""Metadata through xattr dictionaries, real extended attributes and metastore
blobs, next to foreign attributes."""
import os
import struct
from datetime import datetime
from augpathlib import PathMeta, LocalPath
from augpathlib.meta import _PathMetaAsXattrs
import gens
from gens import FIELDS
gens.NAIVE[:] = [None]
RULE = 'random metadata x prefixes x foreign attributes; each field alone; packed timestamps; real xattrs on a file'
ALPH = [x for x in gens.ALPH if x != ';']


def cases(rng, tier):
    for f in FIELDS:
        for _ in range(6):
            yield {'k': 'field', 'field': f, 'value': gens.gval(rng, f, ALPH)}
    for f in FIELDS:
        yield {'k': 'empty', 'field': f}
    for t in (0.0, 1.5, 1234567890.25, 4102444800.0):
        yield {'k': 'packed', 't': t}
    for n in range(40):
        yield {'k': 'real', 'meta': gens.gmeta(rng, ALPH, rng.random()), 'prefix': rng.choice(['bf', 'a.b', 'x'])}
    for _ in range(2500 if tier == 'quick' else 60000):
        yield {'k': 'meta', 'meta': gens.gmeta(rng, ALPH, rng.random(), need=()),
               'prefix': rng.choice([None, 'bf', 'bf.x', 'id', 'name', 'user', 'é', '']),
               'foreign': rng.random() < .5}


def domain(desc):
    u = desc.get('user_id')
    if isinstance(u, str):
        try:
            int(u)
            return False
        except ValueError:
            pass
    if any(isinstance(v, str) and v == '' for v in desc.values()):
        return False
    return all(e and ';' not in e for e in desc.get('errors', {'tuple': ()})['tuple'])


def run(c):
    k = c['k']
    if k == 'field':
        v = c['value']
        if v is None:
            import random
            v = gens.gval(random.Random(3), c['field'], ALPH)
        if c['field'] == 'errors' and isinstance(v, list):
            v = {'tuple': v}
        return meta({'meta': {c['field']: v}, 'prefix': 'bf', 'foreign': False})
    if k == 'empty':
        codec = _PathMetaAsXattrs()
        for v in (None, '', (), []):
            try:
                return f'an empty value is encoded as {codec.encode(c["field"], v)!r}'
            except TypeError:
                pass
        return
    if k == 'packed':
        m = PathMeta.from_xattrs({b'bf.created': struct.pack('d', c['t']), b'bf.updated': struct.pack('d', c['t'])}, 'bf')
        if m.created != datetime.fromtimestamp(c['t']) or m.updated != datetime.fromtimestamp(c['t']):
            return f'packed timestamp {c["t"]} read as {m.created!r}'
        return
    if k == 'real':
        return real(c)
    return meta(c)


def meta(c):
    desc, prefix = c['meta'], c['prefix']
    if not domain(desc):
        return
    if 'errors' in desc and not desc['errors']['tuple']:
        desc = {k: v for k, v in desc.items() if k != 'errors'}
    m = gens.meta(desc)
    x = m.as_xattrs(*(() if prefix is None else (prefix,)))
    pre = prefix + '.' if prefix else ''
    want = {(pre + f).encode() for f in desc}
    if set(x) != want:
        return f'attributes written {sorted(x)} instead of {sorted(want)}'
    if any(not isinstance(v, bytes) for v in x.values()):
        return 'attribute values are not bytes'
    if c['foreign'] and prefix:
        for f in FIELDS:
            for p in ('', prefix + 'x.', prefix, 'x' + prefix + '.', 'user.' + prefix + '.'):
                key = (p + f).encode()
                if not (p + f).startswith(prefix + '.'):
                    x[key] = b'1234'
        more = dict(x)
        for n in ('x.size', 'x.name', 'size.x', 'sizes', 'nam', 'NAME', '_created', '_size'):
            more[(prefix + '.' + n).encode()] = b'1234'
        w = gens.check_meta(PathMeta.from_xattrs(more, prefix), desc, 'read back next to unknown attributes of the prefix')
        if w:
            return w
    got = PathMeta.from_xattrs(x, *(() if prefix is None else (prefix,)))
    w = gens.check_meta(got, desc, 'read back from xattrs')
    if w:
        return w
    if got != m or getattr(got, '_PathMeta__kwargs', None):
        return 'metadata read back from xattrs is not equal'
    given = () if prefix is None else (prefix,)
    b = m.as_metastore(*given)
    if not isinstance(b, bytes):
        return 'blob is not bytes'
    got = PathMeta.from_metastore(b, *given)
    w = gens.check_meta(got, desc, 'read back from the metastore blob')
    return w or (None if got == m else 'metadata read back from the metastore is not equal')


def real(c):
    desc = c['meta']
    if not domain(desc):
        return
    m = gens.meta(desc)
    open('f', 'w').close()
    p = LocalPath(os.path.abspath("f"))
    p.setxattr('id', b'foreign')
    p.setxattr(c['prefix'] + 'size', b'77')
    p.setxattrs(m.as_xattrs(c['prefix']))
    got = PathMeta.from_xattrs(p.xattrs(), c['prefix'], p)
    return gens.check_meta(got, desc, 'read back from the file attributes') or (
        None if got == m else 'not equal')
