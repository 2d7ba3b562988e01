"""Merging metadata: what the merge of two records holds and whether it counts
as a change of content; and the same through updating a cache from its remote."""
import os
import pathlib
from augpathlib import PathMeta, PrimaryCache
from run import NotApplicable
import gens
from gens import FIELDS
RULE = 'random pairs of records differing in a few fields or entirely; merges stored on directories and symlinks'
DIFF = ('created', 'updated', 'size', 'checksum', 'file_id')
ALPH = [x for x in gens.SAFE if x not in ('\n', '%')]


def cases(rng, tier):
    for f in FIELDS:
        for p in ('absent', 'old', 'new', 'same', 'both'):
            for q in ('same', 'content', 'oldonly', 'newonly'):
                yield {'k': 'pair', **pair(rng, f, p, q)}
    for a in (None, {}):
        m = gens.gmeta(rng, ALPH, 1)
        yield {'k': 'none', 'none': a, 'meta': m, 'swap': False}
        yield {'k': 'none', 'none': a, 'meta': m, 'swap': True}
    for _ in range(150):
        yield {'k': 'dir', 'old': gens.gmeta(rng, ALPH, rng.random()), 'new': gens.gmeta(rng, ALPH, rng.random())}
    for _ in range(2000 if tier == 'quick' else 60000):
        a = gens.gmeta(rng, ALPH, rng.random(), need=())
        b = dict(a)
        for f in rng.sample(FIELDS, rng.randint(0, 4)):
            if rng.random() < .4:
                b.pop(f, None)
            else:
                b[f] = gens.gval(rng, f, ALPH)
        for f in rng.sample(FIELDS, rng.choice([0, 0, 1, 3])):
            a.pop(f, None)
        yield {'k': 'pair', 'old': a, 'new': b}


def pair(rng, f, p, q):
    a = gens.gmeta(rng, ALPH, 1 if q in ('same', 'content') else .3)
    b = dict(a)
    if q == 'content':
        g = rng.choice([g for g in DIFF if g != f])
        b[g] = gens.gval(rng, g, ALPH)
    if q == 'oldonly':
        b = {k: v for k, v in b.items() if k == 'id'}
    if q == 'newonly':
        a = {k: v for k, v in a.items() if k == 'id'}
    for d in (a, b):
        d.pop(f, None)
    if p in ('old', 'same', 'both'):
        a[f] = gens.gval(rng, f, ALPH)
    if p == 'same':
        b[f] = a[f]
    if p in ('new', 'both'):
        b[f] = gens.gval(rng, f, ALPH)
    return {'old': a, 'new': b}


def norm(desc):
    d = {f: gens.build(desc.get(f)) for f in FIELDS}
    d['errors'] = d['errors'] or None
    return d


def expected(old, new):
    """ (different, fields): the rule, from the statement """
    o, n = norm(old), norm(new)
    if not any(v is not None for v in o.values()):
        return False, n
    if not any(v is not None for v in n.values()):
        return False, o
    diff = any(o[f] is not None and n[f] is not None and o[f] != n[f] for f in DIFF)
    out = {}
    for f in FIELDS:
        if n[f] is not None:
            out[f] = n[f]
        elif f == 'old_id' and o['id'] != n['id']:
            out[f] = o['id']
        elif diff and f not in ('errors', 'old_id'):
            out[f] = None
        else:
            out[f] = o[f]
    return diff, out


def compare(m, want, what):
    for f in FIELDS:
        got = getattr(m, f)
        if f == 'errors':
            got = tuple(got) or None
        if not (got == want[f] and (got is None) == (want[f] is None)):
            return f'{what}: {f} is {got!r} instead of {want[f]!r}'


def merge(a, b):
    f = getattr(PrimaryCache, '_update_meta', None)
    if f is None:
        raise NotApplicable
    return f(a, b)


def run(c):
    if c['k'] == 'none':
        n = None if c['none'] is None else PathMeta()
        m = gens.meta(c['meta'])
        d, r = merge(m, n) if c['swap'] else merge(n, m)
        if d is not False or r != m:
            return f'merging with nothing gives {d} {r!r}'
        return
    if c['k'] == 'dir':
        return stored(c)
    a, b = gens.meta(c['old']), gens.meta(c['new'])
    d, r = merge(a, b)
    wd, want = expected(c['old'], c['new'])
    if bool(d) != wd:
        return f'content {"changed" if wd else "did not change"} but the merge says {d}'
    for m, desc, w in ((a, c['old'], 'the old record'), (b, c['new'], 'the new record')):
        x = compare(m, norm(desc), f'{w} was altered')
        if x:
            return x
    return compare(r, want, 'merge')


def stored(c):
    import env
    w = env.World()
    w.anchor()
    old = {k: v for k, v in c['old'].items() if k != 'errors'}
    new = {k: v for k, v in c['new'].items() if k != 'errors'}
    ids = {'id': 'x', 'name': 'd'}
    old, new = {**old, **ids}, {**new, **ids}
    for d in (old, new):
        if isinstance(d.get('user_id'), str):
            d.pop('user_id')
    p = w.local('d')
    p.mkdir()
    for k, v in gens.meta(old).as_xattrs('vt').items():
        os.setxattr(p, b'user.' + (k if isinstance(k, bytes) else k.encode()), v)
    w.nodes['x'] = dict(name='d', parent='root-id', dir=True, data=b'', kw={})
    w.CacheT(p, meta=gens.meta(new))
    m = w.CacheT(p).meta
    wd, want = expected(old, new)
    if wd:
        return     # attributes of the previous content are not claimed
    return compare(m, want, 'stored on the directory')
