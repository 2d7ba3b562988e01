"""PathMeta values: equality (with text or parsed timestamps), copies, pickles,
item access, truth, id type, content_different."""
import copy
import pickle
from augpathlib import PathMeta
import gens
from gens import FIELDS
RULE = 'random pairs of records differing in at most one field; text and parsed timestamps; copies, pickles, items'


def cases(rng, tier):
    for f in FIELDS:
        yield {'k': 'truth', 'field': f, 'value': gens.gval(rng, f)}
    yield {'k': 'truth', 'field': None, 'value': None}
    for v in (1, 0, b'x', {'tuple': ['a']}, 1.5, True):
        yield {'k': 'id', 'value': v.decode() if isinstance(v, bytes) else v, 'bytes': isinstance(v, bytes)}
    for _ in range(200):
        yield {'k': 'diff', 'a': gens.gmeta(rng, p=1), 'b': gens.gmeta(rng, p=1),
               'same': rng.sample(['size', 'updated', 'checksum'], rng.randint(0, 3)),
               'drop_a': rng.random() < .5, 'drop_b': rng.random() < .5,
               'unknown': [rng.choice(['', '', 'updated', 'size', 'created']) for _ in 'ab']}
    for _ in range(2500 if tier == 'quick' else 50000):
        m = gens.gmeta(rng, p=rng.random(), need=())
        yield {'k': 'pair', 'meta': m, 'odd': rng.choice(FIELDS), 'to': rng.random(), 'text': rng.randrange(4),
               'touch': rng.randrange(4), 'new': None, 'extra': rng.choice([None, None, 1, 2]),
               'other_extra': rng.choice([None, 1, 2])} | {'seed': rng.randrange(10 ** 6)}


def run(c):
    k = c['k']
    if k == 'truth':
        m = PathMeta(**({} if c['field'] is None else {c['field']: gens.build(c['value'])}))
        want = c['field'] is not None and c['value'] != {'tuple': []}
        if bool(m) != want:
            return f'bool of a record with {c["field"]} is {bool(m)}'
        m.created, m.updated
        if bool(m) != want:
            return f'bool of a record with {c["field"]} is {bool(m)} after its timestamps were read'
        return
    if k == 'id':
        v = gens.build(c['value'])
        if c['bytes']:
            v = v.encode()
        try:
            return f'id {v!r} accepted: {PathMeta(id=v)!r}'
        except TypeError:
            return
    if k == 'diff':
        a, b = gens.kwargs(c['a']), gens.kwargs(c['b'])
        for f in c['same']:
            b[f] = a[f]
        if c['drop_a']:
            a['checksum'] = None
        if c['drop_b']:
            b['checksum'] = None
        for m, f in zip((a, b), c['unknown']):
            if f:
                m[f] = None
        want = (a['checksum'] != b['checksum'] if a['checksum'] and b['checksum'] else
                a['size'] != b['size'] or None not in (a['updated'], b['updated']) and a['updated'] < b['updated'])
        got = PathMeta(**a).content_different(PathMeta(**b))
        if bool(got) != want:
            return f'content_different is {got} instead of {want}'
        return
    return pair(c)


def mk(desc, text, extra):
    kw = gens.kwargs(desc)
    for f in ('created', 'updated'):
        if text and f in kw:
            kw[f] = kw[f].isoformat().replace('.', ',').replace('+00:00', 'Z')
    if extra is not None:
        kw['extra_field'] = extra
    return PathMeta(**kw)


def pair(c):
    import random
    desc, odd = c['meta'], c['odd']
    a = mk(desc, c['text'] & 1, c['extra'])
    same = mk(desc, c['text'] & 2, c['extra'])
    for m, bit in ((a, 1), (same, 2)):
        if c['touch'] & bit:
            m.created, m.updated
    if not (a == same) or a != same:
        return f'equal records compare unequal: {a!r} {same!r}'
    w = gens.check_meta(a, desc, 'values')
    if w:
        return w
    rng = random.Random(c['seed'])
    new = dict(desc)
    v = gens.gval(rng, odd)
    if odd in new and rng.random() < .5:
        del new[odd]
    else:
        new[odd] = v
    b = mk(new, c['text'] & 2, c['extra'])
    kw, kn = gens.kwargs(desc), gens.kwargs(new)
    for d in (kw, kn):
        d['errors'] = d.get('errors') or ()
    want = kw == kn
    if (a == b) != want or (b == a) != want:
        return f'records that differ in {odd} compare {a == b}'
    d = mk(desc, False, c['other_extra'])
    if (a == d) != (c['extra'] == c['other_extra']):
        return 'records with different unknown fields compare equal' if a == d else 'equal records with unknown fields differ'
    if a == None or a == 1 or a == dict(a.items()):   # noqa
        return 'a record equals something that is not a record'
    for how, f in (('copy', copy.copy), ('deepcopy', copy.deepcopy), ('pickle', lambda m: pickle.loads(pickle.dumps(m)))):
        x = f(a)
        if x is a or type(x) is not PathMeta:
            return f'{how} does not make a new record'
        if not (x == a):
            return f'{how} is not equal: {x!r} {a!r}'
        w = gens.check_meta(x, desc, f'after {how}')
        if w:
            return w
    for f in FIELDS:
        if a[f] != getattr(a, f) or a[f] != build(desc, f):
            return f'item {f} is {a[f]!r}'
    items = dict(a.items())
    for f in FIELDS:
        if items.get(f) != getattr(a, f):
            return f'items() has {items.get(f)!r} for {f}'
    if sorted(a) != sorted(FIELDS) or sorted(a.keys()) != sorted(FIELDS) or dict(a) != items:
        return f'the names are {sorted(a)}, the items {sorted(items)}'
    if 'size' in kw and a.size.mb != kw['size'] / 1024 ** 2:
        return f'{kw["size"]} bytes are {a.size.mb} megabytes'
    try:
        a['no such field']
        return 'an unknown item does not raise'
    except KeyError:
        pass


def build(desc, f):
    return gens.build(desc[f]) if f in desc and desc[f] != {'tuple': []} else (() if f == 'errors' else None)
