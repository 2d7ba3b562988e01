"""Tables of records, alone and side by side, read back cell by cell; sizes for people."""
import re
import pathlib
from augpathlib import PathMeta
from augpathlib.utils import FileSize
import gens
RULE = 'random records with any fields known, errors, text and parsed timestamps; sizes around every unit'
ORDER = ('size', 'created', 'updated', 'checksum', 'checksum_cypher', 'etag', 'chunksize', 'parent_id', 'id', 'file_id', 'gid',
         'user_id', 'mode', 'name', 'old_id', 'multi', 'errors')


def cases(rng, tier):
    for k in range(0, 9):
        for d in (-3, -2, -1, 0, 1, 2, 513):
            yield {'size': max(0, 1024 ** k + d)}
            yield {'size': max(0, 1024 ** k * 700 + d)}
    yield {'size': -1}
    for f in ORDER:
        for g in ORDER:
            yield {'a': {f: 1}, 'b': {g: 1}, 'seed': 1, 'human': True, 'title': 'x'}
            yield {'a': {f: 1}, 'b': {f: 1, g: 1}, 'seed': 1, 'human': False, 'title': None}
            yield {'a': {f: 1, g: 1}, 'b': {}, 'seed': 1, 'human': False, 'title': ''}
    while True:
        p, q = rng.random(), rng.random()
        yield {'a': {f: 1 for f in ORDER if rng.random() < p}, 'b': {f: 1 for f in ORDER if rng.random() < q},
               'seed': rng.randrange(10 ** 6), 'human': rng.choice([True, False, None]), 'title': rng.choice([None, '', 'a title', 'path', 'both', 'empty'])}


def clean(v):
    """ what would break the table into other lines and cells """
    if isinstance(v, str):
        return ''.join(c for c in v if c.isalnum() and c.isascii() or c in ':-/.') or 'x'
    if isinstance(v, tuple):
        return tuple(clean(x) for x in v)
    return v


def make(c, rng):
    import random
    m = gens.gmeta(random.Random(rng), p=1, need=ORDER)
    kw = gens.kwargs(m)
    return {f: clean(kw.get(f)) for f in c}


def cells(t):
    out = [[x.strip() for x in l.split('|')[1:-1]] for l in t.splitlines() if l.startswith('|')]
    return out[0], out[1:]


def shown(m, f, human):
    v = getattr(m, f)
    if v is None or v == ():
        return None
    if f == 'size':
        return v.hr if human else str(int(v))
    if f in ('created', 'updated'):
        return 'time'
    if f == 'checksum':
        return v.hex() if isinstance(v, bytes) else v
    if f == 'errors':
        return str(list(v))
    if f == 'etag' and isinstance(v, tuple):
        return (v[0].hex() if isinstance(v[0], bytes) else str(v[0])) + '-' + str(v[1])
    return str(v)


def differs(x, y):
    """ whether a cell is not what is to be shown """
    if x == 'time':
        return not re.match(r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d', y)
    return x != y


def run(c):
    if 'size' in c:
        n = c['size']
        got = FileSize(n).hr
        if n < 0:
            return None if got == '??' else f'{n} is {got}'
        m = re.fullmatch(r'(\d+)(\.\d)?([KMGTPEZ]|Yi)?', got)
        if not m:
            return f'{n} is {got}'
        k = ('', 'K', 'M', 'G', 'T', 'P', 'E', 'Z', 'Yi').index(m[3] or '')
        u = 1024 ** k
        if abs(int(m[1]) * u - n) * 2 > u * 1.0001 or k and n < 1024 ** k * (1 - 1e-9) or k < 8 and n >= 1024 ** (k + 1):
            return f'{n} is {got}'
        if abs(FileSize(n).mb * 1024 ** 2 - n) > n * 1e-9:
            return f'{n} bytes are {FileSize(n).mb} mb'
        return
    ka, kb = make(c['a'], c['seed']), make(c['b'], c['seed'] + (c['seed'] % 2))
    a, b = PathMeta(**ka), PathMeta(**kb)
    human = {} if c['human'] is None else {'human': c['human']}
    kw = dict(human)
    t = c['title']
    p = pathlib.Path('some/../thing.x').absolute()
    title = ''
    if t in ('path', 'both', 'empty'):
        kw['pathobject'] = p
        title = p.name
    if t in ('both', 'empty'):
        kw['title'] = title = 'given' if t == 'both' else ''
    elif t not in (None, 'path'):
        kw['title'] = title = t
    rank = lambda f: (ORDER.index(f) if f in ORDER else len(ORDER), f)
    for m, k in ((a, ka), (b, kb)):
        known = {f: shown(m, f, c['human']) for f in k}
        want = [(f, known[f]) for f in sorted(known, key=rank) if known[f] is not None]
        txt = m.as_pretty(**kw)
        head, got = cells(txt)
        if head[0] != 'Key' or head[1] != f'Value    {title}'.strip():
            return f'head {head} for {title!r}'
        if [x[0] for x in got] != [f for f, _ in want]:
            return f'fields {[x[0] for x in got]} instead of {[f for f, _ in want]}'
        for (f, v), x in zip(want, got):
            if differs(v, x[1]):
                return f'{f}: {x[1]!r} instead of {v!r}'
    va, vb = ({f: shown(m, f, c['human']) for f in k if shown(m, f, c['human']) is not None} for m, k in ((a, ka), (b, kb)))
    if t == 'path':
        title = p.relative_to(p.cwd()).as_posix()
    txt = a.as_pretty_diff(b, **kw)
    head, got = cells(txt)
    if [x[0] for x in got if x[0]] != sorted(va, key=rank) or [x[2] for x in got if x[2]] != sorted(vb, key=rank):
        return f'diff of {sorted(va)} and {sorted(vb)} shows {[x[0] for x in got]} and {[x[2] for x in got]}'
    if [x[0] or x[2] for x in got] != sorted({**va, **vb}, key=rank):
        return f'diff of {sorted(va)} and {sorted(vb)}: not in order or not aligned: {[(x[0], x[2]) for x in got]}'
    for x in got:
        f = x[0] or x[2]
        for k, v, known in ((x[0], x[1], va), (x[2], x[3], vb)):
            if (k == f) != (f in known) or k not in ('', f):
                return f'{f}: {x}'
            if k and differs(known[f], v) or not k and v:
                return f'{f}: {v!r} instead of {known.get(f)!r}'
    red = '\x1b[31m' in txt
    if title and red != bool(a.content_different(b)):
        return f'red: {red}, content different: {a.content_different(b)}'
    if title and title not in txt and max(map(len, txt.splitlines())) > len(title) + 12:
        return f'no title {title!r}'
