"""PathMeta is a value: equality, copying, item access, truth, id type and the
definition of changed content."""
from datetime import datetime
from pyvc.api import *
from augpathlib import meta as M
from augpathlib.utils import FileSize

ASSUMES = ['dateutil.parser.parse is a function of its text',
           'copy and pickle rebuild an object by calling what __reduce__ returns']
FIELDS = ('name', 'size', 'created', 'updated', 'checksum', 'checksum_cypher', 'etag', 'chunksize', 'multi', 'parent_id',
          'id', 'file_id', 'old_id', 'gid', 'user_id', 'mode', 'errors')
INTS = ('size', 'file_id', 'chunksize', 'multi', 'gid')


def env(vc):
    textmod.install(vc)
    vc.class_models[FileSize] = lambda x: SInt(it(x), FileSize)
    import dateutil.parser
    memo = []

    def parse(s, *a, **k):
        for t, d in memo:
            if t is s:
                return d
        d = vc.int('parsed', cls=datetime)
        memo.append((s, d))
        return d
    vc.stubs[dateutil.parser.parse] = parse


def val_of(vc, f, tag='', lazy=True):
    if f in INTS:
        v = vc.int(f + tag)
        if f == 'file_id':
            vc.assume(v.t != 0)
        return v
    if f in ('created', 'updated'):
        if lazy and vc.maybe(f + tag + ' given as text'):
            return textmod.text(vc, f + tag)
        return vc.int(f + tag, cls=datetime)
    if f == 'id':
        return textmod.text(vc, 'id' + tag)
    if f == 'errors':
        return (vc.any('error' + tag),)
    return vc.any(f + tag)


def make(vc, tag='', odd=None, extra=False, lazy=('created', 'updated')):
    """ a record with every field set but the odd one """
    kw = {}
    for f in FIELDS:
        kw[f] = None if f == odd else val_of(vc, f, tag, f in lazy)
    if kw['errors'] is None:
        kw['errors'] = ()
    if extra:
        kw['something_else'] = vc.any('extra' + tag)
    m = vc.attempt(M.PathMeta, **kw)
    vc.prove('a record is made of any values', m.ok)
    return m.value, kw


def shown(v, kw, f, m):
    """ the value the field denotes """
    return getattr(m, f)


@contract('__init__ keeps every value', max_paths=20000)
def keeps(vc):
    env(vc)
    odd = FIELDS[vc.choose(len(FIELDS), 'absent')]
    m, kw = make(vc, '', odd)
    for f in FIELDS:
        got = vc.attempt(lambda: getattr(m, f)).value
        v = kw[f]
        if f in ('created', 'updated') and isinstance(v, str):
            vc.prove(f'{f}: text is read as a time', isinstance(got, datetime))
        elif f == 'errors':
            vc.prove('errors', got == v)
        elif v is None:
            vc.prove(f'{f}: absent', got is None)
        else:
            vc.prove(f'{f}: the value given', got == v)
        g2 = vc.attempt(vc.getitem, m, f)
        vc.prove(f'{f}: item access gives the same', g2.ok and (g2.value is got or g2.value == got))


@contract('names', max_paths=20000)
def names(vc):
    env(vc)
    odd = FIELDS[vc.choose(len(FIELDS), 'absent')]
    m, kw = make(vc, '', odd)
    for how, f in (('iterating', lambda: list(m)), ('keys', lambda: list(m.keys())), ('items', lambda: [k for k, _ in m.items()])):
        r = vc.attempt(f)
        vc.prove(f'{how}: every field once and nothing else', r.ok and sorted(r.value) == sorted(FIELDS))
    for k, v in vc.attempt(m.items).value:
        g = getattr(m, k)
        vc.prove('an item has the value of the field', v is g or v == g)


@contract('sizes')
def sizes(vc):
    env(vc)
    n = vc.int('bytes', 0)
    r = vc.attempt(M.PathMeta, size=n)
    s = r.value.size
    vc.prove('a size is a file size of that many bytes', s == n and s.__class__ is FileSize)
    mb = vc.attempt(FileSize.mb.fget, s)
    vc.prove('megabytes', mb.ok and mb.value * 1024 ** 2 == n)


@contract('item access of an unknown name')
def unknown(vc):
    env(vc)
    m, kw = make(vc)
    r = vc.attempt(vc.getitem, m, 'nope')
    vc.prove('KeyError', r.raised(KeyError))


def eq_spec(odd):
    def spec(vc):
        env(vc)
        ea = eb = False
        if odd is None:
            ea, eb = vc.maybe('extra a'), vc.maybe('extra b')
        # lazily parsed or not must not matter
        lazy = [odd] if odd in ('created', 'updated') else []
        a, ka = make(vc, ' a', odd if odd and vc.maybe('a lacks it') else None, ea, lazy)
        b, kb = make(vc, ' b', odd if odd and vc.maybe('b lacks it') else None, eb, lazy)
        if lazy and vc.maybe('a already parsed'):
            getattr(a, odd)
        e = vc.attempt(lambda: a == b)
        vc.prove('comparison does not fail', e.ok)
        if not e.ok:
            return
        same = []
        for f in FIELDS:
            x, y = getattr(a, f), getattr(b, f)
            if x is None or y is None:
                same.append(x is y)
            elif isinstance(x, tuple) and isinstance(y, tuple):
                same.append(len(x) == len(y) and (not x or x[0] == y[0]))
            else:
                same.append(x == y)
        if ea and eb:
            same.append(ka['something_else'] == kb['something_else'])
        elif ea or eb:
            same.append(False)
        got = e.value
        vc.prove('equal exactly when every field is', Iff(bool(got), And(*same)))
    contract(f'__eq__ varying the presence of {odd or "extra values"}', max_paths=20000, budget_s=140)(spec)


for _f in (None, *FIELDS):
    eq_spec(_f)


@contract('__eq__ with something else')
def other(vc):
    env(vc)
    a, _ = make(vc)
    e = vc.attempt(lambda: a == vc.any('other', object))
    vc.prove('not equal to something that is not metadata', e.ok and not e.value)


@contract('__reduce__ rebuilds an equal record', max_paths=20000)
def reduce(vc):
    env(vc)
    odd = FIELDS[vc.choose(len(FIELDS), 'absent')]
    ex = vc.maybe('extra')
    a, kw = make(vc, '', odd, ex)
    r = vc.attempt(a.__reduce__)
    vc.prove('can be taken apart', r.ok and isinstance(r.value, tuple) and len(r.value) >= 2)
    if not r.ok:
        return
    b = vc.attempt(r.value[0], *r.value[1])
    vc.prove('can be rebuilt', b.ok)
    if not b.ok:
        return
    vc.prove('the same class', b.value.__class__ is M.PathMeta)
    vc.prove('the copy is another object', b.value is not a)
    for f in FIELDS:
        x, y = getattr(a, f), getattr(b.value, f)
        vc.prove(f'{f}: same value in the copy', x is y if x is None or y is None else x == y)
    vc.prove('the copy is equal', Iff(bool(vc.attempt(lambda: a == b.value).value), True))


@contract('__bool__')
def truth(vc):
    env(vc)
    odd = FIELDS[vc.choose(len(FIELDS), 'present')]
    some = vc.maybe('has a value')
    kw = {odd: val_of(vc, odd)} if some else {}
    m = vc.attempt(M.PathMeta, **kw)
    r = vc.attempt(lambda: bool(m.value))
    vc.prove('true exactly when some field has a value', r.ok and r.value == some)


@contract('ids are text')
def ids(vc):
    env(vc)
    i = [vc.int('id'), vc.any('id', bytes), vc.any('id', object), vc.any('id', tuple)][vc.choose(4, 'type')]
    m = vc.attempt(M.PathMeta, id=i)
    vc.prove('an id that is not text is refused with TypeError', m.raised(TypeError))
    m = vc.attempt(M.PathMeta, id=textmod.text(vc, 'id'))
    vc.prove('a text id is accepted', m.ok)


@contract('content_different')
def different(vc):
    env(vc)
    z = lambda n: vc.opt(vc.any(n, bytes), n)
    sa, sb = vc.int('size a', 0), vc.int('size b', 0)
    ua, ub = vc.int('updated a', cls=datetime), vc.int('updated b', cls=datetime)
    ka, kb = vc.maybe('time of a known'), vc.maybe('time of b known')
    ca, cb = vc.any('sum a', bytes), vc.any('sum b', bytes)
    ha, hb = vc.maybe('a has sum'), vc.maybe('b has sum')
    vc.assume(Not(ca == b''))
    vc.assume(Not(cb == b''))
    # whatever the other fields are
    rest = lambda tag: {f: val_of(vc, f, tag, False) for f in FIELDS if f not in ('size', 'updated', 'checksum')}
    a = vc.attempt(M.PathMeta, size=sa, updated=ua if ka else None, checksum=ca if ha else None, **rest(' a')).value
    b = vc.attempt(M.PathMeta, size=sb, updated=ub if kb else None, checksum=cb if hb else None, **rest(' b')).value
    r = vc.attempt(a.content_different, b)
    vc.prove('decides', r.ok)
    if ha and hb:
        vc.prove('checksums decide when both are known', Iff(r.value, Not(ca == cb)))
    else:
        vc.prove('otherwise a different size or a later update', Iff(bool(r.value), Or(Not(sa == sb), ua < ub) if ka and kb else Not(sa == sb)))
