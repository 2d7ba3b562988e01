"""What a table of metadata, or of two records side by side, shows."""
from datetime import datetime
from pyvc.api import *
from augpathlib import meta as M
from augpathlib import utils as U
from augpathlib import exceptions as exc

ASSUMES = ['AsciiTable prints every row it is given, each cell as it is', 'sorted sorts by the key',
           'the fields of a record have different names (P03)']
OTHER = 'zzz other'
NAMES = M._PathMetaAsPretty.fields + (OTHER,)
FIELDS = ('size', 'created', 'updated', 'checksum', 'checksum_cypher', 'etag', 'chunksize', 'parent_id', 'id', 'file_id', 'gid',
          'user_id', 'mode', 'name', 'old_id', 'multi', 'errors')


def unsup(what):
    raise Unsupported(what)


class Fam:
    """ rows, names or fields of which those known are arbitrary ones: what is done is done to each by itself, and what
        depends on the place or the number of them is not decided; in order: that of the names """
    _vc_model = True

    def __init__(self, reps, head=(), order=None):
        self.reps, self.head, self.order = list(reps), list(head), order

    def _vc_map(self, kind, f):
        if self.head:
            unsup('of a table with its head')
        out = [f(x) for x in self.reps]
        if kind == 'dict':
            return Tbl([y for x in out for y in x])
        # every one of them gives at most one, so the order is kept
        r = Fam([y for x in out for y in x], order=self.order if all(len(x) < 2 for x in out) else None)
        return r._vc_set() if kind == 'set' else r

    def _vc_set(self):
        out = []
        for x in self.reps:
            if not any(x is y or type(x) is str and type(y) is str and x == y for y in out):
                out.append(x)
        return Fam(out)

    def _vc_list(self):
        return Fam(self.reps, self.head, self.order)
    _vc_tuple = _vc_list

    def union(self, o):
        if type(o) is Tbl:
            o = o._vc_set()
        if type(o) is not Fam or self.head or o.head:
            unsup('| with something')
        return Fam(self.reps + o.reps)._vc_set()
    union._vc_stub = True

    def __or__(self, o):
        return self.union(o)

    def __radd__(self, o):
        return Fam(self.reps, list(o) + self.head, self.order)

    def __add__(self, o):
        unsup('something after the rows')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        unsup(f'{n} of rows')

    def no(self, *a):
        unsup('rows by number')
    __iter__ = __len__ = __getitem__ = __bool__ = __eq__ = __contains__ = no
    __hash__ = None


class Tbl:
    """ a dict of an arbitrary number of names, with what is stored for those known """
    _vc_model = True

    def __init__(self, pairs):
        self.d = {}
        for k, v in pairs:
            if type(k) is not str:
                unsup('key')
            self.d[k] = v

    def _vc_set(self):
        return Fam(self.d)
    _vc_list = _vc_tuple = _vc_iter_names = _vc_set

    def _vc_map(self, kind, f):
        return Fam(self.d)._vc_map(kind, f)

    def get(self, k, default=None):
        return self.d.get(k, default)

    def keys(self):
        unsup('keys of the table')
    get._vc_stub = keys._vc_stub = True

    def __contains__(self, k):
        return k in self.d

    def __getitem__(self, k):
        if k not in self.d:
            raise KeyError(k)
        return self.d[k]

    def __or__(self, o):
        if type(o) is not Tbl:
            unsup('| with something')
        return Tbl([*self.d.items(), *o.d.items()])

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        unsup(f'{n} of the table')

    def no(self, *a):
        unsup('a table by number')
    __iter__ = __len__ = __bool__ = __eq__ = no
    __hash__ = None


def install(vc):
    old = vc.builtin_models[sorted]

    def srt(vc_, xs, key=None, reverse=False):
        if type(xs) is Tbl:
            xs = xs._vc_set()
        if type(xs) is not Fam:
            return old(vc_, xs, key, reverse)
        if reverse or xs.head:
            unsup('reversed')
        ks = [(x if key is None else vc.call(key, x)) for x in xs.reps]
        o = sorted(range(len(ks)), key=lambda i: plain(ks[i]))
        return Fam([xs.reps[i] for i in o], order=True)
    vc.builtin_models = dict(vc.builtin_models)
    vc.builtin_models[sorted] = srt


def plain(k):
    """ what comes before the first thing that is not known decides """
    if type(k) in (str, int, bool):
        return (k,)
    if type(k) in (tuple, list, VList):
        out = []
        for x in k:
            if type(x) not in (str, int, bool):
                break
            out.append(x)
        return tuple(out)
    unsup('key of a row')


def value(vc, field, n):
    """ a value the field may have, and whether it is shown """
    k = vc.choose(5, f'{field} ({n}): not known, empty tuple, tuple, size, something')
    if k == 0:
        return None, False, False
    if k == 1:
        return (), False, False
    if k == 2:
        return (vc.any('an error', str),), True, False
    if k == 3:
        return vc.obj(U.FileSize, 'size', stubs={'hr': Prop(value=('readable', n))}), True, True
    return vc.any('value'), True, False


@contract('rows of a record', max_paths=60000)
def rows(vc):
    install(vc)
    i = vc.choose(len(NAMES), 'field')
    j = vc.choose(len(NAMES), 'another field')
    if i == j:
        return
    items, want = [], {}
    human = vc.choose(3, 'human: default, True, False')
    for n, f in ((0, NAMES[i]), (1, NAMES[j])):
        v, shown, size = value(vc, f, n)
        items.append((f, v))
        if shown:
            want[f] = ('readable', n) if size and human == 1 else ('encoded', f, v)
    m = vc.obj(M.PathMeta, 'm', stubs={'items': lambda s: Fam(items)})
    t = vc.obj(M._PathMetaAsPretty, 't', stubs={'encode': lambda s, k, v: ('encoded', k, v)})
    r = vc.attempt(M._PathMetaAsPretty.rows, t, m, **({} if human == 0 else {'human': human == 1}))
    vc.prove('rows', r.ok and type(r.value) is Fam and not r.value.head)
    if not r.ok or type(r.value) is not Fam:
        return
    got = [list(x) for x in r.value.reps]
    vc.prove('every field that is known has one row, and no other', sorted(x[0] for x in got) == sorted(want))
    vc.prove('with its value', all(len(x) == 2 and same(x[1], want.get(x[0])) for x in got))
    vc.prove('in the order of the fields, unknown ones last', r.value.order and [x[0] for x in got] == sorted(want, key=order))
    vc.cover('both', len(want) == 2)


def order(k):
    return FIELDS.index(k) if k in FIELDS else len(FIELDS)


def same(a, b):
    return type(a) is type(b) is tuple and len(a) == len(b) and all(x is y or type(x) is str and x == y or type(x) is int and x == y
                                                                    for x, y in zip(a, b))


@contract('encoding of a value')
def encode(vc):
    t = vc.obj(M._PathMetaAsPretty, 't')
    kind = vc.choose(5, 'errors, checksum as bytes, checksum as text, encoded, not encoded')
    enc = vc.any('encoded', str)
    if kind == 0:
        e = [vc.any('first', str), vc.any('second', str)]
        r = vc.attempt(M._PathMetaAsPretty.encode, t, 'errors', tuple(e))
        vc.prove('all errors', r.ok and len(r.value) == 2 and all(a is b for a, b in zip(r.value, e)))
        return
    if kind < 3:
        hx = vc.any('hex', str)
        v = vc.any('sum', bytes, hex=model(lambda: hx)) if kind == 1 else vc.any('sum', str)
        vc.stubs[M._str_encode] = lambda f, x: (f, x)
        r = vc.attempt(M._PathMetaAsPretty.encode, t, 'checksum', v)
        vc.prove('the checksum, in hexadecimal if it is bytes', r.ok and r.value[0] == 'checksum' and r.value[1] is (hx if kind == 1 else v))
        return
    f = FIELDS[vc.choose(len(FIELDS) - 1, 'field')]
    if f == 'checksum':
        return
    v = vc.any('value')

    def se(field, x):
        vc.prove('that field', field == f and x is v)
        if kind == 4:
            raise exc.UnhandledTypeError('x')
        return enc
    vc.stubs[M._str_encode] = se
    r = vc.attempt(M._PathMetaAsPretty.encode, t, f, v)
    vc.prove('encoded as text, or as it is', r.ok and r.value is (enc if kind == 3 else v))
    vc.cover('encoded')


class Table:
    def __init__(self, vc):
        self.made = []
        self.text = vc.any('printed', str)
        vc.class_models[M.AsciiTable] = model(lambda rows, title=None: self.make(vc, rows, title))

    def make(self, vc, rows, title):
        self.made.append((rows, title))
        return vc.obj(Table, 'table', stubs={'table': Prop(value=self.text)})


def titles(vc, default):
    k = vc.choose(4, 'title: given, of a path, of neither, both given')
    t = textmod.text(vc, 'title')
    pn = textmod.text(vc, 'name of the path')
    here = vc.any('here')
    rel = vc.obj(U.Path, 'rel', stubs={'as_posix': lambda s: pn})
    p = vc.obj(U.Path, 'p', stubs={'name': Prop(value=pn), 'cwd': lambda s: here,
                                   'relative_to': lambda s, o: rel if o is here else unsup('another path')})
    kw = {}
    if k in (0, 3):
        kw['title'] = t
    if k in (1, 3):
        kw['pathobject'] = p
    return kw, (t if k in (0, 3) else pn if k == 1 else SText.of(''))


@contract('table of a record')
def pretty(vc):
    install(vc)
    tb = Table(vc)
    kw, title = titles(vc, None)
    human = vc.choose(3, 'human: default, True, False')
    rep = ['a field', vc.any('value')]
    m = vc.obj(M.PathMeta, 'm')

    def rws(s, meta, human=False):
        vc.prove('of the record', meta is m and bool(human) == (h == 1))
        return Fam([rep], order=True)
    h = human
    t = vc.obj(M._PathMetaAsPretty, 't', stubs={'rows': rws})
    if human:
        kw['human'] = human == 1
    r = vc.attempt(M._PathMetaAsPretty.as_pretty, t, m, **kw)
    vc.prove('the table printed', r.ok and r.value is tb.text and len(tb.made) == 1)
    if tb.made:
        rows, ti = tb.made[0]
        vc.prove('the rows below one of titles', type(rows) is Fam and len(rows.head) == 1 and len(rows.reps) == 1 and rows.reps[0] is rep)
        vc.prove('with the title given, or the name of the path', title._vc_same(SText.of(ti)))


@contract('table of two records', max_paths=60000)
def diff(vc):
    """ any two fields, in either, both or none of the records, in the order rows has """
    install(vc)
    tb = Table(vc)
    i, j = vc.choose(len(NAMES), 'field'), vc.choose(len(NAMES), 'another field')
    if i >= j:
        return
    pa, pb = vc.choose(4, 'the field: in neither, the first, the second, both'), vc.choose(4, 'the other')
    rep = {(n, s): [NAMES[n], vc.any(f'value {n} {s}')] for n in (i, j) for s in (1, 2)}
    a, b = vc.obj(M.PathMeta, 'a'), vc.obj(M.PathMeta, 'b')
    side = {s: [rep[n, s] for n, p in ((i, pa), (j, pb)) if p & s] for s in (1, 2)}
    t = vc.obj(M._PathMetaAsPrettyDiff, 't', stubs={
        'rows': lambda s, meta, human=False: Fam(side[1 if meta is a else 2] if meta is a or meta is b else unsup('another record'), order=True)})
    a._vc_stubs['content_different'] = lambda s, o: False
    r = vc.attempt(M._PathMetaAsPrettyDiff.as_pretty_diff, t, a, b)
    vc.prove('the table printed', r.ok and r.value is tb.text and len(tb.made) == 1)
    if not tb.made or type(tb.made[0][0]) is not Fam:
        vc.prove('rows', False)
        return
    rows = tb.made[0][0]
    want = []
    for n, p in ((i, pa), (j, pb)):
        if p:
            want.append((rep[n, 1] if p & 1 else ['', '']) + (rep[n, 2] if p & 2 else ['', '']))
    vc.prove('a row for every field of either record, once, in order, what is not known blank', rows.order and len(rows.reps) == len(want)
             and all(len(x) == 4 and all(u is v or type(u) is str and u == v for u, v in zip(x, y)) for x, y in zip(rows.reps, want)))
    vc.prove('below one row of titles', len(rows.head) == 1 and len(rows.head[0]) == 4)
    vc.cover('all', pa == 3 and pb == 3)


@contract('title of the table of two records')
def diff_title(vc):
    install(vc)
    tb = Table(vc)
    kw, title = titles(vc, None)
    human = vc.choose(3, 'human: default, True, False')
    if human:
        kw['human'] = human == 1
    a, b = vc.obj(M.PathMeta, 'a'), vc.obj(M.PathMeta, 'b')
    seen = []

    def rws(s, meta, human=False):
        vc.prove('sizes as asked for', bool(human) == (h == 1))
        seen.append(meta)
        return Fam([], order=True)
    h = human
    different = vc.maybe('the content is different')
    a._vc_stubs['content_different'] = lambda s, o: different if o is b else unsup('another record')
    b._vc_stubs['content_different'] = lambda s, o: unsup('the other way round')
    t = vc.obj(M._PathMetaAsPrettyDiff, 't', stubs={'rows': rws})
    r = vc.attempt(M._PathMetaAsPrettyDiff.as_pretty_diff, t, a, b, **kw)
    vc.prove('the table printed, of both', r.ok and r.value is tb.text and len(tb.made) == 1 and seen in ([a, b], [b, a]))
    if tb.made:
        want = SText.of('\x1b[31m') + title + SText.of('\x1b[0m') if different else title
        vc.prove('the title, red exactly if the content is different', want._vc_same(SText.of(tb.made[0][1])))
        vc.cover('red', different)


class Shown:
    """ text of a number with so many decimals, and what follows it """
    _vc_model = True

    def __init__(self, v, places, tail=''):
        self.v, self.places, self.tail = v, places, tail

    __class__ = property(lambda self: str)

    def __add__(self, o):
        if type(o) is not str:
            unsup('text after a number')
        return Shown(self.v, self.places, self.tail + o)

    def __radd__(self, o):
        unsup('text before a number')
    __eq__ = __bool__ = __len__ = __iter__ = __getitem__ = __radd__
    __hash__ = None


def places(spec):
    import re
    m = re.fullmatch(r'0?\.([0-9])f', spec) if type(spec) is str else None
    return int(m.group(1)) if m else unsup(f'number as {spec}')


def percent(vc, fmt, vals):
    """ %: numbers in fixed point, text as it is """
    import re
    out, vals = None, list(vals)
    for lit, spec in re.findall(r'([^%]+)|%([^a-z%]*[a-z])', fmt):
        if lit:
            out = lit if out is None else out + lit
            continue
        v = vals.pop(0) if vals else unsup('%')
        if spec == 's' and type(v) is str:
            out = v if out is None else out + v
        elif spec.endswith('f') and type(v) in (SReal, SInt, int, float) and out is None:
            out = Shown(v, places(spec))
        else:
            unsup(f'%{spec}')
    return out


UNITS = ('', 'K', 'M', 'G', 'T', 'P', 'E', 'Z')


@contract('sizes for people')
def sizes(vc):
    """ rounded in the largest unit of 1024 that fits """
    vc.method_models = {**vc.method_models, (str, '%'): percent, (float, '__format__'): lambda vc, v, spec: Shown(v, places(spec))}
    n = vc.int('size', cls=U.FileSize)
    got = vc.attempt(U.FileSize.hr.fget, n)
    if not vc.prove('a size can be shown', got.ok):
        return
    got = got.value
    if type(got) is str:
        vc.prove('a size that is not known to be one is shown as ??', n < 0 and got == '??')
        return
    if type(got) is not Shown:
        unsup('a size shown as other text')
    if not vc.prove('a size is not shown as a size if it is not one', n >= 0):
        return
    k = UNITS.index(got.tail) if got.tail in UNITS else 8 if got.tail == 'Yi' else None
    if not vc.prove('the unit is one of those there are', k is not None):
        return
    vc.prove('the unit fits', k == 0 or n >= 1024 ** k)
    vc.prove('it is the largest that fits', k == 8 or n < 1024 ** (k + 1))
    vc.prove('the number is that of units', got.v * 1024 ** k == n)
    vc.prove('the number is rounded', got.places == (1 if k == 8 else 0))
