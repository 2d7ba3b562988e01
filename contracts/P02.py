"""Extended attribute and metastore codec: what is written reads back, foreign
attributes are ignored."""
import pickle
import struct
from datetime import datetime
from pyvc.api import *
from augpathlib import meta as M
from augpathlib import exceptions as exc
from augpathlib.utils import FileSize
from contracts import P01

ASSUMES = [
    'bytes.fromhex(b.hex()) == b; int(str(i)) == i; text.encode().decode() == text (CPython)',
    'dateutil.parser.parse inverts isoformat as written (cross-checked by the harness)',
    'pickle.loads(pickle.dumps(d)) == d for dicts of bytes',
    'struct.unpack("d", b) raises struct.error unless b has 8 bytes; an isoformat text has more',
    'domain: errors are non-empty and free of ";", a textual user id is not a numeral',
]
Codec = M._PathMetaAsXattrs
UNKNOWN = (None, 'x.size', 'sizes', 'name.x')
FIELDS = ('name', 'size', 'created', 'updated', 'checksum', 'checksum_cypher', 'etag', 'chunksize', 'multi', 'parent_id',
          'id', 'file_id', 'old_id', 'gid', 'user_id', 'mode', 'errors')


def env(vc):
    P01.env(vc)

    def unpack(fmt, v):
        if type(v) is SAny and v.attrs.get('packed') is not None:
            return (v.attrs['packed'],)
        raise struct.error('unpack requires a buffer of 8 bytes')
    vc.stubs[struct.unpack] = unpack
    return vc.obj(Codec, 'codec')


def value(vc, field, kind):
    v = P01.value(vc, field, kind)
    if field == 'errors':
        vc.assume(SBool(v.forall(lambda x: z3.And(z3.Not(x.is_('')), z3.Not(x.has(';'))))))
        vc.assume(SBool(v.n > 0))
    elif isinstance(v, SText):
        vc.assume(SBool(z3.Not(v.is_(''))))
    elif field == 'checksum':
        vc.assume(Not(v == b''))
    return v


def same(field, got, v):
    if got is None:
        return False
    if field == 'etag':
        return And(got[0] == v[0], got[1] == v[1]) if isinstance(got, tuple) else False
    return got == v


def field_spec(field, kind):
    def spec(vc):
        c = env(vc)
        v = value(vc, field, kind)
        vc.witness_fn = lambda m: P01.wit(m, field, v)
        e = vc.attempt(c.encode, field, v)
        vc.prove(f'{field}: a value in the domain is encoded', e.ok)
        if not e.ok:
            return
        vc.prove(f'{field}: encoded as bytes', isinstance(e.value, bytes))
        r = vc.attempt(c.decode, field, e.value)
        vc.prove(f'{field}: what was encoded decodes', r.ok)
        if r.ok:
            kw = {field: r.value}
            m = vc.attempt(M.PathMeta, **kw)
            vc.prove(f'{field}: the decoded value is accepted', m.ok)
            if m.ok:
                vc.prove(f'{field}: decode(encode(v)) == v', same(field, getattr(m.value, field), v))
        vc.cover('round trip')
    contract(f'encode/decode of {field}' + (f' ({kind})' if kind else ''))(spec)


for _f in FIELDS:
    if _f == 'user_id':
        field_spec(_f, 'int')
        field_spec(_f, 'str')
    else:
        field_spec(_f, '')


@contract('an empty value is not encoded')
def empty(vc):
    c = env(vc)
    f = FIELDS[vc.choose(len(FIELDS), 'field')]
    v = [None, '', ()][vc.choose(3, 'empty')]
    r = vc.attempt(c.encode, f, v)
    vc.prove(f'{f}: an empty value is refused', r.raised(TypeError))
    vc.cover('end')


@contract('timestamps stored as packed doubles')
def packed(vc):
    c = env(vc)
    b = vc.any('packed', bytes)
    sec = z3.Real('seconds')
    b.attrs['packed'] = SReal(sec)
    vc.method_models[datetime, 'fromtimestamp'] = lambda vc, s, *a, **k: vc.any('dt', datetime, of=s)
    f = ('created', 'updated')[vc.choose(2, 'field')]
    r = vc.attempt(c.decode, f, b)
    vc.prove(f'{f}: a packed double decodes to that time', r.ok and getattr(r.value, '__class__', None) is datetime and
             r.value.attrs['of'] is b.attrs['packed'])


class Tok(Sym):
    """ the encoding of one value """
    _vc_model = True

    def __init__(self, field, v):
        self.field, self.v = field, v
    __class__ = property(lambda s: bytes)
    __hash__ = Sym.__hash__


def glue(kind, store):
    def spec(vc):
        c = env(vc)
        present = {}
        pm = vc.obj(M.PathMeta, 'pm')
        # any subset of the fields: each is absent, empty or has a value
        vals = {}
        which = vc.choose(len(FIELDS), 'field that is absent, empty or has a value')
        state = vc.choose(3, 'state')
        for i, f in enumerate(FIELDS):
            if f == 'errors':
                v = (vc.any('error'),)
            elif f == 'etag':
                v = (vc.any('c'), vc.any('n'))
            else:
                v = vc.any(f, object, _hasiter=False)
            if i == which and state:
                v = None if state == 1 else (() if f == 'errors' else None)
            attrs_of(pm)['_created_ok' if f == 'created' else '_updated_ok' if f == 'updated' else f] = v
            if v is not None and v != ():
                vals[f] = v
        prefix = None if kind == 'none' else textmod.text(vc, 'prefix', nonempty=True)

        def encode(self, field, v):
            vc.prove('a field is encoded with its own value', field in vals and v is vals[field])
            return Tok(field, v)

        def decode(self, field, t):
            vc.prove('decoded under the field it was encoded from', type(t) is Tok and t.field == field)
            return t.v if type(t) is Tok else None
        vc.class_stubs[Codec, 'encode'] = encode
        vc.class_stubs[Codec, 'decode'] = decode
        got = []
        vc.class_models[M.PathMeta] = lambda **kw: got.append(kw) or vc.any('decoded')
        e = vc.attempt(c.as_xattrs, pm, prefix)
        vc.prove('metadata is encoded', e.ok)
        if not e.ok:
            return
        d = e.value
        vc.prove('one attribute per field with a value', len(d) == len(vals))
        for k in list(d):
            vc.prove('attribute names are bytes', isinstance(k, bytes))
            if prefix is not None:
                t = SText.of(k.decode())
                vc.prove('every attribute name has the prefix', t._after(prefix) is not None)
        if prefix is not None:
            # attributes written by someone else do not start with the prefix
            foreign = textmod.text(vc, 'foreign')
            vc.assume(SBool(z3.Not(textmod.startswith_fact(vc, foreign, prefix + '.'))))
            d = dict(d)
            d[foreign.encode()] = Tok('foreign', vc.any('x'))
            unknown = UNKNOWN[vc.choose(len(UNKNOWN), 'unknown attribute under the prefix')]
            if unknown:
                d[(prefix + '.' + unknown).encode()] = Tok(unknown, vc.any('y'))
        r = vc.attempt(c.from_xattrs, d, prefix)
        vc.prove('what was written can be read', r.ok)
        if r.ok:
            vc.prove('one record', len(got) == 1)
            kw = got[0]
            vc.prove('exactly the written fields are read', set(k for k in kw if k in FIELDS) == set(vals) and
                     (prefix is None or len(kw) <= len(vals) + (unknown is not None)))
            for f in vals:
                vc.prove(f'{f}: read back into its own field', kw.get(f) is vals[f])
        vc.cover('end')
    contract('as_xattrs/from_xattrs ' + ('without' if kind == 'none' else 'with any') + ' prefix')(spec)


glue('none', False)
glue('any', False)


@contract('metastore blobs')
def metastore(vc):
    env(vc)
    pm = vc.obj(M.PathMeta, 'pm')
    x = vc.any('xattrs')
    given = () if vc.maybe('no prefix') else (vc.any('prefix'),)
    pre = given[0] if given else None

    def as_x(self, prefix=None):
        vc.prove('the record stored is the one given', self is pm and prefix is pre)
        return x

    def from_x(cls, xattrs, prefix=None, path_object=None):
        vc.prove('what was stored is what is decoded', xattrs is x)
        vc.prove('with the prefix it was stored under', prefix is pre)
        return pm
    vc.class_stubs[M.PathMeta, 'as_xattrs'] = as_x
    vc.stubs[M.PathMeta.from_xattrs.__func__] = from_x
    blobs = []

    def dumps(o, *a, **k):
        blobs.append((vc.any('blob', bytes), o))
        return blobs[-1][0]

    def loads(b, **k):
        for t, o in blobs:
            if t is b:
                return o
        return vc.any('other')
    vc.stubs[pickle.dumps] = dumps
    vc.stubs[pickle.loads] = loads
    b = vc.attempt(pm.as_metastore, *given)
    vc.prove('stored', b.ok)
    r = vc.attempt(M.PathMeta.from_metastore, b.value, *given)
    vc.prove('a stored record reads back', r.ok and r.value is pm)
