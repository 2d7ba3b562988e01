"""Symlink metadata codec: decode(encode(v)) == v for every field and every
representable value, refusal otherwise; every published format decodes."""
import pathlib
from datetime import datetime
from pyvc.api import *
from augpathlib import meta as M
from augpathlib import exceptions as exc
from augpathlib.utils import FileSize

ASSUMES = [
    'bytes.fromhex(b.hex()) == b; int(str(i)) == i; str of an int consists of - and digits (CPython)',
    'dateutil.parser.parse inverts isoformat with "," for "." and "Z" for "+00:00" on datetimes with a whole-minute '
    'UTC offset (cross-checked by the harness)',
    'PurePosixPath: parts, parent, name, str and / are inverse for components that contain no "/" and are not "" or "."',
    'values are in the domain of the format: str names and ids, int or non-numeric str user ids, non-zero int file ids, '
    'etag part counts >= 0',
]
Codec = M._PathMetaAsSymlink
# the published formats: what each version's positions denote
_m = 'file_id size created updated checksum'.split()
FORMATS = {
    'meta': _m + 'old_id gid user_id mode errors'.split(),
    'mdv1': _m + 'chunksize old_id gid user_id mode errors'.split(),
    'mdv2': _m + 'etag chunksize old_id gid user_id mode errors'.split(),
    'mdv3': _m + 'etag chunksize parent_id old_id gid user_id mode name errors'.split(),
    'mdv4': _m + 'checksum_cypher etag chunksize parent_id old_id gid user_id mode name errors'.split(),
    'mdv5': _m + 'checksum_cypher etag chunksize parent_id old_id gid user_id mode name errors'.split(),
    'mdv6': _m + 'checksum_cypher etag chunksize multi parent_id old_id gid user_id mode name errors'.split(),
}
INTS = ('file_id', 'size', 'chunksize', 'multi', 'gid')
STRS = ('id', 'name', 'old_id', 'parent_id', 'mode', 'checksum_cypher')


def dt_text(vc, dt):
    """ isoformat() as text: date part, optional fraction, offset """
    k = id(dt)
    if k not in vc.dts:
        d = SText([('b', Base(vc, vc._n('datetime'), only=set('0123456789-T:'), nonempty=True), {})])
        f = SText([('b', Base(vc, vc._n('micro'), only=set('0123456789'), nonempty=True), {})])
        o = SText([('b', Base(vc, vc._n('offset'), only=set('0123456789:-'), nonempty=True), {})])
        frac = vc.maybe('micros')
        z = vc.choose(3, 'offset')       # UTC, other east, other west
        vc.dts[k] = (d, f if frac else None, o, z, dt)
    d, f, o, z, _ = vc.dts[k]
    t = d
    if f is not None:
        t = t + '.' + f
    if z == 0:
        return t + '+00:00'
    if z == 1:
        # any other offset: no digit pattern +00:00 in it
        return t + '+' + o
    return t + o


def dt_parse(vc, s, *a, **k):
    """ the assumed contract of dateutil: it reads back what isoformat wrote,
        in either spelling """
    s = SText.of(s)
    for d, f, o, z, dt in vc.dts.values():
        for sep in '.,':
            t = d if f is None else d + sep + f
            for tail in ({0: ('+00:00', 'Z'), 1: (SText.of('+') + o,), 2: (o,)}[z]):
                if same(s, t + tail):
                    return dt
    return vc.int('another', cls=datetime)


def same(a, b):
    a, b = SText.of(a), SText.of(b)
    return len(a.segs) == len(b.segs) and all(
        x[0] == y[0] and x[1] is y[1] if x[0] != 'c' else x[0] == y[0] and x[1] == y[1]
        for x, y in zip(a.segs, b.segs)) and all(
        ch == k or x[1].never and ch in x[1].never or x[1].only and ch not in x[1].only
        for x in a.segs if x[0] == 'b' for ch, k in x[2].items())


def env(vc):
    textmod.install(vc)
    vc.dts = {}
    vc.class_models[FileSize] = lambda x: SInt(it(x), FileSize)
    vc.sym_attrs[datetime, 'isoformat'] = lambda v: model(lambda **k: dt_text(vc, v))
    import datetime as _d
    zones = {}

    def zone(v):
        k = str(v.t)
        if k not in zones:
            zones[k] = None if vc.maybe('without a time zone') else _d.timezone.utc
        return zones[k]
    vc.sym_attrs[datetime, 'tzinfo'] = zone
    import dateutil.parser
    vc.stubs[dateutil.parser.parse] = lambda s, *a, **k: dt_parse(vc, s)
    return vc.obj(Codec, 'codec')


def value(vc, field, kind):
    if field in INTS:
        v = vc.int(field, cls=FileSize if field == 'size' else int)
        if field == 'file_id':
            vc.assume(v.t != 0)
        return v
    if field in ('created', 'updated'):
        return vc.int(field, cls=datetime)
    if field == 'checksum':
        return vc.any(field, bytes)
    if field == 'etag':
        return (vc.any(field, bytes), vc.int('parts', 0))
    if field == 'user_id':
        if kind == 'int':
            return vc.int(field)
        return textmod.text(vc, field, tag=('notint',), nonempty=True)
    if field == 'errors':
        return TextSeq(vc, 'errors', tuple)
    return textmod.text(vc, field)


def field_spec(field, kind):
    def spec(vc):
        c = env(vc)
        v = value(vc, field, kind)
        strs = field in STRS or kind == 'str'
        vc.witness_fn = lambda m: wit(m, field, v)
        e = vc.attempt(c.encode, field, v)
        if not e.ok:
            vc.prove(f'{field}: refusal is a ValueError', e.raised(ValueError))
            if strs:
                t = SText.of(v)
                bad = [t.has('|'), t.has('!'), t.is_('#')]
                if field == 'name':
                    bad.append(t.has('/'))
                if field == 'id':
                    bad.append(t.is_(''))
                vc.prove(f'{field}: only an unrepresentable value is refused', SBool(z3.Or(*bad)))
            elif field == 'errors':
                bad = z3.Not(v.forall(lambda x: z3.And(z3.Not(x.is_('')), *[z3.Not(x.has(k)) for k in ';|!'],
                                                       z3.Not(x.is_('#')))))
                vc.prove('errors: only an unrepresentable value is refused', SBool(bad))
            else:
                vc.prove(f'{field}: never refused', False)
            return
        t = SText.of(e.value)
        vc.prove(f'{field}: encoded as text', t is not None)
        if t is None:
            return
        vc.prove(f'{field}: no field separator in the encoded text', SBool(z3.Not(t.has('.'))))
        vc.prove(f'{field}: no path separator in the encoded text', SBool(z3.Not(t.has('/'))))
        if field == 'id':
            vc.prove('id: the encoded text is a path component', SBool(z3.Not(t.is_(''))))
        r = vc.attempt(c.decode, field, e.value, 6)
        vc.prove(f'{field}: what was encoded decodes', r.ok)
        if r.ok:
            # through the constructor and the deferred datetime parsing
            kw = {field: r.value} if field == 'id' else {field: r.value, 'id': 'i'}
            m = vc.attempt(M.PathMeta, **kw)
            vc.prove(f'{field}: the decoded value is accepted', m.ok)
            if m.ok:
                got = getattr(m.value, field)
                ok = (And(got[0] == v[0], got[1] == v[1]) if field == 'etag' and isinstance(got, tuple)
                      else (got == v))
                if got is None:
                    ok = False
                vc.prove(f'{field}: decode(encode(v)) == v', ok)
        vc.cover('round trip')
    contract(f'encode/decode of {field}' + (f' ({kind})' if kind else ''))(spec)


def wit(m, field, v):
    if field in ('created', 'updated', 'checksum', 'etag'):
        return {'k': 'field', 'field': field, 'value': None}
    return {'k': 'field', 'field': field, 'value': val(m, v)}


for _f in sorted(set(FORMATS['mdv6']) | {'id'}):
    if _f == 'user_id':
        field_spec(_f, 'int')
        field_spec(_f, 'str')
    else:
        field_spec(_f, '')


@contract('absent values')
def absent(vc):
    c = env(vc)
    fields = sorted(set(FORMATS['mdv6']) | {'id'})
    f = fields[vc.choose(len(fields), 'field')]
    e = vc.attempt(c.encode, f, None)
    vc.prove(f'{f}: an absent value is encoded', e.ok)
    if e.ok:
        r = vc.attempt(c.decode, f, e.value, 6)
        vc.prove(f'{f}: an absent value decodes to absent', r.ok and r.value is None)
    e0 = vc.attempt(c.encode, 'file_id', vc.int('zero', 0, 0))
    vc.prove('a zero file id is written as absent', e0.ok and (e0.value == c.empty))
    vc.cover('end')


def token(vc, name):
    return SText([('b', Base(vc, vc._n(name), never='./', nonempty=(name == 'id')), {})])


def glue(with_name):
    """ as_symlink and from_symlink, with encode and decode by their contracts
        (text without separators that decodes to the value) """
    def spec(vc):
        c = env(vc)
        toks = {}
        fields = list(FORMATS['mdv6'])
        vals = {f: vc.any(f) for f in fields + ['id']}
        hr = textmod.text(vc, 'hr', never='/')
        pm = vc.obj(M.PathMeta, 'pm', **{k: v for k, v in vals.items() if k not in ('created', 'updated', 'size')})
        attrs_of(pm)['_created_ok'] = vals['created']
        attrs_of(pm)['_updated_ok'] = vals['updated']
        vals['size'].attrs['hr'] = vals_hr = vc.any('hrv')
        attrs_of(pm)['size'] = vals['size']

        def encode(self, field, v):
            if field == 'size.hr':
                vc.prove('size.hr: the extra field is the human readable size', v is vals_hr)
                return hr
            vc.prove('a field is encoded with its own value', field in vals and v is vals[field])
            toks[field] = token(vc, field)
            return toks[field]

        def decode(self, field, t, version):
            vc.prove('decoding at the version written', version == 6)
            t = SText.of(t)
            for f, k in toks.items():
                if len(t.segs) == 1 and t.segs[0][0] == 'b' and t.segs[0][1] is k.segs[0][1]:
                    vc.prove(f'{f}: the text is decoded as the field it was encoded from', f == field)
                    return vals[f]
            vc.prove(f'{field}: the text decoded is the text encoded', False)
            return None
        vc.class_stubs[Codec, 'encode'] = encode
        vc.class_stubs[Codec, 'decode'] = decode
        name = textmod.text(vc, 'fname', never='/', nonempty=True)
        vc.assume(SBool(z3.Not(z3.Or(name.is_('.'), name.is_('..')))))
        r = vc.attempt(c.as_symlink, pm, local_name=name if with_name else None)
        vc.prove('as_symlink accepts encodable metadata', r.ok)
        if not r.ok:
            return
        link = r.value
        vc.prove('every field is written', set(toks) >= set(fields) | {'id'})
        vc.prove('the link never points to an existing relative name: it starts with the name given or the id',
                 (link.parts[0] == name) if with_name else (link.parts[0] == toks['id']))
        raw = link.text()
        fp = vc.obj(pathlib.PurePosixPath, 'link', stubs={
            'readlink': model(lambda self, raw=False, **k: globals_raw(vc, raw, link)),
            'name': Prop(value=name), })
        got = {}

        def ctor(**kw):
            got.update(kw)
            return vc.obj(M.PathMeta, 'decoded')
        vc.class_models[M.PathMeta] = ctor
        d = vc.attempt(c.from_symlink, fp)
        vc.prove('what was written can be read', d.ok)
        if d.ok:
            vc.prove('exactly the written fields are read', set(got) == set(vals))
            for f in vals:
                vc.prove(f'{f}: read back into its own field', got.get(f) is vals[f])
        vc.cover('end')
    contract('as_symlink/from_symlink ' + ('with' if with_name else 'without') + ' a local name')(spec)


def globals_raw(vc, raw, link):
    if raw:
        return link.text()
    return link


glue(True)
glue(False)


@contract('a link that names another file is refused')
def mismatch(vc):
    c = env(vc)
    name = textmod.text(vc, 'fname', never='/', nonempty=True)
    other = textmod.text(vc, 'other', never='/', nonempty=True)
    for t in (name, other):
        vc.assume(SBool(z3.Not(z3.Or(t.is_('.'), t.is_('..')))))
    link = PPP.make(vc, pathlib.PurePosixPath, other, token(vc, 'id'), '.mdv6.x')
    same_dir = vc.bool('case insensitive')
    fp = vc.obj(pathlib.PurePosixPath, 'link', stubs={
        'readlink': model(lambda self, raw=False, **k: globals_raw(vc, raw, link)), 'name': Prop(value=name),
        'as_posix': model(lambda self: textmod.text(vc, 'posix'))})
    seen = []

    def from_parts(self, parts):
        seen.append(parts)
        return vc.any('meta')
    vc.class_stubs[Codec, 'from_parts'] = from_parts
    # whatever the other spellings of the path are: they name the same directory
    # only on a case insensitive file system
    vc.class_models[pathlib.Path] = lambda *a: vc.obj(pathlib.Path, 'other case', stubs={
        'exists': model(lambda self: True), 'parent': Prop(get=lambda self: self),
        'samefile': model(lambda self, o: same_dir), '__eq__': lambda self, o: self is o})
    fp._vc_stubs['as_posix'] = model(lambda self: LowText(vc))
    r = vc.attempt(c.from_symlink, fp)
    if r.ok:
        vc.prove('decoded only if the name in the link is the name of the link', name == other)
        vc.prove('decoded without the local name', len(seen) == 1 and len(seen[0]) == 2)
    else:
        vc.prove('refused with the circular name error', Or(r.raised(exc.CircularSymlinkNameError),
                                                            And(r.raised(FileNotFoundError), same_dir)))
        vc.prove('refused only on a different name', Not(name == other))
    vc.cover('decoded', r.ok)
    vc.cover('refused', not r.ok)


class LowText:
    _vc_model = True

    def __init__(self, vc):
        self.vc = vc

    def lower(self):
        return self.vc.any('lower')
    lower._vc_stub = True
    upper = lower


def legacy(version):
    def spec(vc):
        c = env(vc)
        order = FORMATS[version]
        toks = {f: token(vc, f) for f in order}
        vint = {'meta': 0}.get(version) if version == 'meta' else int(version[3:])
        nid = 1 + vc.choose(2, 'id components')
        idparts = [token(vc, 'id') for _ in range(nid)]
        text = SText.of(f'.{version}.')
        for i, f in enumerate(order):
            text = text + ('.' if i else '') + toks[f]
        if version not in ('meta', 'mdv1'):
            text = text + '.' + textmod.text(vc, 'hr', never='/')
        got = {}
        vals = {}

        def decode(self, field, t, v):
            vc.prove('decoded at the version written', v == vint)
            vals[field] = (SText.of(t), vc.any(field))
            return vals[field][1]
        vc.class_stubs[Codec, 'decode'] = decode
        vc.class_models[M.PathMeta] = lambda **kw: got.update(kw)
        r = vc.attempt(c.from_parts, (*idparts, text))
        vc.prove(f'{version}: a record decodes', r.ok)
        if r.ok:
            vc.prove(f'{version}: exactly its fields', set(got) == set(order) | {'id'})
            for f in order:
                vc.prove(f'{version}: {f} from its own position',
                         f in vals and got.get(f) is vals[f][1] and same(vals[f][0], toks[f]))
            idt = idparts[0] if nid == 1 else idparts[0] + '/' + idparts[1]
            vc.prove(f'{version}: id from the path', 'id' in vals and got.get('id') is vals['id'][1] and
                     same(vals['id'][0], idt))
        vc.cover('end')
    contract(f'from_parts of version {version}')(spec)


for _v in FORMATS:
    legacy(_v)


def legacy_field(version, field):
    """ what older writers put in a field: ints as decimal, datetimes as iso
        text, bytes as hex, text with | for / """
    def spec(vc):
        c = env(vc)
        if field in INTS or field == 'user_id':
            v = vc.int(field)
            t = textmod.dec_text(vc, v)
        elif field == 'checksum':
            v = vc.any(field, bytes)
            t = textmod.hex_text(vc, v)
        elif field == 'etag':
            v = (vc.any(field, bytes), vc.int('parts', 0))
            t = textmod.hex_text(vc, v[0]) + '-' + textmod.dec_text(vc, v[1])
        elif field in ('created', 'updated'):
            v = vc.int(field, cls=datetime)
            t = dt_text(vc, v).replace('.', ',').replace('+00:00', 'Z')
        else:
            # the written text itself, where no escape was used
            t = v = textmod.text(vc, field, never='|!/.' if version >= 5 else '|/.', nonempty=True)
            vc.assume(SBool(z3.Not(t.is_('#'))))
        r = vc.attempt(c.decode, field, t, version)
        vc.prove(f'{field}: a version {version} value decodes', r.ok)
        if r.ok:
            m = vc.attempt(M.PathMeta, **{field: r.value})
            vc.prove(f'{field}: version {version}: accepted', m.ok)
            if m.ok:
                g = getattr(m.value, field)
                vc.prove(f'{field}: version {version}: the value that was written',
                         False if g is None else And(g[0] == v[0], g[1] == v[1]) if field == 'etag' and isinstance(g, tuple)
                         else g == v)
        n = vc.attempt(c.decode, field, '#', version)
        vc.prove(f'{field}: version {version}: absent', n.ok and n.value is None)
        vc.cover('end')
    return spec


@contract('decode of values in older formats', max_paths=20000)
def legacy_values(vc):
    v = vc.choose(7, 'version')
    fields = sorted((set(FORMATS['meta' if v == 0 else f'mdv{v}']) | {'id'}) - {'errors'})
    f = fields[vc.choose(len(fields), 'field')]
    legacy_field(v, f)(vc)
