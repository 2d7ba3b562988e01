"""Fetching and validating: what counts as having the right data, and what is recorded if not."""
from pyvc.api import *
from augpathlib import caches as C
from augpathlib import meta as M
from augpathlib import exceptions as exc
from augpathlib.utils import FileSize
from contracts import P03, P04

ASSUMES = ['errors known before are samples', 'LocalPath.size, checksum and etag are those of the data on disk (P09, P11)']
FIELDS = P03.FIELDS
CM = 'checksum-mismatch'
ERRORS = ((), ('other',), ('checksum', 'other'), ('mismatch', 'checksum-mismatch-other', 'x'), (CM,), ('other', CM), (CM, 'other'))


def record(vc, optional, errs):
    vals = {}
    for f in FIELDS:
        if f == 'errors':
            vals[f] = errs
        elif f in optional and vc.maybe(f'{f} absent'):
            vals[f] = None
        else:
            vals[f] = P04.some(vc, f, '')
            if f == 'size':
                vals[f] = vc.int('size', 0, cls=FileSize)
    return P04.mk(vc, vals), vals


def same_but_errors(vc, m, vals, errors):
    vc.prove('recorded on a metadata record', isinstance(m, M.PathMeta))
    for f in FIELDS:
        if f != 'errors':
            vc.prove(f'recording an error keeps {f}', P04.eq(getattr(m, f), vals[f]))
    e = tuple(m.errors)
    vc.prove('the error is added to those known', len(e) == len(errors) + 1 and e[-1] == CM and
             And(True, *[a == b for a, b in zip(e, errors)]))


@contract('fetch', max_paths=20000)
def fetch(vc):
    P03.env(vc)
    errs = ERRORS[vc.choose(len(ERRORS), 'errors')]
    known = CM in errs
    m, vals = record(vc, ('size', 'file_id', 'checksum'), errs)
    isdir, link = vc.bool('dir'), vc.bool('link')
    nometa = vc.maybe('no metadata')
    limit = None if vc.maybe('no limit') else SReal(z3.Real('limit'))
    lsize = vc.int('local size', 0, cls=FileSize)
    lsum = vc.any('local checksum', bytes)
    lsum.attrs['hex'] = model(lambda: 'hex')
    st = {'state': 'link', 'meta': [], 'data': 0, 'refresh': []}
    st['state'] = 'link' if link else 'file'
    data = vc.any('data')
    boom = OSError('boom')
    failing = vc.choose(3, 'failure: none, data, meta')

    def set_data(s, v):
        vc.prove('the data stored is the data of the cache', v is data)
        vc.prove('the data is not written through a metadata link', st['state'] == 'file')
        vc.prove('a link becomes a file that has its metadata before data arrives',
                 Or(Not(link), len(st['meta']) == 1))
        st['data'] += 1
        if failing == 1:
            raise boom
    def unlink(s, missing_ok=False):
        vc.prove('only a link is removed', st['state'] == 'link')
        st['state'] = None

    def touch(s, *a, **k):
        vc.prove('an empty file is made only where there is nothing', st['state'] is None)
        st['state'] = 'file'

    def setter(s, x, *a, **k):
        if failing == 2:
            raise boom
        st['meta'].append(x)

    def checksum(s, cypher=None):
        vc.prove('the checksum is that of the fetched data, with the cypher of the record', st['data'] == 1 and cypher is cyph)
        return lsum
    cyph = vc.any('cypher')
    local = vc.obj(C.LocalPath, 'local', stubs={
        'data': Prop(get=lambda s: None, set=set_data), 'size': Prop(get=lambda s: lsize), 'checksum': checksum})
    ocp = vc.obj(C.LocalPath, 'object', stubs={'exists': lambda s: vc.bool('object cached')})
    p = vc.obj(C.PrimaryCache, 'p', stubs={
        'meta': Prop(get=lambda s: None if nometa else m), 'is_dir': lambda s: isdir,
        'exists': lambda s: st['state'] == 'file',
        'is_broken_symlink': lambda s: st['state'] == 'link', 'is_symlink': lambda s: st['state'] == 'link',
        'unlink': unlink, 'touch': touch, '_meta_setter': setter, 'local': Prop(value=local), 'data': Prop(get=lambda s: data),
        'local_object_cache_path': Prop(value=ocp), 'id': Prop(value=vc.any('id', str, replace=model(lambda *a: 'i'))),
        '_instance_cypher': lambda s: cyph, 'as_posix': lambda s: 'p',
        'refresh': lambda s, **k: st['refresh'].append(k)})
    r = vc.attempt(C._CachePath.fetch, p, size_limit_mb=limit)
    touched = bool(st['data'] or st['meta'] or st['state'] != ('link' if bool(link) else 'file'))
    if bool(isdir):
        vc.prove('a directory is not fetched', r.raised(NotImplementedError) and not touched)
        return
    if nometa:
        vc.prove('nothing is fetched without metadata', r.raised(exc.NoCachedMetadataError) and not touched)
        return
    if vals['file_id'] is None:
        vc.prove('without a file id the record is refreshed with its data instead', r.ok and not touched and
                 len(st['refresh']) == 1 and st['refresh'][0].get('update_data') is True)
        return
    vc.prove('no refresh otherwise', not st['refresh'])
    size = vals['size']
    if st['data'] == 0 and not touched:
        if not r.ok:
            vc.prove('only a failing step', r.exc is boom)
            return
        vc.prove('not fetched only if it is not below the limit, or of unknown size with a limit',
                 limit is not None and (size is None or size >= limit * 1024 ** 2))
        vc.cover('over the limit')
        return
    if not r.ok and r.exc is boom:
        vc.cover('failing step')
        return
    if limit is not None:
        vc.prove('fetched only below the limit', size is not None and size < limit * 1024 ** 2)
    right = size is not None and lsize == size
    if not r.ok:
        vc.prove('an error other than a wrong size is not made up', And(isinstance(r.exc, ValueError), Not(right)))
        vc.cover('wrong size')
        return
    vc.prove('a fetch that succeeds leaves data of the right size', right)
    vc.prove('the data was fetched once', st['data'] == 1)
    rec = st['meta'][1:] if bool(link) else st['meta']
    if bool(link):
        vc.prove('the file that replaces a link has its metadata', st['meta'][0] is m)
    bad = vals['checksum'] is not None and Not(lsum == vals['checksum'])
    vc.prove('a checksum mismatch is recorded, once, and nothing else is', Iff(len(rec) == 1, And(bad, not known)))
    vc.prove('nothing else is recorded', len(rec) <= 1)
    if rec:
        same_but_errors(vc, rec[0], vals, errs)
        vc.cover('mismatch')
    vc.cover('fetched')


@contract('validate_file', max_paths=20000)
def validate(vc):
    P03.env(vc)
    errs = ERRORS[vc.choose(len(ERRORS), 'errors')]
    m, vals = record(vc, ('size', 'etag', 'checksum'), errs)
    lsum = vc.any('local checksum', bytes)
    lsum.attrs['hex'] = model(lambda: 'hex')
    lsize = vc.int('local size', 0, cls=FileSize)
    letag = (vc.any('local etag', bytes), vc.int('local count'))
    st = []
    cyph = vc.any('cypher')
    lmeta = vc.obj(M.PathMeta, 'lmeta', stubs={'size': Prop(get=lambda s: lsize), 'checksum': Prop(get=lambda s: lsum)})

    def etag(s, chunksize):
        vc.prove('the etag is made with the chunk size of the record', chunksize is vals['chunksize'])
        return letag

    def checksum(s, cypher=None):
        vc.prove('the checksum is made with the cypher of the record', cypher is cyph)
        return lsum
    local = vc.obj(C.LocalPath, 'local', stubs={'meta': Prop(value=lmeta), 'size': Prop(get=lambda s: lsize), 'checksum': checksum,
                                               'etag': etag, '__repr__': lambda s: 'local'})
    p = vc.obj(C.PrimaryCache, 'p', stubs={
        'meta': Prop(get=lambda s: m), 'local': Prop(value=local), '_instance_cypher': lambda s: cyph,
        'remote': Prop(value='remote'), '_meta_setter': lambda s, x, *a, **k: st.append(x)})
    r = vc.attempt(C._CachePath.validate_file, p)
    if vals['etag'] is not None:
        vc.prove('an etag decides nothing but the log', r.ok and not st)
        vc.cover('etag')
    elif vals['checksum'] is not None:
        vc.prove('a checksum mismatch is recorded and nothing else is', r.ok and Iff(len(st) == 1, And(Not(lsum == vals['checksum']), CM not in errs)))
        vc.prove('recorded at most once', len(st) <= 1)
        if st:
            same_but_errors(vc, st[0], vals, errs)
            vc.cover('mismatch')
    elif vals['size'] is not None:
        vc.prove('without a checksum a wrong size is an error', Iff(r.ok, lsize == vals['size']))
        vc.prove('the error is a size error', r.ok or isinstance(r.exc, exc.SizeError))
        vc.prove('nothing is recorded', not st)
        vc.cover('wrong size', not r.ok)
    else:
        vc.prove('nothing known: nothing to compare', r.ok and not st)


@contract('the cypher of a record')
def cypher(vc):
    own = vc.any('own cypher')
    name = [None, 'nope'] + sorted(C.cypher_lookup)
    name = name[vc.choose(len(name), 'name')]
    m = vc.obj(M.PathMeta, 'm', stubs={'checksum_cypher': Prop(value=name)})
    p = vc.obj(C.PrimaryCache, 'p', stubs={'meta': Prop(value=m), 'cypher': Prop(value=own)})
    r = vc.attempt(C._CachePath._instance_cypher, p)
    if name is None:
        vc.prove('no cypher recorded: the one of the class', r.ok and r.value is own)
    elif name == 'nope':
        vc.prove('an unknown cypher is refused', r.raised(NotImplementedError))
    else:
        vc.prove('the recorded cypher is used', r.ok and r.value is C.cypher_lookup[name])
