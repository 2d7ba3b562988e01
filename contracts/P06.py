"""Storing metadata as a symlink: what may replace what, and what becomes of the old link."""
import datetime as dtm
from pyvc.api import *
from augpathlib import caches as C
from augpathlib import exceptions as exc

ASSUMES = ['symlink_to, unlink and crumple are single steps that either happen or raise with nothing changed']


def record(vc, tag):
    m = vc.any('meta ' + tag, _hasiter=False)
    up, cr = vc.int('updated ' + tag, cls=dtm.datetime), vc.int('created ' + tag, cls=dtm.datetime)
    m.attrs.update(id=vc.any('id ' + tag), updated=vc.opt(up, 'up' + tag), created=vc.opt(cr, 'cr' + tag),
                   size=vc.opt(vc.int('size ' + tag), 'size' + tag), as_pretty=model(lambda *a, **k: 'pretty'))
    m.attrs['as_symlink'] = model(lambda *a, **k: as_symlink(vc, m, *a, **k))
    return m


def as_symlink(vc, m, local_name=None, **k):
    vc.st['names'].append((m, local_name))
    if vc.st['encfail']:
        raise vc.st['encfail']
    return ('link', m)


def isn(o):
    return SBool(o.isnone)


@contract('SymlinkCache.meta setter', max_paths=20000)
def setter(vc):
    old, new = record(vc, 'old'), record(vc, 'new')
    exists, link = vc.bool('exists'), vc.bool('is a link')
    # a symlink that stores metadata does not resolve; equal records have equal fields
    for f in ('id', 'updated', 'created', 'size'):
        a, b = old.attrs[f], new.attrs[f]
        same = (a == b) if f == 'id' else And(Iff(isn(a), isn(b)), Or(isn(a), a.val == b.val))
        vc.assume(Implies(old == new, same))
    e1, e2 = ValueError('no representation'), OSError('symlink')
    fail = vc.choose(6, 'failure: none, crumple exists, crumple other, unlink, symlink_to, encode')
    vc.st = st = {'at': 'old', 'trash': False, 'names': [], 'encfail': e1 if fail == 5 else None}
    boom = OSError('boom')

    def crumple(s):
        vc.prove('only a link that is there is crumpled', st['at'] == 'old' and link)
        if fail in (1, 3):
            raise FileExistsError('already there')
        if fail == 2:
            raise boom
        st['at'] = None
        st['trash'] = True

    def unlink(s, missing_ok=False):
        vc.prove('the old link is only removed if it is in the trash already', fail in (1, 3))
        if fail == 3:
            raise boom
        st['at'] = None

    def symlink_to(s, target, target_is_directory=False):
        vc.prove('a link is made only where there is nothing', Or(st['at'] is None, And(Not(link), Not(exists))))
        if fail == 4:
            raise boom
        st['at'] = target
    primary = vc.obj(C.PrimaryCache, 'primary', stubs={'crumple': crumple, 'unlink': unlink})
    name = vc.any('name', str)
    local = vc.obj(C.LocalPath, 'local', stubs={'cache': Prop(value=primary), 'name': Prop(value=name), 'symlink_to': symlink_to,
                                               'unlink': unlink})
    p = vc.obj(C.SymlinkCache, 'p', stubs={
        'exists': lambda s: exists, 'is_symlink': lambda s: link, 'is_broken_symlink': lambda s: And(link, Not(exists)),
        'local': Prop(value=local), 'unlink': unlink, 'name': Prop(value=name), 'symlink_to': symlink_to})
    vc.stubs[C.SymlinkCache._meta_impl.__func__] = lambda *a, **k: old
    r = vc.attempt(C.SymlinkCache.meta.fset, p, new)
    made = st['at'] not in ('old', None)
    ou, nu, oc, nc = old.attrs['updated'], new.attrs['updated'], old.attrs['created'], new.attrs['created']
    same_id = old.attrs['id'] == new.attrs['id']
    later = And(Not(isn(ou)), Not(isn(nu)), Or(ou.val < nu.val, And(ou.val == nu.val, Not(isn(oc)), Not(isn(nc)), oc.val < nc.val)))
    loses_size = And(Not(isn(old.attrs['size'])), isn(new.attrs['size']))
    may = Or(Not(link), And(Not(old == new), Or(same_id, later), Not(loses_size)))
    ambiguous = And(link, Not(same_id), Not(isn(ou)), Not(isn(nu)), ou.val == nu.val, isn(oc), Not(isn(nc)))
    vc.prove('nothing is written over an existing path', Implies(exists, st['at'] == 'old' and not st['trash']))
    if made:
        vc.prove('the link made is the one of the new metadata', type(st['at']) is tuple and st['at'][1] is new)
        vc.prove('the link carries the name of the file', len(st['names']) == 1 and st['names'][0][0] is new and st['names'][0][1] is name)
        vc.prove('another link is replaced only by the same id or a later one, never losing a known size', may)
        vc.prove('the replaced link is in the trash', Implies(link, st['trash'] or fail == 1))
        vc.prove('made: no error', r.ok)
        vc.cover('made over a link', bool(link))
        vc.cover('made')
    elif r.ok:
        vc.prove('the old link is left as it was', st['at'] == 'old' and not st['trash'])
        vc.prove('not replaced only if it must not be', And(Not(exists), link, Not(And(may, Not(exists)))))
        vc.prove('ids that cannot be ordered are not silently kept', Not(ambiguous))
        vc.cover('kept')
    else:
        if isinstance(r.exc, exc.PathExistsError):
            vc.prove('path exists error only if it does', exists)
        elif isinstance(r.exc, exc.MetadataIdMismatchError):
            vc.prove('id mismatch only if the records cannot be ordered', ambiguous)
        elif isinstance(r.exc, TypeError):
            vc.prove('not comparable: one has an update time, the other has not', And(link, Not(same_id), Not(Iff(isn(ou), isn(nu)))))
        else:
            vc.prove('otherwise the failure that happened', r.exc is boom or r.exc is e1)
        vc.prove('failed: the old link is in place, or in the trash',
                 Implies(link, st['at'] == 'old' or st['trash'] or fail == 1))
        vc.cover('failed')


@contract('SymlinkCache.meta getter')
def getter(vc):
    exists, link = vc.bool('exists'), vc.bool('is a link')
    m = vc.any('meta')
    calls = []

    def from_symlink(*a, **k):
        calls.append((a, k))
        return m
    vc.stubs[C.PathMeta.from_symlink.__func__] = from_symlink
    p = vc.obj(C.SymlinkCache, 'p', stubs={'exists': lambda s: exists, 'is_symlink': lambda s: link,
                                           'is_broken_symlink': lambda s: And(link, Not(exists)),
                                           'resolve': lambda s, *a: 'x'})
    r = vc.attempt(C.SymlinkCache.meta.fget, p)
    if r.ok:
        vc.prove('metadata only from a link that does not resolve', And(link, Not(exists)))
        vc.prove('the metadata of this link', r.value is m and len(calls) == 1 and any(x is p for x in calls[0][0]))
    elif isinstance(r.exc, exc.NoCachedMetadataError):
        vc.prove('no link, no metadata', Not(link))
    else:
        vc.prove('a link to something that exists is an error', And(isinstance(r.exc, exc.PathExistsError), link, exists))
    vc.cover('read', r.ok)
    vc.cover('error', not r.ok)
