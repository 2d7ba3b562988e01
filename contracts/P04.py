"""Merging new metadata into old: which record results, and whether the file changed."""
from datetime import datetime
from pyvc.api import *
from augpathlib import caches as C
from augpathlib import meta as M
from augpathlib.utils import FileSize
from contracts import P03

ASSUMES = ['each iteration of the merge depends on its own field and the one flag: two fields vary freely at a time, the '
           'others uniformly (equal, absent in the old, absent in the new record)']
FIELDS = P03.FIELDS
DIFF = ('created', 'updated', 'size', 'checksum', 'file_id')


def some(vc, f, tag):
    if f == 'errors':
        return (vc.any('error' + tag),)
    if f == 'etag':
        return (vc.any('sum' + tag, bytes), vc.int('n' + tag))
    if f == 'checksum':
        v = vc.any(f + tag, bytes)
        vc.assume(Not(v == b''))
        v.attrs['_hasiter'] = True
        v.attrs['hex'] = model(lambda: 'hex')
        return v
    if f in P03.INTS:
        v = vc.int(f + tag)
        if f == 'file_id':
            vc.assume(v.t != 0)
        return v
    if f in ('created', 'updated'):
        return vc.int(f + tag, cls=datetime)
    if f in ('id', 'old_id', 'name'):
        return textmod.text(vc, f + tag, nonempty=True)
    return vc.any(f + tag, object, _hasiter=False)


def eq(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and And(True, *[x == y for x, y in zip(a, b)])
    return a == b


def mk(vc, vals):
    pm = vc.obj(M.PathMeta, 'meta')
    for f in FIELDS:
        v = vals[f]
        attrs_of(pm)['_created_ok' if f == 'created' else '_updated_ok' if f == 'updated' else f] = (
            () if f == 'errors' and v is None else v)
    attrs_of(pm)['_created'] = attrs_of(pm)['_updated'] = None
    return pm


def merge_spec(f):
    def spec(vc):
        P03.env(vc)
        g = DIFF[vc.choose(len(DIFF), 'second field')]
        if g == f:
            vc.die(PathCut('same'))
        mode = vc.choose(3, 'other fields: same, new only, old only')
        old, new = {}, {}
        for k in FIELDS:
            if k in (f, g):
                p = vc.choose(4, f'{k}: absent, old only, new only, both')
                old[k] = some(vc, k, ' old') if p in (1, 3) else None
                new[k] = some(vc, k, ' new') if p in (2, 3) else None
            else:
                v = some(vc, k, '')
                old[k] = None if mode == 1 else v
                new[k] = None if mode == 2 else v
        a, b = mk(vc, old), mk(vc, new)
        r = vc.attempt(C.PrimaryCache._update_meta, a, b)
        vc.prove('a merge is always possible', r.ok)
        if not r.ok:
            return
        diff, m = r.value
        olds = any(v is not None for v in old.values())
        news = any(v is not None for v in new.values())
        if not olds:
            vc.prove('nothing known before: the new record, not different', m is b and diff is False)
            return
        if not news:
            vc.prove('nothing new: the old record, not different', m is a and diff is False)
            return
        ch = [Not(eq(old[k], new[k])) for k in DIFF if old[k] is not None and new[k] is not None]
        different = Or(False, *ch)
        vc.prove('different exactly when a content field known in both changed', Iff(diff, different))
        if diff if isinstance(diff, bool) else bool(diff):
            isdiff = True
        else:
            isdiff = False
        for k in FIELDS:
            got = getattr(m, k)
            if k == 'errors' and got == ():
                got = None
            if k == 'old_id':
                ids_differ = Not(eq(old['id'], new['id']))
                want = new[k] if new[k] is not None else None
                if want is None:
                    if bool(ids_differ):
                        want = old['id']
                    else:
                        want = old[k]
            elif new[k] is not None:
                want = new[k]
            elif isdiff and k != 'errors':
                want = None
            else:
                want = old[k]
            vc.prove(f'{k}: the new value where there is one, the old one only for the same content', eq(got, want))
            vc.prove(f'{k}: the old record is not altered', eq(old[k], getattr(a, k) or None if k == 'errors' else getattr(a, k)))
            vc.prove(f'{k}: the new record is not altered', eq(new[k], getattr(b, k) or None if k == 'errors' else getattr(b, k)))
        vc.cover('different', isdiff)
        vc.cover('same', not isdiff)
    contract(f'_update_meta varying {f}', max_paths=20000, budget_s=150)(spec)


for _f in FIELDS:
    merge_spec(_f)


@contract('_update_meta with nothing')
def nothing(vc):
    P03.env(vc)
    m = mk(vc, {f: some(vc, f, '') for f in FIELDS})
    none = [None, mk(vc, {f: None for f in FIELDS})][vc.choose(2, 'empty as')]
    r = vc.attempt(C.PrimaryCache._update_meta, none, m)
    vc.prove('no old record: the new one', r.ok and r.value[1] is m and r.value[0] is False)
    r = vc.attempt(C.PrimaryCache._update_meta, m, none)
    vc.prove('no new record: the old one', r.ok and r.value[1] is m and r.value[0] is False)
