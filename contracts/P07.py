"""Moving a cached file: nothing else is destroyed, and the data ends up in exactly one place."""
from pyvc.api import *
from augpathlib import caches as C
from augpathlib import exceptions as exc

ASSUMES = ['rename and unlink are single steps that either happen or raise with nothing changed; at most one of them fails',
           'a cache object for an existing target has its metadata on disk (it cannot be made without)']
P = C.PrimaryCache


def stubs_of(o):
    return object.__getattribute__(o, '_vc_stubs')


@contract('move', max_paths=20000)
def move(vc):
    given = vc.choose(4, 'arguments: remote; target and meta; target object and meta; none')
    sid, tid, mid, rid = [vc.any(n) for n in ('self id', 'target id', 'meta id', 'remote id')]
    at = {'self': ('data', 'link')[vc.choose(2, 'self: data, link')],
          'target': (None, 'data', 'link')[vc.choose(3, 'target: none, data, link')], 'safe': None}
    tok = {'self': at['self'] and ('self', at['self']), 'target': at['target'] and ('target', at['target']), 'safe': None}
    before = dict(tok)
    failn = vc.choose(3, 'failing step: none, first, second')
    same_path = vc.bool('target is self')
    same_parent = vc.bool('same parent')
    tparent_exists = vc.bool('target parent exists')
    st = {'steps': 0, 'made': [], 'merged': []}
    boom = OSError('boom')

    def step():
        st['steps'] += 1
        if st['steps'] == failn:
            st['failed'] = True
            raise boom

    def mk(key, cls, **stubs):
        def rename(s, other):
            k = keyof(other)
            vc.prove('only something that is there is moved', tok[key] is not None)
            step()
            tok[k] = tok[key]
            tok[key] = None

        def unlink(s, missing_ok=False):
            vc.prove('only a link is unlinked', tok[key] is not None and tok[key][1] == 'link')
            step()
            tok[key] = None
        base = {'exists': lambda s: tok[key] is not None and tok[key][1] == 'data',
                'is_broken_symlink': lambda s: tok[key] is not None and tok[key][1] == 'link',
                'is_symlink': lambda s: tok[key] is not None and tok[key][1] == 'link',
                'rename': rename, 'replace': rename, 'unlink': unlink,
                'as_posix': lambda s: key}
        base.update(stubs)
        return vc.obj(cls, key, stubs=base)

    def keyof(o):
        for k, os_ in objs.items():
            if any(o is x for x in os_):
                return k
        unsup('path not modelled')
    objs = {'self': [], 'target': [], 'safe': []}
    safe = mk('safe', C.LocalPath)
    objs['safe'].append(safe)

    class Abs:
        pass
    aself, atarget = vc.any('abs self'), vc.any('abs target')
    vc.assume(Iff(aself == atarget, same_path))
    sname, tname = vc.any('self name', str), vc.any('target name', str)
    pa, pb = vc.obj(P, 'parent', stubs={'exists': lambda s: True}), None

    def mkdir_cache(s, remote):
        vc.prove('parents are made from a remote', remote is not None)
        vc.prove('parents are only made if they are missing', Not(tparent_exists))
        st['made'].append(remote)
    def abseq(s, o):
        return same_parent
    apar = vc.obj(P, 'abs parent', stubs={'exists': lambda s: True, '__eq__': lambda s, o: same_parent if o is atpar else o is s})
    atpar = vc.obj(P, 'abs target parent', stubs={'exists': lambda s: tparent_exists, 'mkdir_cache': mkdir_cache,
                                                  '__eq__': lambda s, o: same_parent if o is apar else o is s})
    parent = vc.obj(P, 'parent', stubs={'absolute': lambda s: apar})
    tparent = vc.obj(P, 'target parent', stubs={
        'absolute': lambda s: atpar, '__truediv__': lambda s, n: safe})
    vc.assume(Implies(same_path, same_parent))
    vc.assume(Iff(And(same_parent, sname == tname), same_path))
    common = vc.obj(C.LocalPath, 'common', stubs={'absolute': lambda s: s})

    def lpath(key, par, name):
        return mk(key, C.LocalPath, parent=Prop(value=par), name=Prop(value=name), commonpath=lambda s, o: common,
                  relative_to=lambda s, o: 'rel', absolute=lambda s: aself if key == 'self' else atarget)
    untracked = vc.bool('target has no metadata')
    slocal, tlocal = lpath('self', parent, sname), lpath('target', tparent, tname)
    objs['self'].append(slocal)
    objs['target'].append(tlocal)
    smeta = vc.any('self meta')
    smeta.attrs['id'] = sid

    def updater(s, m, fetch=True):
        st['merged'].append(m)
        vc.prove('metadata of another file is not merged into the target', m is not smeta or bool(s.id == sid))
        return vc.bool('merge is different')
    tmeta = vc.any('target meta')
    tmeta.attrs['as_pretty'] = model(lambda *a, **k: 'pretty')

    st['tid'] = tid

    def cache(key, id, meta, par, name, local, ab):
        o = mk(key, P, id=id if type(id) is Prop else Prop(value=id), meta=Prop(value=meta), parent=Prop(value=par), name=Prop(value=name), local=Prop(value=local),
               absolute=lambda s: ab, _meta_updater=updater, relative_to=lambda s, x: 'rel', __repr__=lambda s: key)
        objs[key].append(o)
        return o
    target = cache('target', Prop(get=lambda s: st['tid']), tmeta, tparent, tname, tlocal, atarget)
    remote = vc.obj(C.remotes.RemotePath, 'remote', stubs={'id': Prop(value=rid)})
    made = vc.obj(C.remotes.RemotePath, 'made remote', stubs={'id': Prop(value=mid)})
    meta = vc.any('meta')
    meta.attrs['id'] = mid

    def cast(t, meta=None, **k):
        vc.prove('the target is made a cache with the metadata given', t is tlocal and meta is not None)
        if tok['target'] is None:
            tok['target'] = ('target', 'link')    # metadata stored where there was nothing
            before['target'] = tok['target']
        else:
            vc.prove('metadata of one file is not written on another file', And(Not(untracked), tid == mid))
        st['tid'] = mid
        return target
    vc.class_models[P] = cast
    anchor = vc.obj(P, 'anchor', stubs={'__truediv__': lambda s, r: target})
    p = cache('self', sid, smeta, parent, sname, slocal, aself)
    vc.attrs = attrs_of(p)
    vc.class_stubs[(P, 'anchor')] = Prop(value=anchor)
    def local_class(t):
        if t is not tlocal:
            unsup('local path of something else')
        return tlocal
    vc.class_stubs[(P, 'local_class')] = Prop(value=model(local_class))
    vc.class_stubs[(P, '_remote_class')] = lambda s, m: made
    kw = [dict(remote=remote), dict(target=tlocal, meta=meta), dict(target=target, meta=meta), {}][given]
    if given == 3:
        kw = [dict(), dict(target=tlocal), dict(meta=meta)][vc.choose(3, 'missing')]
    if given == 0:
        # anchor / remote stores the metadata of the remote at the target
        if tok['target'] is None:
            tok['target'] = before['target'] = ('target', 'link')
    if given == 1:
        stubs_of(tlocal)['cache'] = Prop(get=lambda s: None if before['target'] is None or untracked else target)
    other = Not(tid == sid)
    if given == 1 and before['target'] is not None:
        other = Or(untracked, other, Not(tid == mid))
    if given == 1 and before['target'] is None:
        vc.assume(tid == mid)
    r = vc.attempt(P.move, p, **kw)
    unchanged = all(tok[k] == before[k] for k in tok)
    if given == 3:
        vc.prove('missing arguments are refused', r.raised(TypeError) and unchanged and not st['merged'])
        return
    if bool(same_path):
        vc.prove('moving onto itself does nothing', r.ok and unchanged and not st['merged'] and not st['made'])
        return
    vc.prove('nothing is left at the temporary name', tok['safe'] is None)
    if before['target'] is not None and bool(other):
        vc.prove('another file at the target: nothing is moved', unchanged)
        if before['target'][1] == 'data':
            vc.prove('another file at the target: refused', r.raised(exc.PathExistsError))
        elif given == 0:
            vc.prove('another link at the target: refused', r.raised(exc.WhyDidntThisGetMovedBeforeError))
        else:
            vc.prove('another link at the target: refused', not r.ok)
        vc.cover('refused')
        return
    vc.prove('missing parents are made', Iff(len(st['made']) == 1, Not(tparent_exists)))
    if st.get('failed'):
        vc.prove('a failing step leaves the file and the target as they were', unchanged)
        vc.cover('failed')
        return
    vc.prove('moved', r.ok)
    vc.prove('no longer at the old path', tok['self'] is None)
    if before['self'][1] == 'data':
        vc.prove('the data is at the target', tok['target'] == before['self'])
        vc.cover('data moved')
    elif given == 2 and before['target'] is None:
        pass          # a cache object without metadata on disk: excluded by assumption
    else:
        vc.prove('metadata is at the target', tok['target'] == before['target'] and tok['target'] is not None)
        vc.prove('metadata of the link is merged into the target', len(st['merged']) == 1 and st['merged'][0] is smeta)
        vc.cover('link moved')
    if r.ok:
        vc.prove('the new path is returned', r.value is target)
