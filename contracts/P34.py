"""A remote object and its cache: binding, updating, moving along, making it with what is above it."""
from pyvc.api import *
from augpathlib import remotes as R
from augpathlib import caches as C
from augpathlib import core as K
from augpathlib import meta as M
from augpathlib import exceptions as exc

CC = type('CC', (C.PrimaryCache, C.EatCache), {})
ASSUMES = ['updating the metadata of a cache merges and stores it, or raises (P04, P05, P30); move moves the file or raises (P07)',
           'making the child cache of the anchor for an object stores its metadata at its path (P31, P30), or raises, FileNotFoundError '
           'exactly if the directory above is missing',
           'above an object of depth n come objects of smaller depth up to the root (the recursion of cache_init ends)']



@contract('update_cache')
def update_cache(vc):
    own, given = vc.maybe('has a cache'), vc.maybe('a cache is given')
    if not own and not given:
        return
    same_name, same_parent = vc.bool('same name'), vc.bool('same parent')
    n1, n2, p1, p2 = vc.any('name of the cache', str), vc.any('name', str), vc.any('id of the parent of the cache', str), vc.any('parent id', str)
    vc.assume(Iff(n1 == n2, same_name))
    vc.assume(Iff(p1 == p2, same_parent))
    meta = vc.any('meta of the remote')
    log = []
    different = vc.any('different')
    ufail, mfail = vc.maybe('updating fails'), vc.choose(3, 'moving: works, was not moved before, fails')
    boom = Boom()
    why = exc.WhyDidntThisGetMovedBeforeError('x')
    fetch = vc.any('fetch')

    def upd(s, m, fetch=True):
        log.append(('update', s, m, fetch))
        if ufail:
            raise boom
        return different

    def move(s, *, remote=None, target=None, meta=None):
        log.append(('move', s, remote))
        if mfail:
            raise (boom if mfail == 2 else why)

    def mk(name):
        return vc.obj(CC, name, stubs={'name': Prop(value=n1), '_meta_updater': upd, 'move': move,
                                       'parent': Prop(value=vc.obj(CC, 'parent of ' + name, stubs={'id': Prop(value=p1)})),
                                       'local': Prop(value=vc.any('local'))})
    oc = mk('own') if own else None
    gc = mk('given') if given else None
    handled = []
    custom = vc.maybe('the class handles files that were not moved')
    st = {'name': Prop(value=n2), 'parent_id': Prop(value=p2), 'meta': Prop(value=meta), 'cache': Prop(value=oc),
          'parent': Prop(value=vc.obj(R.RemotePath, 'parent', stubs={'id': Prop(value=p2)}))}
    if custom:
        st['_on_cache_move_error'] = lambda s, e, c: handled.append((e, c))
    r = vc.obj(R.RemotePath, 'r', stubs=st)
    args = ({'cache': gc} if given else {})
    if vc.maybe('fetch given'):
        args['fetch'] = fetch
    else:
        fetch = True
    out = vc.attempt(R.RemotePath.update_cache, r, **args)
    x = oc if own else gc
    moved = [e for e in log if e[0] == 'move']
    updated = [e for e in log if e[0] == 'update']
    if own and given:
        vc.prove('a second cache is refused', isinstance(out.exc, TypeError) and not log)
        vc.cover('second')
        return
    if given:
        if not out.ok and isinstance(out.exc, ValueError) and not isinstance(out.exc, Boom):
            vc.prove('refused only if name or parent differ, and nothing happens', And(Not(And(same_name, same_parent)), not log))
            vc.cover('not the one')
            return
        vc.prove('a cache of another name or parent is refused', And(same_name, same_parent))
    vc.prove('the metadata is updated, first and once, with that of the remote',
             len(updated) == 1 and log[0] is updated[0] and updated[0][1] is x and updated[0][2] is meta and updated[0][3] is fetch)
    if ufail:
        vc.prove('a failing update is raised and nothing is moved', out.exc is boom and not moved)
        vc.cover('update fails')
        return
    vc.prove('moved exactly if name or parent differ', Iff(len(moved) == 1, Not(And(same_name, same_parent))))
    vc.prove('moved at most once, along with the remote', len(moved) <= 1 and all(e[1] is x and e[2] is r for e in moved))
    if moved and mfail == 2:
        vc.prove('a failing move is raised', out.exc is boom)
    elif moved and mfail == 1:
        vc.prove('what should have been moved before is left to the class, which raises it if it does nothing',
                 handled == [(why, x)] and out.ok and out.value is different if custom else out.exc is why)
    else:
        vc.prove('it is told whether the content is different', out.ok and out.value is different)
        vc.cover('moved', bool(moved))
        vc.cover('stays', not moved)


@contract('binding a cache')
def cache_setter(vc):
    meta = vc.any('meta')
    boom = Boom()
    fail = vc.maybe('updating fails')
    log = []
    kind = vc.choose(2, 'cache: a cache, something else')

    def upd(s, m, fetch=True):
        log.append(m)
        vc.prove('bound both ways while updating', attrs_of(r).get('_c_cache') is c and attrs_of(c).get('_remote') is r)
        if fail:
            raise boom
    c = vc.obj(CC if kind == 0 else K.LocalPath, 'c', stubs={'_meta_updater': upd})
    r = vc.obj(R.RemotePath, 'r', stubs={'meta': Prop(value=meta)})
    old = vc.obj(CC, 'old')
    had = vc.maybe('had a cache')
    if had:
        attrs_of(r)['_c_cache'] = old
    args = {}
    u = vc.choose(3, 'update_meta: default, True, False')
    if u:
        args['update_meta'] = u == 1
    out = vc.attempt(R.RemotePath._cache_setter, r, c, **args)
    now = attrs_of(r).get('_c_cache')
    if kind:
        vc.prove('what is not a cache is refused', isinstance(out.exc, exc.NotACacheClassError) and now is (old if had else None) and not log)
    elif u != 2 and fail:
        vc.prove('a failing update is raised and the cache is not kept', out.exc is boom and now is None)
        vc.cover('fails')
    else:
        vc.prove('bound both ways', out.ok and now is c and attrs_of(c).get('_remote') is r)
        vc.prove('its metadata is stored if not told otherwise', len(log) == (0 if u == 2 else 1) and all(m is meta for m in log))
        vc.cover('bound')


@contract('making a remote object')
def init(vc):
    kind = vc.choose(4, 'made from: an id, metadata, a remote object, something else')
    ident = vc.any('id', str) if kind == 0 else vc.any('id')
    x = ident
    if kind == 1:
        x = vc.obj(M.PathMeta, 'meta')
        attrs_of(x)['id'] = ident
        x._vc_stubs['id'] = Prop(value=ident)
    elif kind == 2:
        x = vc.obj(R.RemotePath, 'other', stubs={'id': Prop(value=ident)})
    elif kind == 3:
        x = vc.obj(K.LocalPath, 'something')
    c = vc.obj(CC, 'c') if vc.maybe('with a cache') else None
    r = vc.obj(R.RemotePath, 'r')
    anchored = vc.maybe('anchored')
    if anchored or c is not None:
        r._vc_stubs['_cache_anchor'] = Prop(value=vc.obj(CC, 'anchor'))
    args = {'cache': c} if c is not None else {}
    out = vc.attempt(R.RemotePath.__init__, r, x, **args)
    if kind == 3:
        vc.prove('made only from what has an id', isinstance(out.exc, TypeError))
        return
    vc.prove('it has that id', out.ok and vc.call(R.RemotePath.id.fget, r) is ident)
    if c is not None:
        vc.prove('bound both ways', attrs_of(r).get('_c_cache') is c and attrs_of(c).get('_remote') is r)
    vc.cover('made')


@contract('cache of a remote object')
def cache(vc):
    c = vc.obj(CC, 'c')
    r = vc.obj(R.RemotePath, 'r')
    bound = vc.maybe('bound')
    if bound:
        attrs_of(r)['_c_cache'] = c
    r._vc_stubs['_cache_anchor'] = Prop(value=vc.obj(CC, 'anchor'))
    out = vc.attempt(R.RemotePath.cache.fget, r)
    vc.prove('the cache it is bound to, or none', out.ok and (out.value is c if bound else out.value is None))


@contract('cache_init')
def cache_init(vc):
    """ one level; the object above by the same contract """
    w = {'parent': vc.maybe('the directory above is there'), 'made': None, 'tries': 0, 'up': 0}
    c, pc = vc.obj(CC, 'c'), vc.obj(CC, 'cache of the parent')
    boom = Boom()
    nofile = FileNotFoundError('no directory')
    fail = vc.choose(4, 'fails: nothing, making it, the parent, the parent with FileNotFoundError')

    def join(s, o):
        vc.prove('the cache made is that of the object', o is r)
        w['tries'] += 1
        if not w['parent']:
            raise nofile
        if fail == 1:
            raise boom
        w['made'] = c
        return c
    anchor = vc.obj(CC, 'anchor', stubs={'__truediv__': join})
    pmeta = vc.any('meta of the parent')

    def up(s, parents=False):
        vc.prove('what is above is made the same way, once, and only if it is missing', parents and not w['parent'] and w['up'] == 0)
        w['up'] += 1
        if fail >= 2:
            raise (boom if fail == 2 else nofile)
        w['parent'] = True
        return pc

    def second(s, m, anchor=False):
        raise exc.CacheExistsError('there is a cache')
    pc._vc_stubs['local'] = Prop(value=vc.obj(K.LocalPath, 'local of the parent', stubs={'cache_init': second}))
    parent = vc.obj(R.RemotePath, 'parent', stubs={'cache_init': up, 'meta': Prop(value=pmeta)})
    r = vc.obj(R.RemotePath, 'r', stubs={'_cache_anchor': Prop(value=anchor), 'parent': Prop(value=parent)})
    there = w['parent']
    p = vc.choose(3, 'parents: default, True, False')
    out = vc.attempt(R.RemotePath.cache_init, r, **({} if p == 0 else {'parents': p == 1}))
    vc.prove('nothing above is made unless asked for', w['up'] == 0 or p == 1)
    if not out.ok:
        vc.prove('a failure is raised as it is', out.exc is boom and (fail == 1 and (there or p == 1) or fail == 2)
                 or out.exc is nofile and (not there and p != 1 or fail == 3))
        vc.cover('fails')
    else:
        vc.prove('the cache of the object, made once', out.value is c and w['made'] is c)
        vc.prove('only if there is a directory for it, or asked to make it', there or p == 1)
        vc.cover('with what is above', not there)
        vc.cover('made')
