"""A cached file whose remote has a newer version is updated through the public
entry points, with local changes, failing fetches and a failing file system call
at every point."""
import os
from datetime import datetime, timezone
import env
import guard
from run import NotApplicable
from augpathlib import PathMeta
from augpathlib import exceptions as exc
RULE = 'entry point x local state x remote change x failure (n-th file system call, data source, size mismatch)'
OLD, NEW, LOCAL = b'old content', b'new, longer content', b'edited here by hand'


def cases(rng, tier):
    for entry in ('refresh', 'meta', 'update_cache'):
        for local in ('clean', 'edited', 'already-new', 'symlink', 'gone-remote'):
            for change in ('content', 'none', 'name-only-meta', 'updated', 'nosum'):
                for fail in (None, 'data', 'base', 'size', 'mid', 'ask', 'ask-base'):
                    for big in (False, True):
                        if big and (fail or local != 'clean'):
                            continue
                        yield {'entry': entry, 'local': local, 'change': change, 'fail': fail, 'big': big, 'n': None}
    for entry in ('refresh', 'meta', 'update_cache'):
        for n in range(1, 24):
            for change in ('content', 'nosum'):
                yield {'entry': entry, 'local': 'clean', 'change': change, 'fail': 'fs', 'n': n, 'big': False}
        for local in ('clean', 'edited', 'already-new'):
            for fail in (None, 'data', 'mid', 'ask'):
                yield {'entry': entry, 'local': local, 'change': 'nosize', 'fail': fail, 'big': False, 'n': None}
        for change in ('content', 'nosum', 'updated', 'nofid'):
            yield {'entry': entry, 'local': 'edited', 'change': change, 'fail': None, 'big': False, 'n': None, 'oldnosum': True}
        for local in ('clean', 'edited', 'already-new'):
            for fail in (None, 'ask', 'ask-ni'):
                for change in ('content', 'nosum', 'updated'):
                    yield {'entry': entry, 'local': local, 'change': change, 'fail': fail, 'big': False, 'n': None, 'nofid': True}
        for what in ('same-name-in-trash', 'deep'):
            for eno in (None, 18, 13, 5, 28):
                yield {'entry': entry, 'local': 'clean', 'change': 'content', 'fail': 'crumple' if eno else None, 'big': False, 'n': None,
                       'trash': what, 'errno': eno}
    for existing in (False, True):
        for idn in (1, 300):
            for n in (None, 1, 2):
                yield {'k': 'crumple', 'id': 'i' * idn, 'trash': existing, 'n': n}


class Stop(BaseException):
    pass


def crumple(c):
    w = env.World()
    w.anchor()
    p = w.put('a.txt', c['id'][:200], OLD)
    if len(c['id']) > 200:
        os.setxattr(p, 'user.vt.id', c['id'].encode())
    w.nodes[c['id']] = dict(name='a.txt', parent='root-id', dir=False, data=OLD, kw={})
    if not c['trash']:
        os.rmdir(w.base + '/trash')
    cache = p.cache
    before = env.tree(w.base)['root/a.txt']
    try:
        with guard.fault(c['n']):
            t = cache.crumple()
    except (OSError, KeyboardInterrupt):
        if c['n'] is None:
            raise
        if env.tree(w.base).get('root/a.txt') != before:
            return 'a crumple that failed moved the file'
        return
    if env.tree(w.base).get(os.path.relpath(t, w.base)) != before:
        return f'crumple returned {t} but the file is not there'
    if os.path.dirname(t) != w.base + '/trash' or os.path.lexists(p):
        return f'crumple moved the file to {t}'


def run(c):
    if c.get('k') == 'crumple':
        return crumple(c)
    w = env.World()
    w.anchor()
    t0 = datetime(2020, 1, 1, tzinfo=timezone.utc)
    t1 = datetime(2021, 1, 1, tzinfo=timezone.utc)
    w.add('a', 'a.txt', data=OLD, updated=t0, created=t0)
    kw = dict(w.nodes['a']['kw'])
    kw = dict(id='a', name='a.txt', parent_id='root-id', **kw)
    link = c['local'] == 'symlink'
    if c.get('nofid') or c['change'] == 'nofid':
        w.nodes['a']['kw'].pop('file_id')
        kw.pop('file_id')
    if c.get('oldnosum'):
        kw.pop('checksum')
    if c.get('trash') == 'deep':
        w.CacheT._trashed_path = property(lambda s: s.trash / 'one' / 'two' / s.id)
    elif c.get('trash'):
        os.makedirs(w.base + '/trash', exist_ok=True)
        open(w.base + '/trash/a.txt', 'wb').write(b'another a.txt')
    data = {'edited': LOCAL, 'already-new': NEW}.get(c['local'], OLD)
    p = w.put('a.txt', data=data, link=link, **kw)
    n = w.nodes['a']
    new = NEW * (200000 if c['big'] else 1)
    if c['change'] in ('content', 'nosum', 'nofid', 'nosize'):
        n['data'] = new
        n['kw'].update(size=len(new), updated=t1, checksum=w.sum(new))
        if c['change'] == 'nosize':
            n['kw']['size'] = None
        if c['change'] == 'nosum':
            n['kw']['checksum'] = None
    elif c['change'] == 'updated':
        n['kw'].update(updated=t1)
        if c['local'] == 'already-new':
            return
    elif c['change'] == 'name-only-meta':
        n['kw'].update(user_id=77)
    changed = c['change'] in ('content', 'nosum', 'updated', 'nofid', 'nosize')
    if c['fail'] == 'data':
        w.fail_data = OSError('the network is down')
    if c['fail'] == 'base':
        w.fail_data = Stop()
    if c['fail'] == 'size':
        n['data'] = n['data'] + b'x'
    if c['fail'] == 'mid':
        def chunks(id, real=w.chunks):
            yield b'pa'
            raise exc.AugPathlibError('half way')
        w.chunks = chunks
    cache = p.cache
    remote = w.RemoteT('a', cache=cache)
    meta = w.meta('a')
    if c['local'] == 'gone-remote':
        del w.nodes['a']
        if c['entry'] == 'update_cache':
            return
    before = env.tree(w.base, skip=('root/.operations',))
    me = 'root/a.txt'
    raised = None
    asked = []
    inthetrash = 'trash/one/two/a' if c.get('trash') == 'deep' else 'trash/a'
    if (c['fail'] or '').startswith('ask'):
        def broken(self, *a, real=w.LocalT.checksum, **k):
            if asked:
                return real(self, *a, **k)
            asked.append({'ask': OSError(5, 'the local file cannot be read'), 'ask-ni': NotImplementedError('unknown cypher')}.get(c['fail']) or Stop())
            raise asked[-1]
        w.LocalT.checksum = broken
    if c['fail'] == 'crumple':
        def rename(self, to, real=w.CacheT.rename, first=[1]):
            if first:
                first.pop()
                raise OSError(c['errno'], 'injected')
            return real(self, to)
        w.CacheT.rename = rename
    with guard.fault(c['n']):
        try:
            if c['entry'] == 'refresh':
                cache.refresh()
            elif c['entry'] == 'meta':
                w.CacheT(p, meta=meta)
            else:
                remote.update_cache()
        except BaseException as e:
            raised = e
    after = env.tree(w.base, skip=('root/.operations',))
    if c['local'] == 'gone-remote':
        if c['entry'] == 'refresh' and raised is None:
            if after.get('trash/a') != before[me]:
                return 'the file of a deleted remote is not in the trash'
        elif before[me][1] not in [after[k][1] for k in (me, 'trash/a') if k in after]:
            return f'the old data is lost ({raised!r})'
        return
    if link:
        if after.get(me) is None:
            return 'the path is gone'
        return
    if asked:
        if raised is not asked[-1]:
            return f'{raised!r} was raised when the local file could not be read'
        return f'{diff(before, after)} changed without knowing whether there are local changes' if before != after else None
    edited = c['local'] == 'edited'
    # a local edit that is not the new content either blocks the update
    blocked = changed and (edited or c['local'] == 'already-new' and c['change'] == 'nosum')
    if blocked:
        if not isinstance(raised, exc.LocalChangesError):
            return f'local changes did not block the update: {raised!r}'
        if after != before:
            return f'a blocked update changed {diff(before, after)}'
        return
    if c.get('trash') and after.get('trash/a.txt') != before.get('trash/a.txt'):
        return 'what was in the trash already is gone'
    if c.get('oldnosum'):
        return None if after == before else f'an edited file of unknown checksum changed: {diff(before, after)}'
    if c['fail'] == 'crumple' and raised is None:
        return f'the failure was not raised, changed {diff(before, after)}'
    if raised is not None:
        if isinstance(raised, exc.LocalChangesError):
            return 'refused although the file was not changed locally'
        if c['fail'] is None and c['change'] != 'nosize':      # what is fetched of unknown size is refused
            raise raised
        if w.fail_data is not None and raised is not w.fail_data:
            return f'raised {raised!r} instead of the failure'
        if after.get(me) != before[me]:
            return f'after a failed update ({raised!r}) the old file is not back: {diff(before, after)}'
        return
    if c['fail'] in ('data', 'size', 'mid', 'base') and changed:
        return 'the failure was not raised'
    if not changed:
        if after.get(me)[1] != before[me][1] or 'trash/a' in after or w.fetched:
            return f'a file whose content did not change was replaced: {diff(before, after)}'
        return
    if after.get(inthetrash) != before[me]:
        return f'the replaced file is not in the trash with its metadata: {diff(before, after)}'
    if (c.get('nofid') or c['change'] == 'nofid') and after[me][0] == 'link':
        return      # it is not known how to get it: only a link, the old file in the trash
    if after[me][1] != n['data']:
        return 'the new content was not fetched'
    if w.CacheT(p).meta.size != (None if c['change'] == 'nosize' else len(n['data'])):
        return 'the new metadata was not stored'


def diff(a, b):
    return [(k, str(a.get(k))[:80], str(b.get(k))[:80]) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]
