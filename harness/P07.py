"""Moving cached files and links, onto every kind of target, through each form
of argument, with a failing file system call at each point."""
import os
import env
import guard
from datetime import datetime, timezone
from augpathlib import PathMeta
from augpathlib import exceptions as exc
RULE = 'form of argument x what is moved x what is at the target x parent x n-th failing call'


def cases(rng, tier):
    for form in ('remote', 'meta', 'cache'):
        for me in ('file', 'link', 'dir', 'emptydir'):
            for tgt in (None, 'file', 'link', 'untracked', 'same-link', 'same-file', 'self'):
                for parent in ('same', 'other', 'missing'):
                    for n in [None] + (['rename', 1, 2, 3, 4] if tgt in (None, 'same-link', 'file', 'link') else []):
                        yield {'form': form, 'me': me, 'tgt': tgt, 'parent': parent, 'n': n}
    for form in ('remote', 'meta', 'cache'):
        for parent in ('same', 'other'):
            for me in ('file', 'link'):
                for n in (None, 'rename', 1, 2, 3):
                    yield {'form': form, 'me': me, 'tgt': 'link', 'parent': parent, 'n': n, 'newer': True}
                    yield {'form': form, 'me': me, 'tgt': 'same-resolving', 'parent': parent, 'n': n}
    for kw in ('none', 'target', 'meta'):
        yield {'form': kw, 'me': 'file', 'tgt': None, 'parent': 'same', 'n': None}


def run(c):
    w = env.World()
    w.anchor()
    me, tgt, parent = c['me'], c['tgt'], c['parent']
    isdir = 'dir' in me
    w.add('a', 'new.x', parent='root-id' if parent == 'same' else 'd', dir=isdir, data=b'aaa')
    w.add('d', 'd', dir=True)
    w.add('b', 'b.x', data=b'bbb')
    src = w.local('old.x')
    if isdir:
        src.mkdir()
        if me == 'dir':
            (src / 'inner').mkdir()
        os.setxattr(src, 'user.vt.id', b'a')
    else:
        w.put('old.x', 'a', b'aaa edited', link=me == 'link', size=3, name='old.x', user_id=7, **times(c, 2))
    rel = 'old.x' if tgt == 'self' else 'new.x' if parent == 'same' else 'd/new.x'
    if parent != 'same' and tgt != 'self' and (parent == 'other' or tgt):
        w.local('d').mkdir(exist_ok=True)
        os.setxattr(w.local('d'), 'user.vt.id', b'd')
    t = w.local(rel)
    if tgt == 'file':
        w.put(rel, 'b', b'bbb')
    elif tgt == 'link':
        w.put(rel, 'b', link=True, name='new.x', **times(c, 1))
    elif tgt == 'untracked':
        open(t, 'w').write('mine')
    elif tgt == 'same-link':
        if isdir:
            return
        w.put(rel, 'a', link=True, name='new.x', size=3)
    elif tgt == 'same-file':
        if isdir:
            return
        w.put(rel, 'a', b'aaa', size=3, name='new.x')
    elif tgt == 'same-resolving':
        if isdir:
            return
        w.put(rel + 'real', 'a', b'aaa', size=3, name='new.x')
        os.symlink('new.xreal', t)
    cache = src.cache
    meta = cache.meta
    kw = {'meta': dict(target=t, meta=meta), 'none': {}, 'target': dict(target=t)}.get(c['form'])
    if c['form'] == 'remote':
        if tgt == 'self':
            w.nodes['a']['name'] = 'old.x'
            w.nodes['a']['parent'] = 'root-id'
        r = w.RemoteT('a', cache=cache)
        if tgt in ('file', 'link', 'untracked'):
            # the path of a remote already taken by another file: reach move itself
            kw = dict(remote=r, target=w.CacheT(t) if tgt != 'untracked' else t, meta=meta)
        else:
            kw = dict(remote=r)
    if c['form'] == 'cache':
        if tgt in ('file', 'link', 'same-link', 'same-file', 'same-resolving', 'self'):
            kw = dict(target=w.CacheT(t), meta=meta)
        else:
            return
    if kw is None:
        kw = dict(meta=meta)
    before = env.tree(w.base, skip=('root/.operations',))
    raised = None
    real = os.rename

    def rename(x, y, *args, **kws):
        if os.path.abspath(x) == str(src) and os.path.abspath(y) == str(w.local(rel)):
            raise OSError(18, 'injected fault')
        return real(x, y, *args, **kws)
    if c['n'] == 'rename':
        os.rename = rename
    try:
        with guard.fault(c['n']):
            try:
                out = cache.move(**kw)
            except BaseException as e:
                raised = e
    finally:
        os.rename = real
    after = env.tree(w.base, skip=('root/.operations',))
    a, b = 'root/old.x', 'root/' + rel
    for k in after:
        if '.unlink' in k and type(c['n']) is not int:
            return f'a temporary {k} is left'
    if c['form'] in ('none', 'target'):
        return None if isinstance(raised, TypeError) and after == before else f'missing arguments: {raised!r}'
    if 'target' not in kw and 'remote' not in kw:
        return None if isinstance(raised, TypeError) and after == before else f'missing arguments: {raised!r}'
    if tgt == 'self' and c['form'] == 'remote':     # anchor / remote stores the metadata of the remote
        ok = raised is None and a in after and after[a][0] == before[a][0] and (
            after[a][1] == before[a][1] or me == 'link' and w.CacheT(src).meta.id == 'a')
        return None if ok else f'moving onto itself: {raised!r} {diff(before, after)}'
    if tgt == 'self':
        return None if raised is None and after == before else f'moving onto itself: {raised!r} {diff(before, after)}'
    if tgt in ('file', 'link', 'untracked'):
        if after != before:
            return f'another file at the target: {diff(before, after)}'
        if c['n'] is None and not isinstance(raised, (exc.PathExistsError, exc.WhyDidntThisGetMovedBeforeError)):
            return f'another file at the target: not refused but {raised!r}'
        return
    if tgt == 'same-resolving':
        if me == 'file' and c['n'] and before[a][1] not in [after[k][1] for k in (a, b) if k in after]:
            return f'after a failure the file is lost: {raised!r} {diff(before, after)}'
        if a in after and after[a] == before[a] and after.get(b) != before[b]:
            return f'nothing was moved but what was at the target is gone: {diff(before, after)}'
        if after.get(b + 'real', (0, 0))[1] != before[b + 'real'][1]:
            return f'the data of the file the target leads to changed: {diff(before, after)}'
        return
    if c['n'] == 'rename':
        if me == 'link':
            return
        if after.get(a) != before[a]:
            return f'the rename failed and the file is not where it was: {diff(before, after)}'
        if tgt == 'same-link' and after.get(b, (0,))[0] != 'link':
            return f'the rename failed and the link at the target is gone: {diff(before, after)}'
        return
    if c['n'] is not None:
        # one call failed: nothing is lost
        if me == 'link':
            if not any(k in after for k in (a, b, 'trash/a')):
                return f'after a failure the metadata is lost: {raised!r}'
        elif before[a][1] not in [after[k][1] for k in (a, b) if k in after]:
            return f'after a failure the file is lost: {raised!r} {diff(before, after)}'
        return
    if isinstance(raised, FileNotFoundError) and isdir and parent == 'missing' and after == before:
        return      # refused loudly, nothing changed
    if raised:
        raise raised
    if out != w.local(rel):
        return f'returned {out}'
    if a in after:
        return f'still at the old path: {diff(before, after)}'
    if me == 'link':
        m = w.CacheT(w.local(rel)).meta
        if m is None or m.id != 'a':
            return f'the target has metadata {m!r}'
        if c['form'] != 'remote' and m.user_id != 7:
            return f'the metadata was not merged into the target: {m!r}'
        return
    if me == 'file' and after[b][1] != before[a][1]:
        return f'the data did not arrive: {diff(before, after)}'
    if me == 'dir' and b + '/inner' not in after:
        return f'the directory did not arrive: {diff(before, after)}'
    if dict(after[b][2]).get('user.vt.id') != b'a':
        return f'the metadata did not arrive: {diff(before, after)}'


def times(c, d):
    return dict(updated=datetime(2020, 1, d, tzinfo=timezone.utc)) if c.get('newer') else {}


def diff(a, b):
    return [(k, str(a.get(k))[:80], str(b.get(k))[:80]) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]
