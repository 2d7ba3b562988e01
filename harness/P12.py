"""Histories of changes and questions; after each the metadata must be that of the file on disk."""
import hashlib
import os
import stat as statmod
from datetime import datetime, timezone
from augpathlib import LocalPath
import run as R
RULE = 'sequences of up to 6 changes (write, append, chmod, chown times, replace, remove, failing read) and questions'
A = {'blake2b': hashlib.blake2b, 'sha256': hashlib.sha256}
OPS = ['write', 'samesize', 'append', 'chmod', 'utime', 'replace', 'remove', 'mkdir', 'past', 'ctimeonly', 'older', 'empty']
ASK = ['meta', 'nosum', 'etag', 'etag2', 'etagnosum', 'size', 'broken', 'nostat']


def cases(rng, tier):
    for own in (None, 'sha256', 'blake2b'):
        for o in OPS:
            yield {'own': own, 'seq': [o, 'nosum', 'meta', 'etagnosum', 'etag']}
        for a in ASK:
            for o in OPS + [None]:
                for b in ASK[:5] + ['nostat']:
                    yield {'own': own, 'seq': [a, o, b] if o else [a, b]}
                    if o:
                        yield {'own': own, 'seq': ['meta', o, 'broken', b]}
    while True:
        yield {'own': rng.choice([None, 'sha256', 'blake2b']),
               'seq': [rng.choice(OPS if rng.random() < .5 else ASK) for _ in range(rng.randint(2, 7))]}


def etag(data, cs):
    if not data:
        return hashlib.md5().digest(), 0
    parts = [hashlib.md5(data[i:i + cs]).digest() for i in range(0, len(data), cs)]
    return hashlib.md5(b''.join(parts)).digest(), len(parts)


def run(c):
    class P(LocalPath):
        sysid = 'sysid-x'
    if hasattr(P, '_bind_flavours'):
        P._bind_flavours()
    if c['own']:
        class C:
            cypher = A[c['own']]
        P._cache_class = C
    f = os.path.abspath('f')
    p = P(f)
    p._cache = None
    algo = c['own'] if c['own'] in A else 'blake2b'
    n = [0]
    clock = [1600000000]

    def touch():
        # the tick of a file system clock is assumed to separate changes
        clock[0] += 1000
        if os.path.exists(f):
            os.utime(f, (clock[0], clock[0] + .25))

    def change(op):
        n[0] += 1
        if op == 'mkdir':
            if not os.path.exists(f):
                os.mkdir(f)
                touch()
            return
        if os.path.isdir(f):
            if op == 'remove':
                os.rmdir(f)
            return
        if op == 'remove':
            if os.path.lexists(f):
                os.unlink(f)
            return
        if op == 'older':
            # another file that is older than this one
            if os.path.lexists(f):
                os.unlink(f)
            os.symlink(os.path.abspath('older'), f)
            return
        if op == 'replace':
            with open('g', 'wb') as h:
                h.write(b'replaced %d' % n[0])
            os.replace('g', f)
            return touch()
        if op in ('write', 'append') or not os.path.exists(f):
            with open(f, 'ab' if op == 'append' else 'wb') as h:
                h.write(bytes((n[0] * 7 + i) % 256 for i in range(n[0] % 3 * 50 + n[0])))
            return touch()
        if op == 'samesize':
            with open(f, 'r+b') as h:
                h.write(bytes((n[0] * 5) % 256 for i in range(os.path.getsize(f))))
            return touch()
        if op == 'empty':
            with open(f, 'wb'):
                pass
            return touch()
        if op == 'chmod':
            os.chmod(f, 0o600 + n[0] % 8)
            return touch()
        if op == 'past':
            # an older modification time than before
            with open(f, 'r+b') as h:
                h.write(b'P%d' % n[0])
            os.utime(f, (1000000 + n[0], 1000000 + n[0]))
            return
        if op == 'ctimeonly':
            # the change restores the modification time: only the status change time tells
            st = os.stat(f)
            with open(f, 'r+b') as h:
                h.write(b'C%d' % n[0])
            for i in range(1000):
                os.utime(f, ns=(st.st_atime_ns, st.st_mtime_ns))
                if os.stat(f).st_ctime != st.st_ctime:
                    break
            else:
                raise R.NotApplicable
            return
        touch()

    def check(m, st, want, cs, label):
        if m.size != st.st_size:
            return f'{label}: size {m.size} instead of {st.st_size}'
        for k, v in (('created', st.st_mtime), ('updated', st.st_ctime)):
            v = datetime.fromtimestamp(v, tz=timezone.utc)
            if getattr(m, k) != v:
                return f'{label}: {k} {getattr(m, k)} instead of {v}'
        for k, v in (('file_id', st.st_ino), ('user_id', st.st_uid), ('gid', st.st_gid), ('mode', oct(st.st_mode)), ('name', 'f'),
                     ('id', p.sysid + ':' + f), ('parent_id', p.sysid + ':' + os.path.dirname(f))):
            if getattr(m, k) != v:
                return f'{label}: {k} {getattr(m, k)!r} instead of {v!r}'
        if statmod.S_ISDIR(st.st_mode):
            return None if m.checksum is None and m.etag is None else f'{label}: a directory with checksum or etag'
        data = open(f, 'rb').read()
        if want and m.checksum is None:
            return f'{label}: no checksum'
        if m.checksum is not None and (m.checksum != A[algo](data).digest() or m.checksum_cypher != algo):
            return f'{label}: checksum {m.checksum_cypher} {m.checksum.hex()[:16]} is not the {algo} of the data'
        if cs and m.etag is None:
            return f'{label}: no etag'
        if m.etag is not None and (m.etag != etag(data, m.chunksize) or (cs and m.chunksize != cs)):
            return f'{label}: etag is {m.etag} chunksize {m.chunksize}'

    with open('older', 'wb') as h:
        h.write(b'an older file')
    os.utime('older', (1000, 1000.5))
    seq = list(c['seq'])
    change('write')
    for i, op in enumerate(seq):
        label = f'step {i} {op} of {seq}'
        if op in OPS:
            change(op)
            continue
        there = os.path.exists(f)
        st = os.stat(f) if there else None
        if op == 'size':
            if there and p.size != st.st_size:
                return f'{label}: {p.size}'
            continue
        if op == 'broken':
            def fail(*a, **k):
                raise PermissionError('cannot read')
            P.checksum = fail
            try:
                m = p.meta
            except PermissionError:
                continue
            finally:
                del P.checksum
            want, cs = False, None
        elif op == 'nostat':
            def fail(*a, **k):
                raise OSError('cannot tell')
            real = P.exists
            P.stat, P.exists = fail, lambda s: os.path.exists(s)
            try:
                m = p.meta
            except OSError:
                continue
            finally:
                del P.stat, P.exists
            want, cs = True, None
        elif op == 'meta':
            m, want, cs = p.meta, True, None
        elif op == 'nosum':
            m, want, cs = p.meta_no_checksum, False, None
        else:
            if not hasattr(p, '_meta_maker'):
                raise R.NotApplicable
            cs = 7 if op == 'etag2' else 16
            want = op != 'etagnosum'
            m = p._meta_maker(chunksize=cs, checksum=want)
        if not there:
            if m.size is not None or m.id != p.sysid + ':' + f or m.checksum is not None:
                return f'{label}: metadata of what does not exist: {m!r}'
            continue
        r = check(m, st, want, cs, label)
        if r:
            return r
    try:
        p.meta = None
        return 'metadata was set'
    except TypeError:
        pass
    # what is not there has no metadata but a name and an id, also if it is known to the cache
    from augpathlib import PathMeta
    for kind in ('absent', 'broken link'):
        class Rec:
            meta = PathMeta(id='x', size=10, checksum=b'abc')
            id = 'x'
            __bool__ = lambda self: True
        if kind == 'broken link':
            os.symlink('nowhere/x', 'gone')
        g = P(os.path.abspath('gone'))
        g._cache = Rec()
        m = g.meta
        if m != PathMeta(name='gone', id=p.sysid + ':' + os.path.abspath('gone')):
            return f'metadata of {kind}: {m!r}'
    # whether the content differs from the recorded one
    if os.path.isfile(f):
        from augpathlib import PathMeta
        data = open(f, 'rb').read()
        for rec in ({'checksum': A[algo](data).digest(), 'checksum_cypher': algo}, {'checksum': A[algo](data + b'x').digest(), 'checksum_cypher': algo},
                    {'size': len(data)}):
            class Ca:
                meta = PathMeta(**rec)

                def checksum(self):
                    return other
            for other in (p.checksum(), b'other'):
                p2 = P(f)
                p2._cache = Ca()
                got = p2.content_different()
                w = rec['checksum'] != A[algo](data).digest() if 'checksum' in rec else other != p.checksum()
                if bool(got) != w:
                    return f'content_different is {got} for a record {sorted(rec)}, {other[:4]!r}'
