"""A remote machine that is this one: the commands are really run by a shell, the transfers are a process."""
import os
import pathlib
import stat
import subprocess
from augpathlib import LocalPath
from augpathlib import exceptions as exc
import augpathlib.remotes as R
from augpathlib.caches import SshCache
RULE = 'files, empty files, directories and missing things with names of shell characters, blanks and dashes; modes and owners; slow, failing and too long commands'
PARTS = [' ', '  ', '$HOME', '$(touch hit)', '`touch hit`', '"', "'", ';', ';touch hit;', '|', '&', '>', '<', '*', '?', '[a]', '{a,b}', '\\', '!', '~', '#',
         'é', '-', '--', '-c', ':', 'host:', '(', ')', '%n', 'a', 'b', '0', '=', ' - ', 'directory', 'regular file', '.', ',', '^']
SIZES = [0, 1, 5, 4095, 4096, 4097, 8192, 70000]


def cases(rng, tier):
    base = {'name': 'a', 'what': 'file', 'size': 5, 'how': 'path', 'slow': 0, 'fail': None, 'mode': 0o644, 'uid': 0, 'gid': 0, 'me': [0, [0]]}
    yield base
    for w in ('file', 'none'):
        yield dict(base, what=w, deny=True)
    for w in ('file', 'dir', 'none'):
        for how in ('parts', 'div', 'relative', 'relative id', 'child of parent'):
            yield dict(base, what=w, how=how)
    for n in ('a', 'Permission denied', 'No such file or directory'):
        yield dict(base, name=n, deny='Input/output error')
        yield dict(base, name=n, what='none')
    for k in (1, 3):
        yield dict(base, slow=k)
        yield dict(base, slow=k, what='dir')
    for n in (30, 50, 70, 90, 110, 130, 240):
        yield dict(base, name='n' * n)
    yield dict(base, mode=0o070, uid=1, gid=3, me=[1, [2, 3]])
    yield dict(base, mode=0o007, uid=7, gid=3, me=[1, [2, 3]])
    yield dict(base, mode=0o010, uid=7, gid=3, me=[1, [2, 3]])
    yield dict(base, mode=0o100, uid=1, gid=3, me=[1, [2, 3]])
    yield dict(base, mode=0o001, uid=7, gid=8, me=[1, [2, 3]])
    for p in ('\\', '\t', ' x', 'x '):
        yield dict(base, name=f'a{p}b'[:3])
    for i, p in enumerate(PARTS):
        yield dict(base, name=f'x{p}y', what=('file', 'dir', 'none')[i % 3])
    for i, p in enumerate(PARTS):
        yield dict(base, name=p if p not in ('.',) else 'q', what=('none', 'file', 'dir')[i % 3])
    for s in SIZES:
        yield dict(base, size=s)
        for f in sorted({0, s // 2, s}):
            yield dict(base, size=s, fail=f)
    for m in range(8):
        for sh in (0, 3, 6):
            for uid, gid in ((7, 8), (1, 8), (7, 3), (1, 2)):
                yield dict(base, mode=m << sh, uid=uid, gid=gid, me=[1, [2, 3]])
    yield dict(base, mode=0o070, uid=1, gid=2, me=[1, [2]])
    for w in ('file', 'dir', 'none', 'fifo', 'link', 'broken', 'under file'):
        for how in ('path', 'id', 'parts', 'div', 'relative', 'relative id', 'child of parent'):
            yield dict(base, what=w, how=how)
    while True:
        yield {'name': ''.join(rng.choice(PARTS) for _ in range(rng.randint(1, 5))), 'what': rng.choice(['file', 'file', 'dir', 'none', 'link', 'fifo', 'broken']),
               'size': rng.choice(SIZES + [rng.randrange(20000)]), 'how': rng.choice(['path', 'path', 'id', 'parts', 'div', 'relative', 'relative id', 'child of parent']), 'slow': rng.choice([0, 0, 0, 1, 2]),
               'fail': None if rng.random() < .8 else rng.randrange(9000), 'mode': rng.randrange(0o10000), 'uid': rng.randrange(3), 'gid': rng.randrange(5),
               'me': [rng.randrange(3), rng.sample(range(5), rng.randint(1, 3))]}


def setup():
    os.mkdir('bin')
    with open('bin/ssh', 'w') as f:
        f.write('#!/bin/sh\nshift\nif [ -n "$VT_FAIL" ]; then sh -c "$*" | head -c $VT_FAIL; [ -n "$VT_KILL" ] && kill -9 $$; exit 255; fi\nexec sh -c "$*"\n')
    os.chmod('bin/ssh', 0o755)
    os.environ['PATH'] = os.path.abspath('bin') + ':' + os.environ['PATH']
    os.environ['LC_ALL'] = 'C.UTF-8'
    R.pxssh.pxssh = Session


class Session:
    slow = 0
    deny = toolong = None
    timeout = 30

    def __init__(self, *a, **k):
        self.before, self.left, self.new = b'', 0, b''

    def login(self, *a, **k):
        return True

    def setwinsize(self, *a):
        pass

    def sendeof(self):
        pass

    def close(self, *a):
        pass

    def sendline(self, cmd=''):
        b = cmd.encode()
        if len(cmd) > 200:
            Session.toolong = cmd
        out = subprocess.run(['bash', '-c', cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL).stdout
        if self.deny:
            out = "stat: cannot statx '%s': %s\n".__mod__(self.deny).encode()
        # a line longer than the terminal is wrapped in the echo
        echo = ' \r'.join(cmd[i:i + 200] for i in range(0, len(cmd), 200)).encode()
        self.new = echo + b'\r\n' + out.replace(b'\n', b'\r\n')
        self.left = self.slow
        # until the prompt is there, what is there is what was there before
        return len(b) + 1

    def prompt(self, timeout=-1):
        if timeout is not None and self.left > 0:
            self.left -= 1
            self.before = self.new[:-len(self.new) // 2]
            return False
        self.before = self.new
        return True


def run(c):
    bad = []
    os.makedirs('far/d')
    os.makedirs('local')
    far = os.path.abspath('far')
    name = c['name'].replace('/', '_')
    p = os.path.join(far, 'd', name)
    if len(os.fsencode(name)) > 250 or name in ('.', '..'):
        return None
    what = c['what']
    body = bytes((i * 7 + i // 251) % 256 for i in range(c['size']))
    if what in ('file', 'link'):
        q = p if what == 'file' else os.path.join(far, 'target')
        with open(q, 'wb') as f:
            f.write(body)
        if what == 'link':
            os.symlink(q, p)
    elif what == 'dir':
        os.mkdir(p)
    elif what == 'fifo':
        os.mkfifo(p)
    elif what == 'broken':
        os.symlink('nowhere', p)
    elif what == 'under file':
        with open(os.path.join(far, 'f'), 'wb') as f:
            f.write(body)
        p = os.path.join(far, 'f', name)
    here = os.path.lexists(p)
    if here and what != 'link' and what != 'broken':
        os.chown(p, c['uid'], c['gid'])
        os.chmod(p, c['mode'])

    class Path(LocalPath):
        sysid = 'vt-sysid'

    class Cache(SshCache):
        pass
    S = R.SshRemote._new(Path, Cache)
    Session.slow = 0
    Path('local').resolve().cache_init(f'host:{far}', anchor=True)
    S._uid, S._gids = c['me'][0], c['me'][1]
    S.session.slow = c['slow']
    S.session.prompt(timeout=None)
    how = c['how']
    if how not in ('path', 'id') and what == 'under file':
        return None
    r = (S(p) if how == 'path' else S(f'host:{p}') if how == 'id' else S(far, 'd', name) if how == 'parts' else
         S(far) / 'd' / name if how == 'div' else S('d', name) if how == 'relative' else
         S('host:d', name) if how == 'relative id' else S(p).parent / name)
    if r.rpath != p:
        return f'{how}: path {r.rpath!r}, wanted {p!r}'
    if r.id != 'host:' + p:
        bad.append(f'id {r.id!r}')
    if how != 'path':
        if r.name != os.path.basename(p) or r.parent.rpath != os.path.dirname(p) or r.parent.id != 'host:' + os.path.dirname(p):
            bad.append(f'name {r.name!r}, parent {r.parent!r}')
        if r != S(p) or r.parent != S(os.path.dirname(p)) or r == r.parent:
            bad.append(f'{r!r} is not itself')
        up = [x.rpath for x in r.parents]
        if up != [str(x) for x in pathlib.PurePosixPath(p).parents]:
            bad.append(f'parents {up}')
        if tuple(r._parts_relative_to(S(far))) != pathlib.PurePosixPath(p).relative_to(far).parts:
            bad.append(f'parts {r._parts_relative_to(S(far))}')
    long = object()

    def ask(f):
        try:
            return f()
        except exc.CommandTooLongError:
            return long
        except Exception as e:
            return e
    fits = len(p) < 60

    def same(n, f, want):
        v = ask(f)
        if v is long:
            if fits:
                bad.append(f'{n}: too long')
        elif isinstance(want, type) and issubclass(want, BaseException):
            if not isinstance(v, want):
                bad.append(f'{n}: {v!r}, wanted {want.__name__}')
        elif isinstance(v, Exception) or v != want:
            bad.append(f'{n}: {v!r}, wanted {want!r}')
    st = os.lstat(p) if here else None
    if c.get('deny'):
        S.session.deny = p, 'Permission denied' if c['deny'] is True else c['deny']
        if c['deny'] is not True:
            for n in ('exists', 'stat'):
                v = ask(getattr(r, n))
                if not isinstance(v, Exception) or isinstance(v, (FileNotFoundError, PermissionError)):
                    bad.append(f'{n} of what cannot be read: {v!r}')
            return '; '.join(bad) or None
        same('exists of what is not allowed', lambda: r.exists(), PermissionError)
        same('stat of what is not allowed', lambda: r.stat(), PermissionError)
        same('access to what is not allowed', lambda: r.access('read'), False)
        return '; '.join(bad) or None
    if what != 'under file':
        same('exists', lambda: bool(r.exists()), here)
    same('is_dir', lambda: bool(r.is_dir()), here and stat.S_ISDIR(st.st_mode))
    same('is_file', lambda: bool(r.is_file()), here and stat.S_ISREG(st.st_mode))
    if not here:
        if what != 'under file':
            same('stat', lambda: r.stat(), FileNotFoundError)
            same('access', lambda: r.access('read'), False)
    else:
        def fields():
            s = r.stat()
            if s.name != p:
                bad.append(f'name {s.name!r}')
            for t in ('st_atime', 'st_mtime', 'st_ctime'):
                if abs(getattr(s, t) - getattr(st, t)) > 1e-5 + 1e-6:
                    bad.append(f'{t} {getattr(s, t)} is {getattr(st, t)}')
            return s.st_ino, s.st_size, s.st_uid, s.st_gid, s.st_mode
        # reading contents elsewhere may not change what is compared here
        same('stat', fields, (st.st_ino, st.st_size, st.st_uid, st.st_gid, st.st_mode))
        uid, gids = c['me']
        sh = 6 if st.st_uid == uid else 3 if st.st_gid in gids else 0
        for bit, names in ((4, ('read', os.R_OK)), (2, ('write', os.W_OK)), (1, ('execute', os.X_OK))):
            for n in names:
                same(f'access {n}', lambda: r.access(n), bool(st.st_mode >> sh & bit))
    if what in ('file', 'link', 'none', 'dir'):
        import hashlib
        if what in ('file', 'link'):
            h = {'sha256': hashlib.sha256, 'blake2b': hashlib.blake2b}.get(getattr(R.SshRemote, 'x', None)) or S._cache_class.cypher
            same('checksum', lambda: r.checksum(), h(body).digest())
        if c['fail'] is not None:
            os.environ['VT_FAIL'] = str(c['fail'])
            if c['fail'] % 2 or c['size'] == 5:
                os.environ['VT_KILL'] = '1'
        try:
            v = ask(lambda: b''.join(r.data))
        finally:
            os.environ.pop('VT_FAIL', None)
            os.environ.pop('VT_KILL', None)
        if what in ('none', 'dir') or c['fail'] is not None:
            if not isinstance(v, Exception):
                bad.append(f'a failed transfer gave {v[:20]!r} without an error')
        elif isinstance(v, Exception) or v != body:
            bad.append(f'data {v!r:.80}')
    if Session.toolong:
        bad.append(f'sent though it is too long: {Session.toolong[:20]}')
        Session.toolong = None
    for d, ds, fs in os.walk('.'):
        if 'hit' in fs or 'hit' in ds:
            bad.append('a part of the name was run as a command')
    return '; '.join(bad) or None
