"""swap and swap_carefree on real files, directories and links, with and without the system call, every call failing."""
import errno
import os
from augpathlib import LocalPath, AugmentedPath
import guard
import env
import run as R
RULE = 'kinds of both paths x place x relative or absolute x atomic or not x failing call x kind of failure'
KINDS = ['file', 'dir', 'full', 'link', 'linkdir', 'broken', 'none']


def cases(rng, tier):
    for why in 'NOV':
        for n in (None, 1, 2, 3, 4, 5):
            for intr in (False, True):
                yield {'a': 'file', 'b': 'full', 'place': 'beside', 'atomic': False, 'n': n, 'rel': False, 'why': why, 'intr': intr}
    for a, b in (('file', 'file'), ('full', 'file')):
        yield {'a': a, 'b': b, 'place': 'beside', 'atomic': True, 'n': None, 'rel': False, 'dev': True}
    for at in (True, False):
        for a in KINDS:
            for b in KINDS:
                for n in (None, 1, 2, 3, 4, 5):
                    if at and n:
                        continue
                    for rel in (False, True):
                        yield {'a': a, 'b': b, 'place': 'beside', 'atomic': at, 'n': n, 'rel': rel}
        for place in ('bytes', 'other', 'inside', 'same'):
            for a, b in (('dir', 'file'), ('full', 'dir'), ('file', 'file'), ('link', 'full')):
                for n in (None, 1, 2, 3, 4, 5):
                    yield {'a': a, 'b': b, 'place': place, 'atomic': at, 'n': n, 'rel': False}


def make(p, kind, tag):
    if kind == 'file':
        open(p, 'w').write(tag)
    elif kind in ('dir', 'full'):
        os.mkdir(p)
        if kind == 'full':
            os.mkdir(os.path.join(p, 'sub'))
            open(os.path.join(p, 'sub', 'f'), 'w').write(tag)
    elif kind == 'link':
        os.symlink(os.path.abspath('elsewhere'), p)
    elif kind == 'linkdir':
        os.symlink(os.path.abspath('elsewheredir'), p)
    elif kind == 'broken':
        os.symlink('nowhere', p)


def look(p):
    if os.path.islink(p):
        return 'link', os.readlink(p)
    if os.path.isdir(p):
        return 'dir', os.stat(p).st_ino, sorted(env.tree(p))
    if os.path.exists(p):
        return 'file', os.stat(p).st_ino, env.content(p)


def run(c):
    class P(LocalPath):
        pass
    if c.get('dev'):
        class St:
            def __init__(self, st, dev):
                self.st, self.st_dev = st, dev

            def __getattr__(self, k):
                return getattr(self.st, k)

        def stat(self, **k):
            st = os.stat(self, **k)
            return St(st, st.st_dev + self.name.startswith('b'))
        P.stat = stat
    if not c['atomic']:
        def no(self, target):
            raise {'N': NotImplementedError('no swap here'), 'O': OSError(22, 'no'), 'V': ValueError('no')}[c.get('why', 'N')]
        P._swap = no
    if hasattr(P, '_bind_flavours'):
        P._bind_flavours()
    if not hasattr(LocalPath, '_swap'):
        raise R.NotApplicable
    open('elsewhere', 'w').write('E')
    os.mkdir('elsewheredir')
    os.makedirs('w/other')
    a = 'w/a'
    b = {'beside': 'w/b', 'other': 'w/other/b', 'inside': 'w/a/b', 'same': 'w/a', 'bytes': os.fsdecode(b'w/b\xff')}[c['place']]
    make(a, c['a'], 'A')
    if c['place'] == 'inside':
        if not os.path.isdir(a):
            return
    if c['place'] != 'same':
        make(b, c['b'], 'B')
    la, lb = look(a), look(b)
    if c['place'] == 'bytes' and c.get('n') is None and c['atomic']:
        # the other way round as well
        try:
            P(os.path.abspath(b)).swap(P(os.path.abspath(a)))
        except BaseException as e:
            return f'swap failed: {e!r}'
        la, lb = look(a), look(b)
    names = sorted(env.tree('w'))
    full = env.tree('w')
    f = (lambda x: x) if c['rel'] else os.path.abspath
    p, q = P(f(a)), P(f(b))
    err = None
    there = os.path.exists(a) and os.path.exists(b)
    if c['n'] is None:
        # swap itself
        try:
            p.swap(q)
            if not c['atomic'] or not there or c.get('dev'):
                return f'swap of {c["a"]} and {c["b"]} succeeded'
            if (look(a), look(b)) != (lb, la) and c['place'] != 'same':
                return 'swap did not exchange the two'
            p.swap(q)
        except BaseException as e:
            if c['atomic'] and there and c['place'] != 'inside' and not c.get('dev'):
                return f'swap failed: {e!r}'
            if c.get('dev') and not isinstance(e, ValueError):
                return f'swap across devices: {e!r}'
            if not there and not isinstance(e, FileNotFoundError):
                return f'swap of a missing path: {e!r}'
        if env.tree('w') != full:
            return 'swapping twice, or not at all, changed something'
    if c['n'] and (not there or c['place'] in ('inside', 'same')):
        return      # would be a second failure
    with guard.fault(c['n'], errno.EIO, KeyboardInterrupt if c.get('intr') else None) as inj:
        try:
            p.swap_carefree(q)
        except BaseException as e:
            err = e
    hit = c['n'] is not None and inj['count'] >= c['n']
    ev = inj['log'][c['n'] - 1] if hit else None
    now = sorted(env.tree('w'))
    same = env.tree('w') == full and (look(a), look(b)) == (la, lb)
    exchanged = (look(a), look(b)) == (lb, la)
    if c['place'] == 'same':
        return None if same or ev == 'os.rmdir' else f'swapping a path with itself: {err!r} {now}'
    if err is None:
        if hit:
            return f'a failing {ev} is not reported'
        if not exchanged or (look(a) is None) or (look(b) is None):
            return f'swap_carefree did not swap {c["a"]} and {c["b"]}: {la} {lb} -> {look(a)} {look(b)}'
        if c['place'] != 'inside' and len(now) != len(names):
            return f'something is left or lost: {now}'
        return
    if there and not hit and c['place'] != 'inside':
        return f'swap_carefree failed: {err!r}'
    if ev == 'os.rmdir' and exchanged:
        return
    if not same:
        extra = set(now) - set(names)
        if ev == 'os.rmdir' and all(env.tree('w').get(k) == v for k, v in full.items()) and len(extra) == 1:
            return
        return f'failed with {err!r} but changed: {set(names) ^ set(now)} {la} {lb} -> {look(a)} {look(b)}'
