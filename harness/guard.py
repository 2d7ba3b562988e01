"""Containment: an audit hook refuses every destructive file system call whose
path is not below the scratch directory, and can fail the n-th such call."""
import os
import sys
import shutil

BASE = [None]
escapes = []
inject = {'on': False, 'n': None, 'count': 0, 'errno': 28, 'log': []}
_real = os.path.realpath


def _resolve(p, dir_fd=None):
    if isinstance(p, int):
        return os.readlink(f'/proc/self/fd/{p}')
    p = os.fsdecode(p)
    if not os.path.isabs(p):
        base = os.getcwd() if dir_fd in (None, -1) else os.readlink(f'/proc/self/fd/{dir_fd}')
        p = os.path.join(base, p)
    # the parent is followed, the last component is not
    d, b = os.path.split(p.rstrip('/') or '/')
    return os.path.join(_real(d), b)


EVENTS = {
    'os.remove': lambda a: [(a[0], a[1])],
    'os.rmdir': lambda a: [(a[0], a[1])],
    'os.rename': lambda a: [(a[0], a[2]), (a[1], a[3])],
    'os.link': lambda a: [(a[1], a[3])],
    'os.symlink': lambda a: [(a[1], a[2])],
    'os.mkdir': lambda a: [(a[0], a[2])],
    'os.truncate': lambda a: [(a[0], None)],
    'os.chmod': lambda a: [(a[0], a[2])],
    'os.chown': lambda a: [(a[0], a[3])],
    'os.utime': lambda a: [(a[0], a[3])],
    'os.setxattr': lambda a: [(a[0], None)],
    'os.removexattr': lambda a: [(a[0], None)],
}
busy = [False]


def hook(event, args):
    if BASE[0] is None or busy[0]:
        return
    if event in EVENTS:
        paths = EVENTS[event](args)
    elif event == 'open':
        path, mode, flags = args
        if isinstance(path, int):
            return
        w = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
        if not w:
            return
        paths = [(path, None)]
    else:
        return
    busy[0] = True
    try:
        for p, fd in paths:
            try:
                r = _resolve(p, fd)
            except OSError:
                continue
            if r in ('/dev/null',) or r.startswith('/proc/self/'):
                continue
            if not (r == BASE[0] or r.startswith(BASE[0] + '/')):
                escapes.append(f'{event} {r}')
                raise PermissionError(13, f'scratch guard: {event} {r}')
    finally:
        busy[0] = False
    if inject['on']:
        inject['count'] += 1
        inject['log'].append(event)
        if inject['n'] is not None and inject['count'] == inject['n']:
            raise inject['exc']('injected fault') if inject.get('exc') else OSError(inject['errno'], 'injected fault')


def install(base):
    BASE[0] = _real(base)
    sys.addaudithook(hook)


class fault:
    """ with fault(n): the n-th destructive call inside raises OSError (of a kind that differs from
        one fault to the next if none is given) """
    kinds = 28, 13, 5, 30, None
    made = 0

    def __init__(self, n, errno=None, exc=None):
        if errno is None and exc is None:
            fault.made += 1
            errno = self.kinds[fault.made % len(self.kinds)]
            if errno is None:
                exc = KeyboardInterrupt
        self.n, self.errno, self.exc = n, errno, exc

    def __enter__(self):
        inject.update(on=True, n=self.n, count=0, errno=self.errno, log=[], exc=self.exc)
        return inject

    def __exit__(self, *a):
        inject['on'] = False
        return False


def rmtree(d):
    busy_before = inject['on']
    inject['on'] = False
    shutil.rmtree(d, ignore_errors=True)
    inject['on'] = busy_before
