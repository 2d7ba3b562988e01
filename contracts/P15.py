"""Swapping two paths is all or nothing."""
import os
import pathlib
import tempfile
from pyvc.api import *
from augpathlib import core as K
from augpathlib import swap as S

ASSUMES = ['rename moves what is at one path to another, or raises with nothing moved; at most one step fails',
           'renameat2 with RENAME_EXCHANGE exchanges the two paths or fails with nothing changed',
           'mkdtemp makes a new empty directory', 'rmdir removes only an empty directory']



class FS:
    """ what is at self, target and the temporary path """

    def __init__(self, vc):
        self.vc = vc
        self.at = {}
        self.tmpdir = False
        self.failed = None
        self.log = []

    def fail(self, what):
        vc = self.vc
        if self.failed is None:
            k = vc.choose(5, f'{what}: ok, OSError, other error, NotImplementedError, interrupt')
            if k:
                self.failed = (OSError('injected'), ValueError('injected'), NotImplementedError('injected'), Boom('injected'))[k - 1]
                self.failed_at = what
                raise self.failed

    def rename(self, a, b):
        vc = self.vc
        self.log.append('rename')
        vc.prove('a rename is between self, target and the temporary path', a in ('self', 'target', 'temp') and
                 b in ('self', 'target', 'temp') and a != b)
        vc.prove('the temporary path is in a temporary directory', 'temp' not in (a, b) or self.tmpdir)
        if self.at[a] is None:
            self.failed = self.failed or FileNotFoundError(a)
            self.failed_at = 'rename'
            raise self.failed
        self.fail(f'rename {a} to {b}')
        vc.prove('a rename does not overwrite anything', self.at[b] is None)
        self.at[b] = self.at[a]
        self.at[a] = None

    def swap(self):
        self.log.append('swap')
        self.fail('atomic swap')
        self.at['self'], self.at['target'] = self.at['target'], self.at['self']


def setup(vc):
    fs = FS(vc)
    fs.at = {'self': 'A' if vc.maybe('self exists') else None, 'target': 'B' if vc.maybe('target exists') else None, 'temp': None}
    fs.before = dict(fs.at)
    names = {}

    def ident(o):
        for n, p in names.items():
            if p is o:
                return n
        unsup('rename to some other path')
    d1, d2 = vc.int('device of self'), vc.int('device of target')
    fs.samedev = d1 == d2

    def mk(n, cls, dev=None):
        st = vc.obj(os.stat_result, f'stat {n}', st_dev=dev)

        def stat(s):
            if fs.at[n] is None:
                raise FileNotFoundError(n)
            return st
        mv = lambda s, o: fs.rename(n, ident(o))
        names[n] = vc.obj(cls, n, stubs={
            'rename': mv, 'replace': mv, 'exists': lambda s, **k: fs.at[n] is not None, 'stat': stat, 'name': Prop(value=f'name of {n}'),
            '_swap': lambda s, o: swap(s, o)})
        return names[n]

    def swap(s, o):
        vc.prove('the paths swapped are the two', (s is p and o is q) or (s is q and o is p))
        vc.prove('only existing paths on one device are swapped', And(fs.at['self'] is not None and fs.at['target'] is not None, fs.samedev))
        fs.swap()
    p, q = mk('self', K.LocalPath, d1), mk('target', K.LocalPath, d2)
    t = mk('temp', pathlib.Path)
    parent = vc.obj(K.LocalPath, 'parent')
    parent0 = vc.obj(K.LocalPath, 'parent of self')
    q._vc_stubs['parent'] = Prop(value=parent)
    p._vc_stubs['parent'] = Prop(value=parent0)

    def mkdtemp(*a, dir=None, **k):
        vc.prove('the temporary directory is beside one of the two', dir is parent or dir is parent0)
        fs.fail('mkdtemp')
        vc.prove('one temporary directory', not fs.tmpdir)
        fs.tmpdir = True
        return 'TEMPDIR'

    def rmdir(s):
        vc.prove('the temporary directory is removed empty', fs.at['temp'] is None and fs.tmpdir)
        fs.fail('rmdir')
        fs.tmpdir = False
    vc.stubs[tempfile.mkdtemp] = mkdtemp

    def join(s, n):
        return t
    td = vc.obj(pathlib.Path, 'tempdir', stubs={'rmdir': rmdir, '__truediv__': join, 'joinpath': join})
    vc.class_models[pathlib.Path] = model(lambda *a: td)
    return fs, p, q


def swapped(fs):
    return fs.at == {'self': fs.before['target'], 'target': fs.before['self'], 'temp': None}


def untouched(fs):
    return fs.at == fs.before


@contract('swap')
def swap(vc):
    fs, p, q = setup(vc)
    r = vc.attempt(K.AugmentedPath.swap, p, q)
    both = fs.before['self'] is not None and fs.before['target'] is not None
    vc.prove('it succeeds exactly for existing paths on one device if the exchange does', Iff(r.ok, And(both, fs.samedev, fs.failed is None)))
    vc.prove('swapped or nothing changed', swapped(fs) if r.ok else untouched(fs))
    vc.prove('one atomic step', 'rename' not in fs.log and not fs.tmpdir)
    if not both:
        vc.prove('a missing path is reported', r.raised(FileNotFoundError))
    elif fs.failed is None and not r.ok:
        vc.prove('different devices are reported', r.raised(ValueError))
    elif not r.ok:
        vc.prove('the failure of the exchange is reported', r.exc is fs.failed)
    vc.cover('swapped' if r.ok else 'refused')


@contract('swap_carefree')
def carefree(vc):
    fs, p, q = setup(vc)
    r = vc.attempt(K.AugmentedPath.swap_carefree, p, q)
    both = fs.before['self'] is not None and fs.before['target'] is not None
    rm = fs.failed is not None and fs.failed_at == 'rmdir'
    vc.prove('all or nothing', (swapped(fs) or (rm and untouched(fs))) if r.ok or (rm and both) else untouched(fs))
    vc.prove('no temporary directory is left', not fs.tmpdir or rm)
    if both and fs.failed is None:
        vc.prove('two existing paths are swapped', r.ok)
    if not both:
        vc.prove('a missing path is reported', not r.ok)
    if fs.failed is not None and fs.failed_at != 'atomic swap':
        vc.prove('a failing step is reported', not r.ok)
    vc.cover('swapped' if r.ok else 'failed')


@contract('the system call')
def syscall(vc):
    a, b = vc.any('path of self', bytes), vc.any('path of target', bytes)
    p, q = vc.obj(K.LocalPath, 'self'), vc.obj(K.LocalPath, 'target')
    log = []
    fail = vc.maybe('fails')

    def call(*args):
        log.append(args)
        return -1 if fail else 0
    vc.modules['augpathlib.swap'] = {'rnat2_syscall': model(call)}
    vc.stubs[os.fsencode] = lambda x: a if x is p else b
    r = vc.attempt(S.swap_linux, p, q)
    vc.prove('renameat2 is called once, to exchange the two paths relative to the current directory', len(log) == 1 and
             len(log[0]) == 6 and log[0][0] == 316 and log[0][1] == -100 and log[0][3] == -100 and log[0][5] == 2 and
             {id(log[0][2]), id(log[0][4])} == {id(a), id(b)})
    vc.prove('failure is reported', r.raised(OSError) if fail else r.ok)
