"""Existence tests: only "cannot be the path of a real file" errors become False."""
import errno
import pathlib
from pyvc.api import *
from augpathlib import core

ASSUMES = ['pathlib.Path.exists/is_file/is_dir/is_symlink either return the truth or raise an OSError '
           'carrying the errno of the failed lstat/stat (CPython 3.12)']
# errnos that mean "no such file" or "a symlink that stores data, not a location"
QUIET = {errno.ENOENT, errno.ENOTDIR, errno.EBADF, errno.ELOOP, errno.ENAMETOOLONG}
NAMES = ('exists', 'is_file', 'is_dir', 'is_symlink')


class World:
    """ what the file system answers to each question """

    def __init__(self, vc):
        self.truth = {n: vc.bool(f'{n} truth') for n in NAMES}
        self.fails = {n: vc.bool(f'{n} fails') for n in NAMES}
        self.no = {n: vc.int(f'{n} errno', 1, 133) for n in NAMES}
        self.raised = {}
        self.plain = vc.maybe('errors carry no errno')
        for n in NAMES:
            vc.class_stubs[(pathlib.Path, n)] = self.ask(n)

    def ask(self, n):
        def parent(p):
            if self.fails[n]:
                e = OSError('stat failed')
                if not self.plain:
                    e.errno = self.no[n]
                self.raised[n] = e
                raise e
            return self.truth[n]
        return parent

    def quiet(self, n):
        return False if self.plain else Or(*[self.no[n] == q for q in sorted(QUIET)])

    def witness(self, m, op):
        return {'op': op, 'plain': self.plain, 'q': {n: [bool(val(m, self.truth[n])), bool(val(m, self.fails[n])), val(m, self.no[n])] for n in NAMES}}


def mk(name):
    def spec(vc):
        p = vc.obj(core.AugmentedPath, 'p')
        w = World(vc)
        vc.witness_fn = lambda m: w.witness(m, name)
        truth, fails = w.truth[name], w.fails[name]
        r = vc.attempt(getattr(p, name))
        if r.ok:
            vc.prove(f'{name}: the answer is the truth when nothing failed', Implies(Not(fails), Iff(r.value, truth)))
            vc.prove(f'{name}: on failure the answer is False', Implies(fails, Not(r.value)))
            vc.prove(f'{name}: only a no-such-path error is swallowed', Implies(fails, w.quiet(name)))
            vc.cover('returns')
        else:
            vc.prove(f'{name}: the error raised is the one that happened', r.exc is w.raised.get(name))
            if not w.plain:
                vc.prove(f'{name}: a symlink loop never raises', Not(Or(w.no[name] == errno.ELOOP, w.no[name] == errno.ENOENT)))
    contract(f'AugmentedPath.{name}')(spec)


for _n in NAMES:
    mk(_n)


def both(name, link, there):
    def spec(vc):
        p = vc.obj(core.AugmentedPath, 'p')
        w = World(vc)
        vc.witness_fn = lambda m: w.witness(m, name)
        r = vc.attempt(getattr(p, name))
        if r.ok:
            is_link = And(Not(w.fails['is_symlink']), w.truth['is_symlink'])
            is_there = And(Not(w.fails['exists']), w.truth['exists'])
            vc.prove(f'{name}: is both', Iff(r.value, And(Iff(is_link, link), Iff(is_there, there))))
            for n, o, fits in (('is_symlink', 'exists', Iff(is_there, there)), ('exists', 'is_symlink', Iff(is_link, link))):
                vc.prove(f'{name}: a failure of {n} on which the answer depends is raised',
                         Not(And(w.fails[n], Not(w.quiet(n)), fits, Not(w.fails[o]))))
            vc.cover('returns')
        else:
            vc.prove(f'{name}: the error raised is one that happened', any(r.exc is e for e in w.raised.values()))
    contract(f'AugmentedPath.{name}')(spec)


both('is_broken_symlink', True, False)
both('exists_not_symlink', False, True)
