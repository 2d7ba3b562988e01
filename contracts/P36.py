"""The directory for local data is set up completely or the setup fails, and what is in it is never lost."""
from pyvc.api import *
from augpathlib import core as K
from augpathlib import caches as C
from augpathlib import exceptions as exc

ASSUMES = ['mkdir, rmdir and symlink_to do what is asked of them or raise and change nothing; nobody else changes the directory meanwhile',
           'whether the target of a link is the one asked for is decided by what both resolve to']


class Setup:
    """ the directory for local data and what is in it: each part absent, or of some kind """

    def __init__(self, vc):
        self.vc, w = vc, self
        self.boom = None
        # absent / directory (empty) / directory with objects / file / link as asked for / other link / other link, broken
        self.kind = {'data': ('none', 'dir', 'file')[vc.choose(3, 'the directory')], 'objects': 'none', 'trash': 'none'}
        self.objects_in = False
        if self.kind['data'] == 'dir':
            self.kind['objects'] = ('none', 'dir', 'full', 'file', 'same', 'other', 'broken')[vc.choose(7, 'objects')]
            self.kind['trash'] = ('none', 'dir', 'full', 'file')[vc.choose(4, 'trash')]
        self.before = dict(self.kind)
        self.notrash = vc.maybe('no trash')
        self.target = vc.obj(K.LocalPath, 'target', stubs={'resolve': lambda s: w.real('asked'), '__eq__': lambda s, o: s is o, '__ne__': lambda s, o: s is not o,
                                                           'exists': lambda s: unsup('exists of the target')})
        self.reals = {}
        self.p = {n: self.path(n) for n in self.kind}
        self.cache = vc.obj(C.PrimaryCache, 'cache', stubs={
            'local_data_dir': Prop(value=self.p['data']), 'local_objects_dir': Prop(value=self.p['objects']),
            'trash': Prop(get=lambda s: self.trash())})

    def trash(self):
        if self.notrash:
            raise NotImplementedError('no trash')
        return self.p['trash']

    def real(self, n):
        if n not in self.reals:
            self.reals[n] = SAny(z3.Const(f'real-{n}', z3.DeclareSort('Real')), object)
            if n == 'elsewhere':
                self.vc._assume(bt(Not(self.real('asked') == self.reals[n])))
        return self.reals[n]

    def step(self, n, do):
        """ a change of n: happens or fails """
        if self.vc.maybe(f'{n} fails'):
            self.boom = Boom('injected')
            raise self.boom
        do()

    def path(self, n):
        w, vc = self, self.vc
        link = ('same', 'other', 'broken')

        def mkdir(s, *a, **k):
            vc.prove('how directories are made is within the model', not a and set(k) <= {'exist_ok', 'parents'})
            if n != 'data' and w.kind['data'] != 'dir':
                if not k.get('parents'):
                    raise FileNotFoundError(2, 'no such directory')
                unsup('parents')
            if w.kind[n] == 'none':
                w.step(n, lambda: w.kind.__setitem__(n, 'dir'))
            elif not (k.get('exist_ok') and w.kind[n] in ('dir', 'full', 'same', 'other')):
                raise FileExistsError(17, 'exists')

        def rmdir(s):
            vc.prove('only objects are ever replaced', n == 'objects')
            if w.kind[n] == 'none':
                raise FileNotFoundError(2, 'none')
            if w.kind[n] == 'full':
                raise OSError(39, 'Directory not empty')
            if w.kind[n] != 'dir':
                raise NotADirectoryError(20, 'not a directory')
            w.step(n, lambda: w.kind.__setitem__(n, 'none'))

        def symlink_to(s, t, *a, **k):
            vc.prove('the link leads where it was asked to', t is w.target)
            if w.kind['data'] != 'dir':
                raise FileNotFoundError(2, 'no such directory')
            if w.kind[n] != 'none':
                raise FileExistsError(17, 'exists')
            w.step(n, lambda: w.kind.__setitem__(n, 'same'))

        def resolve(s):
            return w.real({'same': 'asked', 'other': 'elsewhere', 'broken': 'elsewhere'}.get(w.kind[n], n))

        def gone(s, *a, **k):
            vc.prove('nothing is removed or moved', False)
        return vc.obj(K.LocalPath, n, stubs={
            'mkdir': mkdir, 'rmdir': rmdir, 'symlink_to': symlink_to, 'resolve': resolve, 'rmtree': gone, 'unlink': gone, 'rename': gone, 'replace': gone,
            'is_symlink': lambda s: w.kind[n] in link, 'exists': lambda s: w.kind[n] not in ('none', 'broken'),
            'is_dir': lambda s: w.kind[n] in ('dir', 'full', 'same', 'other'), 'is_file': lambda s: w.kind[n] == 'file',
            'readlink': lambda s: w.target if w.kind[n] == 'same' else vc.obj(K.LocalPath, 'elsewhere'),
            '__fspath__': lambda s: textmod.text(vc, n), '__str__': lambda s: textmod.text(vc, n), '__repr__': lambda s: textmod.text(vc, n),
            '__eq__': lambda s, o: s is o, '__ne__': lambda s, o: s is not o})


@contract('local_data_dir_init')
def init(vc):
    textmod.install(vc)
    w = Setup(vc)
    link = vc.maybe('objects are to be a link')
    exist_ok = (None, True, False)[vc.choose(3, 'exist_ok')]
    kw = {} if exist_ok is None else {'exist_ok': exist_ok}
    if link:
        kw['symlink_objects_to'] = w.target
    elif vc.maybe('symlink_objects_to=None given'):
        kw['symlink_objects_to'] = None
    r = vc.attempt(C.PrimaryCache.local_data_dir_init, w.cache, **kw)
    b, k = w.before, w.kind
    for n in k:
        vc.prove('what is there, an empty directory for objects to be replaced by a link apart, stays', k[n] == b[n] or b[n] == 'none'
                 or (n == 'objects' and b[n] == 'dir' and link))
    vc.prove('a trash is made only if there is to be one', not w.notrash or k['trash'] == b['trash'])
    vc.prove('a failure is raised as it is', (r.exc is w.boom) if w.boom is not None else True)
    if r.ok:
        vc.prove('the directory is there', k['data'] == 'dir')
        vc.prove('objects have their place, behind the link asked for if one was', k['objects'] == 'same' if link else k['objects'] in ('dir', 'full', 'same', 'other'))
        vc.prove('there is a trash unless there is to be none', w.notrash or k['trash'] in ('dir', 'full'))
        vc.prove('refused if it exists and must not', exist_ok is not False or b['data'] == 'none')
        vc.cover('set up')
    elif w.boom is None:
        asked = True if exist_ok is None else exist_ok
        bad = (b['data'] == 'file' or (b['data'] == 'dir' and not asked)
               or (b['objects'] in ('full', 'file', 'other', 'broken') if link else b['objects'] in ('file', 'broken'))
               or (not w.notrash and b['trash'] == 'file'))
        vc.prove('refused only where something is in the way', bad)
        vc.prove('the refusal names what is the matter', isinstance(r.exc, OSError))
        vc.cover('refused')


@contract('the places for local data')
def places(vc):
    asked = []

    def below(n):
        def div(s, key):
            o = vc.obj(K.LocalPath, f'{n}-below', stubs={'__truediv__': below(f'{n}/')})
            asked.append((s, key, o))
            return o
        return div
    root = vc.obj(K.LocalPath, 'rootlocal', stubs={'__truediv__': below('root')})
    anchor = vc.obj(C.PrimaryCache, 'anchor', stubs={'local': Prop(value=root)})
    key = textmod.text(vc, 'key', nonempty=True)
    p = vc.obj(C.PrimaryCache, 'cache', stubs={'anchor': Prop(value=anchor), 'cache_key': Prop(value=key)})
    d = vc.call(C.PrimaryCache.local_data_dir.fget, p)
    vc.prove('local data is in a directory at the anchor', len(asked) == 1 and asked[0][0] is root and asked[0][1] == C._CachePath._local_data_dir and d is asked[0][2])
    vc.prove('that caches ignore', C._CachePath._local_data_dir in C._CachePath.cache_ignore)
    o = vc.call(C.PrimaryCache.local_objects_dir.fget, p)
    vc.prove('objects are in a directory of it', asked[-1][1] == 'objects' and o is asked[-1][2] and asked[-1][0] is asked[-2][2]
             and asked[-2][0] is root and asked[-2][1] == C._CachePath._local_data_dir)
    x = vc.call(C.PrimaryCache.local_object_cache_path.fget, p)
    vc.prove('an object is in it under its own key', x is asked[-1][2] and asked[-1][0] is asked[-2][2] and bool(SText.of(asked[-1][1])._vc_same(key))
             and asked[-2][1] == 'objects')
