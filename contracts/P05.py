"""Replacing the local copy of a file by a newer remote version never loses data."""
from pyvc.api import *
from augpathlib import caches as C
from augpathlib import exceptions as exc

ASSUMES = ['moving a file (rename) is a single step that either happened or raised OSError with nothing moved',
           'a subclass that overrides crumple keeps its contract: it returns the path the data was moved to']


class Boom(BaseException):
    pass


def failing(vc, what):
    k = vc.choose(6, f'{what}: ok, OSError, ValueError, BaseException, NotImplementedError, AugPathlibError')
    if k:
        e = (OSError('injected'), ValueError('injected'), Boom('injected'), NotImplementedError('injected'), exc.AugPathlibError('injected'))[k - 1]
        vc.injected = e
        raise e


@contract('_meta_updater')
def updater(vc):
    old, new, merged = vc.any('old'), vc.any('new'), vc.any('merged')
    diff, isfile, exists, fetch = vc.bool('diff'), vc.bool('isfile'), vc.bool('exists'), vc.bool('fetch')
    lsum, nsum = vc.any('lsum', bytes), vc.any('nsum', bytes)
    new.attrs['checksum'] = nsum
    st = {'at': 'self', 'set': [], 'fetched': [], 'log': [], 'writes': 0}
    vc.injected = None
    local_changed = vc.bool('local content differs from the cached metadata')
    gone = vc.bool('the remote file is gone')
    asked = vc.choose(3, 'asking for local changes: ok, cannot tell, checksum of the local file cannot be read')
    unknown = []

    def update_meta(a, b):
        vc.prove('the merge is of the current and the new metadata', a is old and b is new)
        return diff, merged
    vc.stubs[C.PrimaryCache._update_meta] = update_meta

    def content_different(self, *a):
        if gone:
            raise exc.NoRemoteFileWithThatIdError('gone')
        if asked == 1:
            unknown.append(1)
            failing(vc, 'content_different')
            vc.die(PathCut('the failure is one of those'))
        return local_changed
    lmeta = vc.obj(object, 'lmeta', checksum=lsum)

    def local_meta(self):
        if asked == 2:
            unknown.append(1)
            failing(vc, 'meta of the local file')
            vc.die(PathCut('the failure is one of those'))
        return lmeta
    local = vc.obj(C.LocalPath, 'local', stubs={'content_different': content_different, 'meta': Prop(local_meta)})

    def crumple(self):
        vc.prove('nothing was written before the old file is in the trash', st['writes'] == 0 and st['at'] == 'self')
        failing(vc, 'crumple')
        st['at'] = 'trash'
        return trashed

    def back(self, target):
        vc.prove('the trash is only taken back to where it came from', target is p and st['at'] == 'trash')
        st['at'] = 'self'
    trashed = vc.obj(C.PrimaryCache, 'trashed', stubs={
        'rename': back, 'replace': back})

    def setter(self, m, *a, **k):
        st['writes'] += 1
        failing(vc, 'setter')
        st['set'].append(m)

    def do_fetch(self, size_limit_mb=2):
        st['writes'] += 1
        vc.prove('new metadata is in place before the data is fetched', len(st['set']) == 1)
        vc.prove('the size limit does not apply: the old data is gone', size_limit_mb is None)
        failing(vc, 'fetch')
        st['fetched'].append(1)
    p = vc.obj(C.PrimaryCache, 'p', stubs={
        'meta': Prop(value=old), 'is_file': lambda s: isfile, 'exists': lambda s: exists,
        'is_broken_symlink': lambda s: Not(exists), 'is_symlink': lambda s: Not(exists),
        'local': Prop(value=local), 'crumple': crumple, '_meta_setter': setter, 'fetch': do_fetch})
    r = vc.attempt(C.PrimaryCache._meta_updater, p, new, fetch=fetch)
    must = And(diff, isfile, exists, fetch)
    lost = And(must, Not(gone), local_changed, Not(lsum == nsum))
    if r.ok:
        vc.prove('the flag tells whether the content is different', Iff(r.value, diff))
        vc.prove('the merged metadata is written once', len(st['set']) == 1 and st['set'][0] is merged)
        vc.prove('local changes are not overwritten', Not(lost))
        vc.prove('nothing is replaced if it is not known whether there are local changes', not unknown)
        vc.prove('a changed file is moved to the trash and fetched, any other file is left alone',
                 Iff(must, st['at'] == 'trash' and len(st['fetched']) == 1))
        vc.prove('a file that is not replaced stays', Implies(Not(must), st['at'] == 'self' and not st['fetched']))
        vc.cover('replaced', st['at'] == 'trash')
        vc.cover('left alone', st['at'] == 'self')
    else:
        vc.prove('after any failure the old file is where it was', st['at'] == 'self')
        if isinstance(r.exc, exc.LocalChangesError):
            vc.prove('refused only for local changes', lost)
            vc.prove('refused before anything was written', st['writes'] == 0)
            vc.cover('refused')
        else:
            vc.prove('the failure itself is raised', r.exc is vc.injected and vc.injected is not None)
            if unknown:
                vc.prove('nothing is written if it is not known whether there are local changes', st['writes'] == 0)
                vc.cover('not known')
            vc.cover('failed')


@contract('crumple')
def crumple(vc):
    st = {'at': 'self', 'tries': []}
    no = vc.int('errno', 1, 133)
    fails = [vc.bool('first rename fails'), vc.bool('second rename fails')]
    parent_exists = vc.bool('trash exists')
    dirs = {'made': False}

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        vc.prove('missing parents are made', parents is True)
        vc.prove('an existing directory is not made again', Or(Not(parent_exists), exist_ok is True))
        dirs['made'] = True
    parent = vc.obj(C._CachePath, 'trashdir', stubs={'exists': lambda s: parent_exists, 'mkdir': mkdir,
                                                     'is_dir': lambda s: parent_exists})
    long = vc.obj(C._CachePath, 'long', stubs={'parent': Prop(value=parent)})
    short = vc.obj(C._CachePath, 'short', stubs={'parent': Prop(value=parent)})
    raised = []

    def rename(self, target):
        vc.prove('moved to a path of the trash', target is long or target is short)
        vc.prove('the directory is there', Or(parent_exists, dirs['made']))
        i = len(st['tries'])
        vc.prove('the short name is only a fallback for a name that is too long',
                 i == 0 and target is long or i == 1 and target is short and no == 36)
        st['tries'].append(target)
        if i < 2 and fails[i]:
            e = OSError('rename')
            e.errno = no if i == 0 else 13
            raised.append(e)
            raise e
        st['at'] = target
        return target
    p = vc.obj(C.PrimaryCache, 'p', stubs={
        'rename': rename, 'replace': rename, '_trashed_path': Prop(value=long), '_trashed_path_short': Prop(value=short)})
    r = vc.attempt(C._CachePath.crumple, p)
    if r.ok:
        vc.prove('the path returned is where the data is', r.value is st['at'])
        vc.cover('long', st['at'] is long)
        vc.cover('short', st['at'] is short)
    else:
        vc.prove('failed: nothing moved', st['at'] == 'self')
        vc.prove('the error is the one that happened', bool(raised) and r.exc is raised[-1])
        vc.cover('failed')
        if len(raised) == 1:
            vc.prove('too long a name has a fallback', Not(no == 36))
