"""Existence tests answered under injected stat errors, for every errno and for
the real no-such-path situations (missing, file-as-dir, loops, bad names)."""
import errno
import os
import pathlib
from run import NotApplicable  # noqa
from augpathlib import AugmentedPath, LocalPath
RULE = 'every errno 1..133 and none x operation x failing call (stat, lstat, both) on links and files, real paths of 12 shapes x 6 operations'
QUIET = {errno.ENOENT, errno.ENOTDIR, errno.EBADF, errno.ELOOP, errno.ENAMETOOLONG}
OPS = ('exists', 'is_file', 'is_dir', 'is_symlink')
MORE = OPS + ('is_broken_symlink', 'exists_not_symlink')
SHAPES = {'file': 'f', 'dir': 'd', 'missing': 'nope', 'under-file': 'f/x', 'loop': 'loop', 'dangling': 'dangling', 'absolute': 'dangling-abs',
          'link-to-file': 'lf', 'link-to-dir': 'ld', 'data-link': 'data', 'loop2': 'loop2', 'under-loop': 'loop/x'}
THERE = ('file', 'dir', 'link-to-file', 'link-to-dir')
LINKS = ('loop', 'loop2', 'dangling', 'absolute', 'link-to-file', 'link-to-dir', 'data-link')


def cases(rng, tier):
    for op in MORE:
        for shape in SHAPES:
            yield {'op': op, 'shape': shape}
    for op in MORE:
        for e in [None] + list(range(1, 134)):
            for shape in ('missing', 'file', 'link-to-file', 'dangling', 'link-to-dir', 'dir'):
                for which in ('stat', 'lstat', 'both'):
                    yield {'op': op, 'errno': e, 'shape': shape, 'which': which}


def truth(op, s):
    return {'exists': s in THERE, 'is_file': s in ('file', 'link-to-file'), 'is_dir': s in ('dir', 'link-to-dir'), 'is_symlink': s in LINKS,
            'is_broken_symlink': s in LINKS and s not in THERE, 'exists_not_symlink': s in THERE and s not in LINKS}[op]


def run(c):
    op = c['op']
    if 'q' in c:        # from a counterexample of the prover
        out = None
        qs = c['q']
        real = {n: getattr(pathlib.Path, n) for n in OPS}
        raised = []

        def ask(n):
            def f(self, *a, **k):
                t, fails, no = qs[n]
                if fails:
                    raised.append(OSError('injected') if c.get('plain') else OSError(no, 'injected'))
                    raise raised[-1]
                return t
            return f
        for n in OPS:
            setattr(pathlib.Path, n, ask(n))
        try:
            r = getattr(AugmentedPath('x'), op)()
        except OSError as x:
            return None if x in raised else f'{op}: {x!r} was raised'
        finally:
            for n in OPS:
                setattr(pathlib.Path, n, real[n])
        loud = {n for n in OPS if qs[n][1] and (c.get('plain') or qs[n][2] not in QUIET)}
        v = {n: qs[n][0] and not qs[n][1] for n in OPS}
        v['is_broken_symlink'] = v['is_symlink'] and not v['exists']
        v['exists_not_symlink'] = not v['is_symlink'] and v['exists']
        if r != v[op] or op in loud:
            return f'{op} is {r!r} for {qs}'
        if op == 'is_broken_symlink' and v['is_symlink'] and 'exists' in loud or op == 'exists_not_symlink' and v['exists'] and 'is_symlink' in loud:
            return f'{op} is {r!r} for {qs}'
        return
    open('f', 'w').close()
    os.mkdir('d')
    os.symlink('loop', 'loop')
    os.symlink('loop3', 'loop2')
    os.symlink('loop2', 'loop3')
    os.symlink('nowhere', 'dangling')
    os.symlink('/nowhere/at/all', 'dangling-abs')
    os.symlink('f', 'lf')
    os.symlink('d', 'ld')
    os.symlink('data/' + 'N:1/.meta.x', 'data')
    s = c['shape']
    for q in (os.path.abspath(SHAPES[s]), SHAPES[s]):
        for cls in (AugmentedPath, LocalPath):
            p = cls(q)
            if 'errno' not in c:
                r = getattr(p, op)()
                if r is not truth(op, s):
                    return f'{cls.__name__}.{op}() is {r} for {s}'
                continue
            e = OSError(c['errno'], 'injected') if c['errno'] else OSError('injected')
            real = os.stat, os.lstat
            asked = []

            def bad(k):
                def f(path, *a, **kw):
                    link = k == 'lstat' or kw.get('follow_symlinks') is False
                    w = 'lstat' if link else 'stat'
                    if c['which'] in (w, 'both') and os.fspath(path) == str(p):
                        asked.append(w)
                        raise e
                    return real[1 if link else 0](path, *([] if link else a), **({} if link else kw))
                return f
            os.stat, os.lstat = bad('stat'), bad('lstat')
            try:
                r = getattr(p, op)()
            except OSError as x:
                if x is not e:
                    return f'{op}: a different error was raised: {x!r}'
                if c['errno'] in (errno.ELOOP, errno.ENOENT):
                    return f'{op} raises for errno {c["errno"]}'
                continue
            finally:
                os.stat, os.lstat = real
            if op == 'is_symlink':
                need = {'lstat'}
            elif op == 'is_broken_symlink':
                need = {'lstat', 'stat'} if s in LINKS else {'lstat'}
            elif op == 'exists_not_symlink':
                need = {'lstat', 'stat'} if s in THERE else {'stat'}
            else:
                need = {'stat'}
            failed = {'stat', 'lstat'} if c['which'] == 'both' else {c['which']}
            if c['errno'] in QUIET:
                link = s in LINKS and 'lstat' not in failed
                there = s in THERE and 'stat' not in failed
                want = {'is_symlink': link, 'is_broken_symlink': link and not there, 'exists_not_symlink': there and not link}.get(
                    op, truth(op, s) and 'stat' not in failed)
            else:
                want = truth(op, s)
                if need & failed and op in OPS:
                    return f'{op} of {s} hides errno {c["errno"]} of {c["which"]}'
                if asked and need & failed:
                    return f'{op} of {s} hides errno {c["errno"]} of {c["which"]}'
            if r is not want:
                return f'{op} of {s} is {r!r} when {c["which"]} failed with {c["errno"]}'
