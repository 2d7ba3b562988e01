"""Random histories of with, pushd and popd against a model of the current directory and the stack."""
import os
from augpathlib import LocalPath, AugmentedPath
import env
import run as R
RULE = 'programs of up to 10 operations: nested with on shared and separate path objects, files, missing, removed directories, errors'
DIRS = ['a', 'b', 'a/c', 'file', 'nope', '.', 'lnk']


def cases(rng, tier):
    for d in DIRS:
        yield {'prog': [['with', d, [], 'none']]}
        for how in ('raise', 'stop', 'exit', 'key', 'lookup'):
            yield {'prog': [['with', d, [], how]]}
        for e in DIRS:
            yield {'prog': [['with', d, [['with', e, [], 'none'], ['cd', 'b']], 'none']]}
            yield {'prog': [['pushd', d], ['pushd', e], ['popd', 1], ['popd', 0], ['popd', 0]]}
            yield {'prog': [['pushd', d], ['pushd', e], ['pushd', d, 'fail'], ['popd', 0, 'fail'], ['popd', 1, 'fail'], ['popd', 1]]}
            yield {'prog': [['pushd', d], ['rm', d], ['pushd', e], ['popd', 0], ['popd', 0]]}
    for d in ('a', 'b', '.'):
        yield {'prog': [['same', d, 3]]}
        yield {'prog': [['with', d, [['rm', d]], 'none'], ['with', 'b', [], 'none']]}
    for k in range(3):
        yield {'cache': k}

    def prog(depth):
        out = []
        for _ in range(rng.randint(1, 4)):
            k = rng.choice(['with', 'with', 'pushd', 'popd', 'cd', 'rm', 'same'])
            if k == 'with':
                out.append(['with', rng.choice(DIRS), prog(depth - 1) if depth else [], rng.choice(['none', 'raise'])])
            elif k == 'popd':
                out.append(['popd', rng.choice([0, 0, 1, 2])])
            elif k == 'same':
                out.append(['same', rng.choice(DIRS), rng.randint(1, 3)])
            elif k == 'rm':
                out.append(['rm', rng.choice(['a/c', 'a', 'b'])])
            else:
                out.append([k, rng.choice(DIRS)])
        return out
    while True:
        yield {'prog': prog(2)}


class Fail(Exception):
    pass


class failing:
    """ chdir fails """

    def __init__(self, on):
        self.on = on

    def __enter__(self):
        if self.on:
            self.old = os.chdir

            def no(p):
                raise PermissionError(13, 'injected')
            os.chdir = no

    def __exit__(self, *a):
        if self.on:
            os.chdir = self.old


class Boom(BaseException):
    pass


RAISES = {'raise': Boom, 'stop': StopIteration, 'exit': GeneratorExit, 'key': KeyboardInterrupt, 'lookup': KeyError}


def run(c):
    base = os.path.realpath(os.getcwd())
    if 'cache' in c:
        return cache(c, base)
    os.makedirs('a/c')
    os.mkdir('b')
    open('file', 'w').close()
    os.symlink('b', 'lnk')
    objs = {d: LocalPath(os.path.join(base, d)) for d in DIRS}
    model = []
    AugmentedPath._stack.clear()
    os.environ['PWD'] = os.path.join(base, 'b')     # whatever the environment says

    def cwd():
        try:
            return os.getcwd()
        except FileNotFoundError:
            return None

    def go(prog):
        for op in prog:
            k = op[0]
            start = cwd()
            if start is None:
                os.chdir(base)
                start = base
            if k == 'cd':
                try:
                    os.chdir(objs[op[1]])
                except OSError:
                    pass
            elif k == 'rm':
                try:
                    os.rmdir(objs[op[1]])
                except OSError:
                    pass
            elif k in ('with', 'same'):
                p = objs[op[1]]
                isdir = os.path.isdir(p)
                err = None
                try:
                    with p:
                        if isdir and cwd() != os.path.realpath(p):
                            raise Fail(f'with {op[1]}: in {cwd()}')
                        if not isdir and cwd() != start:
                            raise Fail(f'with {op[1]}, which is not a directory: in {cwd()}')
                        if k == 'same' and op[2] > 1:
                            go([['same', op[1], op[2] - 1]])
                            if isdir and cwd() != os.path.realpath(p):
                                raise Fail('the inner with did not go back to the outer one')
                        elif k == 'with':
                            go(op[2])
                            if op[3] != 'none':
                                raise RAISES[op[3]]
                except Fail:
                    raise
                except tuple(RAISES.values()) as e:
                    if k == 'with' and type(e) is not RAISES.get(op[3]):
                        raise Fail('an error from somewhere')
                except OSError as e:
                    err = e
                else:
                    if k == 'with' and op[3] != 'none':
                        raise Fail('an error of the body was swallowed')
                if not os.path.isdir(start):
                    if isdir and err is None:
                        raise Fail('the failing way back is not reported')
                    continue
                if isdir and (cwd() != start or err):
                    raise Fail(f'after with {op[1]}: in {cwd()} instead of {start}, {err!r}')
            elif k == 'pushd':
                p = objs[op[1]]
                isdir = os.path.isdir(p)
                try:
                    with failing(len(op) > 2):
                        p.pushd()
                except OSError as e:
                    if len(op) > 2 and isdir and cwd() == start and [str(x) for x in AugmentedPath._stack] == model:
                        continue
                    if isdir:
                        raise Fail(f'pushd {op[1]}: {e!r}')
                    if not isinstance(e, NotADirectoryError):
                        raise Fail(f'pushd to what is no directory: {e!r}')
                    if cwd() != start:
                        raise Fail('failed pushd changed the directory')
                else:
                    if not isdir or cwd() != os.path.realpath(p):
                        raise Fail(f'after pushd {op[1]} in {cwd()}')
                    model.append(start)
            elif k == 'popd':
                n = op[1]
                want = model[-1 - n] if n < len(model) else None
                try:
                    with failing(len(op) > 2):
                        r = AugmentedPath.popd(n) if n else AugmentedPath.popd()
                except IndexError:
                    if want is not None:
                        raise Fail('popd: IndexError')
                except OSError as e:
                    if len(op) > 2 and want and cwd() == start and [str(x) for x in AugmentedPath._stack] == model:
                        continue
                    if want is None or os.path.isdir(want):
                        raise Fail(f'popd: {e!r}')
                    if cwd() != start:
                        raise Fail('failed popd changed the directory')
                else:
                    if not model:
                        if r is not None or cwd() != start:
                            raise Fail('popd of the empty stack')
                    elif want is None:
                        raise Fail('popd of no entry')
                    elif not os.path.isdir(want):
                        raise Fail('popd to a missing directory is not reported')
                    else:
                        if str(r) != want or cwd() != want:
                            raise Fail(f'popd to {r}, in {cwd()}, instead of {want}')
                        model.pop(-1 - n)
            if [str(x) for x in AugmentedPath._stack] != model:
                raise Fail(f'after {op}: the stack is {AugmentedPath._stack} instead of {model}')
    if not isinstance(getattr(AugmentedPath, '_stack', None), list):
        raise R.NotApplicable
    try:
        go(c['prog'])
    except Fail as e:
        return str(e)
    finally:
        AugmentedPath._stack.clear()
        os.chdir(base)


def cache(c, base):
    w = env.World()
    root = w.anchor()
    os.mkdir(os.path.join(base, 'root', 'd'))
    w.add('d-id', 'd', dir=True)
    for k, v in w.meta('d-id').as_xattrs(w.CacheT.xattr_prefix).items():
        os.setxattr('root/d', b'user.' + (k.encode() if isinstance(k, str) else k), v)
    d = w.local('d').cache
    os.mkdir('z')
    start = os.path.join(base, ('z', 'root', 'root/d')[c['cache']])
    os.chdir(start)
    try:
        with root:
            if os.getcwd() != os.path.join(base, 'root'):
                return f'with a cache: in {os.getcwd()}'
            with d:
                if os.getcwd() != os.path.join(base, 'root/d'):
                    return f'with a cache: in {os.getcwd()}'
                raise Boom
        return 'swallowed'
    except Boom:
        pass
    if os.getcwd() != start:
        return f'after with a cache: in {os.getcwd()}'
