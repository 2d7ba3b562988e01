"""Random histories of attribute operations on real files against a dictionary, read back with the system calls themselves."""
import errno
import os
import xattr
from augpathlib import LocalPath, exceptions as exc
import env
RULE = 'histories of up to 12 operations on files, directories, links and missing paths x namespaces x odd names and values'
KEYS = ['a', 'b', 'a.b', 'user.a', 'ä', '.', 'A', 'x' * 60, '%', ' ']
VALS = [b'', b'\0', b'1', b'a' * 100, b'\xff\xfe', b'x' * 2000]
BAD = [None, 1, 'text', ['x'], bytearray(b'x'), memoryview(b'x'), True]
PATHS = ['file', 'dir', 'link', 'm\xe4d \udcff']


class Odd(OSError):
    pass


def cases(rng, tier):
    for e in range(1, 134):
        yield {'errno': e}
    for ns in (None, 'user', 'trusted'):
        yield {'ns': ns, 'bad': True}
        yield {'ns': ns, 'ops': [['set', 'file', 'a', 1], ['set', 'dir', 'a', 2], ['get', 'file', 'a'], ['all', 'dir'], ['del', 'file', 'a', None],
                                 ['get', 'file', 'a'], ['del', 'file', 'a', None], ['del', 'file', 'a', True], ['all', 'link'], ['set', 'link', 'b', 3]]}
    yield {'missing': True}
    while True:
        ops = []
        for _ in range(rng.randint(2, 12)):
            k = rng.choice(['set', 'set', 'set', 'get', 'all', 'del', 'many'])
            p = rng.choice(PATHS)
            key = rng.choice(KEYS[:rng.choice([2, 3, len(KEYS)])])
            if k == 'set':
                ops.append([k, p, key, rng.randrange(len(VALS))])
            elif k == 'del':
                ops.append([k, p, key, rng.choice([None, False, True])])
            elif k == 'many':
                ops.append([k, p, {rng.choice(KEYS): rng.randrange(len(VALS)) for _ in range(rng.randint(0, 4))}])
            else:
                ops.append([k, p, key])
        yield {'ns': rng.choice([None, None, 'user', 'trusted']), 'ops': ops, 'bkeys': rng.random() < .3}


def run(c):
    if 'errno' in c:
        return faults(c['errno'])
    open('file', 'w').close()
    os.mkdir('dir')
    os.symlink('file', 'link')
    open(PATHS[3], 'w').close()
    if 'missing' in c:
        return missing()
    kw = {} if c['ns'] is None else {'namespace': c['ns'].encode()}
    pre = b'user.' if c['ns'] is None else c['ns'].encode() + b'.'
    other = b'trusted.' if pre == b'user.' else b'user.'
    objs = {p: LocalPath(os.path.join(os.getcwd(), p)) for p in PATHS}
    for p in PATHS[:2] + PATHS[3:]:
        try:
            os.setxattr(p, other + b'a', b'foreign')
            os.setxattr(p, pre + b'zz', b'')
        except OSError:     # no privilege for this namespace
            return
    if 'bad' in c:
        for v in BAD:
            before = env.tree('.')
            for k in KEYS[:2]:
                try:
                    objs['file'].setxattr(k, v, **kw)
                    return f'{v!r} was accepted as the value of an attribute'
                except TypeError:
                    pass
                try:
                    objs['file'].setxattrs({k: v}, **kw)
                    return f'{v!r} was accepted as the value of an attribute'
                except TypeError:
                    pass
            if env.tree('.') != before:
                return 'a refused value changed something'
        return
    model = {p: {b'zz': b''} for p in ('file', 'dir', PATHS[3])}
    for op in c['ops']:
        p = op[1]
        o, m = objs[p], model['file' if p == 'link' else p]
        K = (lambda k: k.encode()) if c.get('bkeys') else (lambda k: k)
        err = r = None
        try:
            if op[0] == 'set':
                o.setxattr(K(op[2]), VALS[op[3]], **kw)
            elif op[0] == 'get':
                r = o.getxattr(K(op[2]), **kw)
            elif op[0] == 'all':
                r = o.xattrs(**kw)
            elif op[0] == 'del':
                o.delxattr(K(op[2]), **kw, **({} if op[3] is None else {'fail': op[3]}))
            else:
                o.setxattrs({K(k): VALS[v] for k, v in op[2].items()}, **kw)
        except Exception as e:
            err = e
        k = op[2].encode() if len(op) > 2 and isinstance(op[2], str) else None
        if isinstance(err, OSError) and err.errno in (errno.ENOSPC, errno.E2BIG, errno.EDQUOT):
            return
        if op[0] == 'set':
            if err:
                return f'{op}: {err!r}'
            m[k] = VALS[op[3]]
        elif op[0] == 'many':
            if err:
                return f'{op}: {err!r}'
            m.update({x.encode(): VALS[v] for x, v in op[2].items()})
        elif op[0] == 'get':
            if k in m:
                if err or r != m[k]:
                    return f'{op}: {err!r} {r!r} instead of {m[k]!r}'
            elif not isinstance(err, exc.NoStreamError):
                return f'{op}: {r!r} {err!r} though there is no such attribute'
        elif op[0] == 'all':
            if err or r != m:
                return f'{op}: {err!r} {r!r} instead of {m}'
        elif op[0] == 'del':
            if k in m:
                if err:
                    return f'{op}: {err!r}'
                del m[k]
            elif bool(err) != bool(op[3]) or err and (not isinstance(err, OSError) or err.errno != errno.ENODATA):
                return f'{op} of what is not there: {err!r}'
        for q in model:
            real = {x.encode('utf-8', 'surrogateescape'): os.getxattr(q, x) for x in os.listxattr(q)}
            want = {pre + x: v for x, v in model[q].items()}
            want[other + b'a'] = b'foreign'
            if real != want:
                return f'after {op}: attributes of {q!r} are {real} instead of {want}'


def missing():
    p = LocalPath('nope')
    for n, a in (('getxattr', ('a',)), ('setxattr', ('a', b'b')), ('delxattr', ('a',)), ('xattrs', ()), ('setxattrs', ({'a': b'b'},))):
        try:
            r = getattr(p, n)(*a)
            return f'{n} of a missing path: {r!r}'
        except FileNotFoundError:
            pass
    if os.path.lexists('nope'):
        return 'the missing path was made'


def faults(no):
    """ every failure of the calls underneath """
    open('file', 'w').close()
    p = LocalPath('file')
    e = OSError(no, 'injected')
    old = {n: getattr(xattr, n) for n in ('get', 'set', 'remove', 'get_all')}

    def bad(*a, **k):
        raise e
    for n in old:
        setattr(xattr, n, bad)
    try:
        for n, a, kw in (('getxattr', ('a',), {}), ('setxattr', ('a', b'b'), {}), ('delxattr', ('a',), {}), ('delxattr', ('a',), {'fail': True}),
                         ('xattrs', (), {}), ('setxattrs', ({'a': b'b'},), {})):
            err = None
            try:
                r = getattr(p, n)(*a, **kw)
            except Exception as x:
                err = x
            if n == 'getxattr' and no == errno.ENODATA:
                if not isinstance(err, exc.NoStreamError):
                    return f'{n} of no attribute: {err!r}'
            elif n == 'delxattr' and no == errno.ENODATA and not kw:
                if err:
                    return f'{n} of no attribute: {err!r}'
            elif n == 'xattrs' and no == errno.ENOENT:
                if not isinstance(err, FileNotFoundError):
                    return f'{n} of no file: {err!r}'
            elif err is not e:
                return f'{n}: {err!r} instead of {e!r}'
    finally:
        for n, f in old.items():
            setattr(xattr, n, f)
