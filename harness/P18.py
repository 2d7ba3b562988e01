"""Random trees, marked and cleared at random, against the definition."""
import os
from augpathlib import LocalPath
import env
import run as R
RULE = 'trees of depth up to 6, up to 10 marks and clears, every path asked, local paths and caches, unreadable marks'
KEY = None


def cases(rng, tier):
    for cache in (False, True):
        yield {'cache': cache, 'ops': [['mark', 0], ['clear', 0], ['clear', 0], ['mark', 3], ['mark', 1], ['clear', 3], ['clear', 1]], 'shape': [0, 1, 1, 2, 3, 3, 5]}
        yield {'cache': cache, 'ops': [['mark', 2], ['fault', 1], ['fault', 3]], 'shape': [0, 1, 2, 3, 4]}
        for d in (31, 40):
            yield {'cache': cache, 'shape': [i + (i and i % 3 == 0 and -1) for i in range(d)], 'ops': [['mark', 0], ['mark', 2], ['clear', 0], ['clear', 2]]}
            yield {'cache': cache, 'chain': d, 'shape': [], 'ops': [['mark', 0], ['clear', 0], ['mark', d // 2], ['fault', 3]]}
    for marks in ([], ['/'], ['/x'], ['/x/y'], ['/.x'], ['/x/y/z'], ['/y', '/x/y']):
        yield {'top': marks}
    while True:
        n = rng.randint(2, 9)
        yield {'cache': rng.random() < .4, 'shape': [rng.randint(0, i) for i in range(n)],
               'ops': [[rng.choice(['mark', 'mark', 'clear', 'clear', 'fault']), rng.randint(0, n)] for _ in range(rng.randint(1, 10))]}


def run(c):
    if not hasattr(LocalPath, '_mark_sparse') or not hasattr(LocalPath, 'is_sparse'):
        raise R.NotApplicable
    if 'top' in c:
        return top(c['top'])
    base = os.getcwd()
    w = env.World()
    w.anchor()
    dirs = [os.path.join(base, 'root')]
    leaf = set()
    for i, up in enumerate(range(c['chain']) if 'chain' in c else c['shape']):
        p = os.path.join(dirs[up], f'd{i}')
        if up in leaf:
            up = 0
            p = os.path.join(dirs[0], f'd{i}')
        if i % 3 == 2 and 'chain' not in c:
            open(p, 'w').close()
            leaf.add(len(dirs))
        else:
            os.mkdir(p)
        dirs.append(p)
        w.add(f'i{i}', f'd{i}')
        for k, v in w.meta(f'i{i}').as_xattrs(w.CacheT.xattr_prefix).items():
            os.setxattr(p, b'user.' + (k.encode() if isinstance(k, str) else k), v)
    marked = set()

    def obj(p):
        o = w.LocalT(p)
        return o.cache if c['cache'] else o

    def want(p):
        while p != '/':
            if p in marked:
                return True
            p = os.path.dirname(p)
        return False
    for op, i in c['ops']:
        p = dirs[i % len(dirs)]
        before = env.tree(base)
        if op == 'fault':
            o = obj(dirs[-1])
            if p != dirs[-1] and not dirs[-1].startswith(p + '/'):
                continue
            seen = []
            bad = OSError(13, 'injected')
            orig = type(w.LocalT(p)).getxattr
            corig = type(w.root).getxattr

            def get(f):
                def getxattr(self, *a, **k):
                    seen.append(str(self))
                    if str(self) == p:
                        raise bad
                    return f(self, *a, **k)
                return getxattr
            type(w.LocalT(p)).getxattr, type(w.root).getxattr = get(orig), get(corig)
            try:
                r = o.is_sparse()
                if p in seen:
                    return f'an unreadable mark of {p} is taken for {r}'
                q = dirs[-1]
                if not any(m.startswith(p + '/') and (q == m or q.startswith(m + '/')) for m in marked):
                    return f'is_sparse of {q} is {r} without looking at {p}'
            except OSError as e:
                if e is not bad:
                    return f'another error: {e!r}'
            finally:
                type(w.LocalT(p)).getxattr, type(w.root).getxattr = orig, corig
            continue
        o = obj(p)
        if op == 'mark':
            o._mark_sparse()
            marked.add(p)
        else:
            o._clear_sparse()
            marked.discard(p)
        after = env.tree(base)

        def strip(t):
            return {k: v[:2] + (tuple(x for x in v[2] if not x[0].endswith('.sparse')),) if len(v) > 2 else v for k, v in t.items()}
        rel = os.path.relpath(p, base)
        if {k: v for k, v in before.items() if k != rel} != {k: v for k, v in after.items() if k != rel} or strip(before) != strip(after):
            return f'{op} {p} changed something else'
        for q in dirs:
            if obj(q).is_sparse() is not want(q):
                return f'is_sparse of {q} is {obj(q).is_sparse()!r}, marked are {sorted(marked)}'
            if w.LocalT(q).is_sparse() is not want(q):
                return f'is_sparse of {q} is {obj(q).is_sparse()!r}, marked are {sorted(marked)}'


def top(marks):
    """ paths right below the root of the file system, the marks answered for, nothing touched """
    from augpathlib import exceptions as exc

    class T(LocalPath):
        def getxattr(self, key, *a, **k):
            if str(self) in marks:
                return b'1'
            raise exc.NoStreamError(str(self))
    if hasattr(T, '_bind_flavours'):
        T._bind_flavours()
    for q in ('/x', '/.x', '/x/y', '/x/y/z', '/x/y/z/w', '/y', '/z'):
        want = any(q == m or q.startswith(m + '/') for m in marks if m != '/')
        if T(q).is_sparse() is not want:
            return f'is_sparse of {q} is not {want}, marked are {marks}'
