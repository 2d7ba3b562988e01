"""rmdirtree on random trees against a recursive definition, with failing calls and links."""
import os
from augpathlib import LocalPath, AugmentedPath, RepoPath
import guard
import env
RULE = 'all trees of up to 4 entries, random trees of up to 12, links in and out, failing removals'


def small(n):
    """ all trees with n entries: each entry has a parent directory before it and a kind """
    def go(i, ds, acc):
        if i == n:
            yield list(acc)
            return
        for d in ds:
            for k in 'dfl':
                p = (d + '/' if d else '') + f'{k}{i}'
                acc.append([k, p])
                yield from go(i + 1, ds + [p] if k == 'd' else ds, acc)
                acc.pop()
    yield from go(0, [''], [])


def cases(rng, tier):
    for n in range(4):
        for t in small(n):
            yield {'tree': t, 'n': None}
    for t in ('file', 'none', 'link', 'broken'):
        yield {'single': t}
    for _ in range(300):
        yield rand(rng)
    for st in STYLE[1:]:
        for t in ([['d', 'd0'], ['f', 'd0/f1']], [['d', 'd0'], ['d', 'd0/d1'], ['f', 'd0/d1/f2']], [['d', 'd0'], ['l', 'd0/l1'], ['d', 'd2']], [['d', 'd0'], ['d', 'd0/d1']]):
            yield {'tree': [[k, '/'.join(st.format(x) for x in p.split('/'))] for k, p in t], 'n': None}
    for t in small(4):
        yield {'tree': t, 'n': None}
    while True:
        yield rand(rng)


STYLE = ['{}', '{}', '.{}', '{}.x', ' {}', 'ä{}', '-{}', '{}~', '__{}__']


def rand(rng):
    t, ds = [], ['']
    for i in range(rng.randint(2, 12)):
        d = rng.choice(ds[-4:])
        k = rng.choice('dddddfl')
        p = (d + '/' if d else '') + rng.choice(STYLE).format(f'{k}{i}')
        t.append([k, p])
        if k == 'd':
            ds.append(p)
    return {'tree': t, 'n': rng.choice([None, None, rng.randint(1, 5)]), 'rel': rng.random() < .3}


def run(c):
    os.makedirs('out/empty')
    out = os.path.abspath('out')
    if 'single' in c:
        p = os.path.abspath('p')
        if c['single'] == 'file':
            open(p, 'w').write('x')
        elif c['single'] == 'link':
            os.symlink(out, p)
        elif c['single'] == 'broken':
            os.symlink(out + 'x', p)
        b = env.tree('.')
        err = None
        try:
            LocalPath(p).rmdirtree()
        except Exception as e:
            err = e
        if env.tree('.') != b:
            return 'something is gone'
        if c['single'] in ('link', 'broken') and not isinstance(err, NotADirectoryError):
            return f'a link is not refused: {err!r}'
        return
    os.makedirs('w/top')
    os.mkdir('w/sibling')
    for k, p in c['tree']:
        p = 'w/top/' + p
        if k == 'd':
            os.mkdir(p)
        elif k == 'f':
            open(p, 'w').write('')
        else:
            os.symlink(out, p)
    before = env.tree('w')

    def keep(d):
        return any(k != 'd' and os.path.dirname(p) == d or k == 'd' and os.path.dirname(p) == d and keep(p) for k, p in c['tree'])
    want = {'sibling'} | {os.path.join('top', p) for k, p in c['tree'] if k != 'd' or keep(p)}
    if keep(''):
        want.add('top')
    p = LocalPath('w/top' if c.get('rel') else os.path.abspath('w/top'))
    err = None
    with guard.fault(c['n'], 13) as inj:
        try:
            p.rmdirtree()
        except OSError as e:
            err = e
    hit = c['n'] is not None and inj['count'] >= c['n']
    if any(x != 'os.rmdir' for x in inj['log']):
        return f'did {inj["log"]}'
    if not os.path.isdir(out + '/empty'):
        return 'removed a directory outside of the tree'
    got = env.tree('w')
    if any(before[k] != v for k, v in got.items()):
        return 'something changed'
    if hit:
        if err is None:
            return 'a failure is not raised'
        return None if want <= set(got) else f'{sorted(want - set(got))} are gone'
    if err is not None:
        return f'raised {err!r}'
    if set(got) != want:
        return f'gone but not empty: {sorted(want - set(got))}, empty but not gone: {sorted(set(got) - want)}'
