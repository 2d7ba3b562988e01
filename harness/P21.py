"""Every phase from versions of every shape; the next release from what PyPI says."""
import itertools
RULE = 'versions with 1 to 5 release parts, epoch, pre, post, dev and local parts, every phase and release part; next releases from lists of releases'
PHASES = ['current', 'dev', 'pre', 'a', 'b', 'rc', 'release', 'major', 'minor', 'micro', 'post', 'local', 'other']
COMPS = ['release', 'major', 'minor', 'micro']
STEMS = ['1.2.3', '0.0.0', '1.2', '1', '2!1.9.10', '1.2.3.4', '9.9.9', '1.0.2.0.5']
TAILS = ['', '.dev0', '.dev9', 'a0', 'b1', 'rc2', '.post0', '.post9', '+l', '+l.1', '+5', 'a1.dev2', '.post1.dev3', 'a1.post2', '.dev1+l', 'rc1.post2.dev3+x']


def cases(rng, tier):
    for s in STEMS:
        yield {'versions': [s + t for t in TAILS]}
    yield {'releases': ['1.0', '0.9', '1.1.dev0'], 'latest': '1.1.dev0', 'repo': '1.0'}
    yield {'releases': ['1.9', '1.10'], 'latest': '1.10', 'repo': '1.0'}
    yield {'releases': ['1.0', '1.1'], 'latest': '1.0', 'repo': '1.0'}
    yield {'releases': None, 'latest': None, 'repo': '0.0.34'}
    while True:
        if rng.random() < .2:
            v = [f'{rng.randrange(12)}.{rng.randrange(12)}{rng.choice(TAILS[:8])}' for _ in range(rng.randint(1, 5))]
            yield {'releases': v, 'latest': rng.choice(v), 'repo': '1.0'}
        else:
            yield {'versions': ['.'.join(str(rng.choice([0, 1, 9, 10, 99])) for _ in range(rng.randint(1, 5))) + rng.choice(TAILS) for _ in range(5)]}


def want(v, phase, comp):
    """ (which release part is bumped, the phase of the result) or the exception """
    state = ('local' if v.local is not None else 'post' if v.post is not None else v.pre[0] if v.pre else 'dev' if v.dev is not None else 'release')
    pre = state in ('a', 'b', 'rc')
    if phase == 'current':
        if state == 'local':
            return TypeError
        return ('release' if state == 'release' else None), state
    if phase == 'dev':
        return ValueError if pre else ((None if state == 'dev' else comp), 'dev')
    if phase == 'pre':
        return (None if pre or state == 'dev' else comp), {'a': 'b', 'b': 'rc', 'rc': 'rc'}.get(state, 'a')
    if phase in ('a', 'b', 'rc'):
        return ValueError if pre and state > phase else ((None if state == 'dev' else comp), phase)
    if phase == 'release':
        return (None if pre or state == 'dev' else 'release'), 'release'
    if phase in ('major', 'minor', 'micro'):
        return phase, 'release'
    if phase == 'post':
        return (None, 'post') if state == 'release' else ValueError
    if phase == 'local':
        return TypeError if state == 'local' else (None, 'local')
    return ValueError


def one(v, phase, comp, next_version):
    w = want(v, phase, comp)
    if type(w) is tuple:
        bump, to = w
        rel = list(v.release)
        at = {'major': 0, 'minor': 1, 'micro': 2, 'release': len(rel) - 1}.get(bump)
        if at is not None:
            if at >= len(rel):
                w = IndexError
            else:
                rel = rel[:at] + [rel[at] + 1] + [0] * (len(rel) - at - 1)
    try:
        got = next_version(v, phase, comp)
        if comp == 'release' and next_version(v, phase) != got or comp == 'release' and phase == 'current' and next_version(v) != got:
            return f'{v} {phase}: another version if it is not said'
    except Exception as e:
        if type(w) is tuple or type(e) is not w:
            return f'{v} {phase} {comp}: {e!r}'
        return
    if type(w) is not tuple:
        return f'{v} {phase} {comp} is {got}, expected {w.__name__}'
    if not got > v or type(got) is not type(v):
        return f'{v} {phase} {comp} is {got}, which is not later'
    state = 'local' if got.local is not None else 'post' if got.post is not None else got.pre[0] if got.pre else 'dev' if got.dev is not None else 'release'
    if got.epoch != v.epoch or list(got.release) != rel or state != to:
        return f'{v} {phase} {comp} is {got}, expected release {rel}, {to}'
    if to == 'local':
        if got.public != v.public:
            return f'{v} {phase} {comp} is {got}'
        return
    if sum(x is not None for x in (got.pre, got.post, got.dev, got.local)) != (to != 'release'):
        return f'{v} {phase} {comp} is {got}'
    n, o = {'dev': (got.dev, v.dev), 'post': (got.post, v.post), 'release': (0, None)}.get(to) or (got.pre[1], v.pre and v.pre[1])
    if n != (0 if o is None else o + 1):
        return f'{v} {phase} {comp} is {got}'


def run(c):
    import warnings
    warnings.simplefilter('ignore')
    from augpathlib.package import next_version, PackagePath
    from packaging.version import Version
    if 'versions' in c:
        for v, phase, comp in itertools.product(c['versions'], PHASES, COMPS):
            bad = one(Version(v), phase, comp, next_version)
            if bad:
                return bad
        return
    p = PackagePath('/x')
    p._pypi_json = None if c['releases'] is None else {'info': {'version': c['latest']}, 'releases': {r: [] for r in c['releases']}}

    class Dist:
        def get_version(self):
            return c['repo']
    p._setup_dist = Dist()
    try:
        got = p.version_next('minor')
        plain = p.version_next()
    except AssertionError:
        got = 'odd'
    if c['releases'] is None:
        expect = Version(c['repo'])
    elif Version(c['latest']) != max(map(Version, c['releases'])):
        expect = 'odd'
    else:
        expect = next_version(Version(c['latest']), 'minor')
        if got == expect and plain != next_version(Version(c['latest']), 'current', 'release'):
            return f'version_next is {plain} if nothing is said'
    if got != expect:
        return f'version_next is {got}, expected {expect}'
