"""The next version: later than the one it follows, and of the phase asked for."""
import z3
from pyvc.api import *
from augpathlib import package as P

ASSUMES = ['a Version holds epoch, release, dev, pre, post and local in its _version; a Version made from the text of a Version has the same parts (packaging)',
           'the release of a version has 1 to 5 parts (their values are any)']
PHASES = ('current', 'dev', 'pre', 'a', 'b', 'rc', 'release', 'major', 'minor', 'micro', 'post', 'local', 'other')
COMPS = ('release', 'major', 'minor', 'micro')


class Parts(dict):
    """ what Version._version holds """
    _vc_model = True

    def _replace(self, **k):
        return Parts({**self, **k})

    def _asdict(self):
        return dict(self)


class Text:
    _vc_model = True

    def __init__(self, parts):
        self.parts = parts


class Ver:
    _vc_model = True

    def __init__(self, x):
        if type(x) is str and x == '0':
            self._version = Parts(epoch=0, release=(0,), dev=None, pre=None, post=None, local=None)
        elif type(x) is Text:
            p = Parts(x.parts)
            # what has no parts is not written
            self._version = p
        else:
            unsup('another version text')

    @staticmethod
    def of(**k):
        v = Ver('0')
        v._version = Parts(k)
        return v

    epoch = property(lambda s: s._version['epoch'])
    release = property(lambda s: s._version['release'])
    pre = property(lambda s: s._version['pre'])
    post = property(lambda s: s._version['post'] and s._version['post'][1])
    dev = property(lambda s: s._version['dev'] and s._version['dev'][1])
    local = property(lambda s: None if s._version['local'] is None else 'a.local.part')


def later(a, b):
    """ a > b as packaging orders versions; z3 term """
    def t(x):
        return x.t if hasattr(x, 't') else z3.IntVal(x)

    def lex(xs, ys):
        out = z3.BoolVal(False)
        for x, y in reversed(list(zip(xs, ys))):
            out = z3.Or(t(x) > t(y), z3.And(t(x) == t(y), out))
        return out

    def key(v):
        p = v._version
        pre, post, dev, local = p['pre'], p['post'], p['dev'], p['local']
        if pre is None and post is None and dev is not None:
            k = [-1, 0]
        elif pre is None:
            k = [9, 0]
        else:
            k = [{'a': 0, 'b': 1, 'rc': 2}[pre[0]], pre[1]]
        k += [-1 if post is None else post[1]]
        k += [1, 0] if dev is None else [0, dev[1]]
        k += [0 if local is None else 1]
        return [p['epoch'], *p['release'], *k]
    return lex(key(a), key(b))


@contract('next_version', max_paths=60000)
def next_version(vc):
    vc.class_models[str] = model(lambda *a: Text(a[0]._version) if a and type(a[0]) is Ver else str(*a))
    n = vc.choose(5, 'parts of the release') + 1
    nat = lambda name: natural(vc, name)
    rel = tuple(nat(f'release{i}') for i in range(n))
    pre = [None, 'a', 'b', 'rc'][vc.choose(4, 'pre')]
    pre = pre and (pre, nat('pre'))
    post = ('post', nat('post')) if vc.maybe('post') else None
    dev = ('dev', nat('dev')) if vc.maybe('dev') else None
    local = ('a', 'local', 'part') if vc.maybe('local') else None
    ver = Ver.of(epoch=nat('epoch'), release=rel, dev=dev, pre=pre, post=post, local=local)
    phase = PHASES[vc.choose(len(PHASES), 'phase')]
    comp = COMPS[vc.choose(4, 'release part')] if phase in ('dev', 'pre', 'a', 'b', 'rc') else 'release'
    state = 'local' if local else 'post' if post else pre[0] if pre else 'dev' if dev else 'release'
    kw = {}
    if phase != 'current' or not vc.maybe('no phase said'):
        kw['next_phase'] = phase
    if comp != 'release' or not vc.maybe('no part said'):
        kw['rel_comp'] = comp
    r = vc.attempt(P.next_version, ver, **kw)
    # what is to become of the release, and the phase
    bump, to = None, None
    prerel = state in ('a', 'b', 'rc')
    bad = False
    if phase == 'other':
        bad = ValueError
    elif phase == 'current':
        to = state
        bump = 'release' if state == 'release' else None
        bad = TypeError if state == 'local' else False
    elif phase == 'dev':
        to = 'dev'
        bump = None if state == 'dev' else comp
        bad = ValueError if prerel else False
    elif phase == 'pre':
        to = {'dev': 'a', 'a': 'b', 'b': 'rc', 'rc': 'rc'}.get(state, 'a')
        bump = None if prerel or state == 'dev' else comp
    elif phase in ('a', 'b', 'rc'):
        to = phase
        bad = ValueError if prerel and state > phase else False
        bump = None if state == 'dev' else comp
    elif phase == 'release':
        to, bump = 'release', None if prerel or state == 'dev' else 'release'
    elif phase in ('major', 'minor', 'micro'):
        to, bump = 'release', phase
    elif phase == 'post':
        to, bad = 'post', False if state == 'release' else ValueError
    elif phase == 'local':
        to, bad = 'local', TypeError if state == 'local' else False
    at = {'major': 0, 'minor': 1, 'micro': 2, 'release': n - 1}.get(bump)
    if not bad and at is not None and at >= n:
        bad = IndexError
    if bad:
        vc.prove('what is not a step forward is refused', r.raised(bad))
        vc.cover('refused')
        return
    vc.prove('there is a next version', r.ok)
    if not r.ok:
        return
    new = r.value
    vc.prove('it is later', SBool(later(new, ver)))
    p = new._version
    vc.prove('in the same epoch, with as many parts', And(p['epoch'] == ver.epoch, len(p['release']) == n))
    want = rel if at is None else (*rel[:at], rel[at] + 1, *(0 for _ in (rel[at + 1:] if bump != 'release' else ())))
    vc.prove('the part asked for is one more, those before the same, those after 0', And(*[x == y for x, y in zip(p['release'], want)]))
    got = 'local' if p['local'] else 'post' if p['post'] else p['pre'][0] if p['pre'] else 'dev' if p['dev'] else 'release'
    vc.prove('of the phase asked for', got == to)
    one = {'dev': (p['dev'], dev), 'post': (p['post'], post), 'a': (p['pre'], pre), 'b': (p['pre'], pre), 'rc': (p['pre'], pre)}.get(to)
    if one:
        x, o = one
        vc.prove('counted from the last', x[0] == to and (x[1] == (0 if o is None else o[1] + 1)))
    vc.prove('and nothing else', to == 'local' or sum(p[k] is not None for k in ('dev', 'pre', 'post', 'local')) == (to != 'release'))
    vc.cover('later')


def natural(vc, name):
    return vc.int(name, lo=0)


@contract('version_next')
def version_next(vc):
    """ the next of the latest release; what is in the repository if there is none """
    none = vc.choose(3, 'released, not released, nothing at all')
    same = vc.maybe('the latest is the greatest')
    v, w = object(), object()
    out, repo, zero = vc.any('next'), vc.obj(P.RepoPath, 'version_repo', stubs={'__bool__': lambda s: True}), vc.any('zero')
    log = []

    def nv(ver, next_phase='current', rel_comp='release'):
        log.append((ver, next_phase, rel_comp))
        return out
    vc.stubs[P.next_version] = nv

    def pv(s):
        vc.prove('the first version', s == '0.0.0.dev0')
        return zero
    vc.stubs[P.parse_version] = pv
    l = None if none else vc.obj(P.RepoPath, 'latest')
    g = l if none or same else vc.obj(P.RepoPath, 'greatest', stubs={'__eq__': lambda s, o: s is o})
    if l is not None:
        l._vc_stubs['__eq__'] = lambda s, o: s is o
        l._vc_stubs['__ne__'] = lambda s, o: s is not o
    p = vc.obj(P.PackagePath, 'p', stubs={'version_latest_pypi': Prop(value=l), 'version_latest_released': Prop(value=g),
                                          'version_repo': Prop(value=repo if none < 2 else None)})
    phase, comp = vc.any('phase'), vc.any('comp')
    if vc.maybe('nothing said'):
        r = vc.attempt(P.PackagePath.version_next, p)
        phase, comp = 'current', 'release'
    else:
        r = vc.attempt(P.PackagePath.version_next, p, phase, comp)
    if not none and not same:
        vc.prove('when the latest release is not the greatest there is no next one', r.raised(AssertionError) and not log)
        vc.cover('odd')
    elif not none:
        vc.prove('it follows the latest release', r.ok and r.value is out and len(log) == 1 and log[0][0] is l and (log[0][1:] == (phase, comp) if phase == 'current' else log[0][1] is phase and log[0][2] is comp))
        vc.cover('next')
    elif none == 1:
        vc.prove('what was never released is released as it is', r.ok and r.value is repo and not log)
        vc.cover('first')
    else:
        vc.prove('what has no version starts', r.ok and r.value is zero and not log)
        vc.cover('zero')
