"""Checksums: the digest of all the data of the file, by the right cypher."""
import hashlib
from pyvc.api import *
from pyvc import streams
from augpathlib import core as K
from augpathlib import utils as U
from contracts import P10

ASSUMES = ['hash objects are deterministic functions of the bytes fed to them, however split (hashlib)',
           'the data of the file is what LocalPath.data yields (proved in P10)']


def hashes(vc):
    """ default, class and explicit cyphers as abstract algorithms """
    vc.class_models[U.default_cypher] = model(lambda *a: fed(vc, 0, a))
    mk = lambda i: model(lambda *a: fed(vc, i, a))
    return U.default_cypher, mk(1), mk(2), mk(3), mk(4)


def fed(vc, alg, a):
    h = SHash(vc, alg)
    for x in a:
        h.update(x)
    return h


def is_digest(d, alg, N):
    b = SBytes.of(d)
    if b is None or len(b.segs) != 1 or b.segs[0][0] != 't':
        return False
    whole = z3.If(N <= 0, streams.EMPTY, streams.SL(z3.IntVal(1), z3.IntVal(0), N))
    return SBool(b.segs[0][1] == streams.DIG(z3.IntVal(alg), whole))


@contract('checksum of a local path')
def checksum_one(vc):
    checksum(vc, False)


@contract('checksum of a local path with any number of extra cyphers')
def checksum_extra(vc):
    checksum(vc, True)


def checksum(vc, extra):
    N = vc.int('size', 0)
    P10.setup(vc, lambda: [('N', N.t)])
    D, C1, E1, X, Y = hashes(vc)
    isfile = vc.bool('is a file')
    st = {}

    def data(s):
        vc.prove('the data is read once', 'src' not in st)
        st['src'] = ChunkIter(vc, 1, N.t, 'src', can_raise=None if extra else P10.Boom, nonempty=False)
        return st['src']
    where = vc.choose(2 if extra else 4, 'cypher of: nothing, cache class, path, cache class (same)')
    stubs = {'is_file': lambda s: isfile, 'data': Prop(get=data)}
    cc = vc.obj(K.EatPath, 'cache class', stubs={'cypher': Prop(value=C1 if where == 1 else D)})
    if where == 0:
        stubs['_cache_class'] = Prop(value=None)
    elif where in (1, 3):
        stubs['_cache_class'] = Prop(value=cc)
    else:
        stubs['_cache_class'] = Prop(value=None)
        stubs['cypher'] = Prop(value=C1)
    p = vc.obj(K.LocalPath, 'p', stubs=stubs)
    given = 2 if extra else vc.choose(3, 'cypher: none given, default, other')
    if extra and where:
        given = 0
    args = [(), (D,), (E1,)][given]
    # any number of them, that looked at at some index
    n, j = vc.int('number of extra cyphers', 1), vc.int('index', 0)
    vc.assume(j < n)
    XX = (X, E1)[vc.choose(2, 'the one looked at is that given')] if extra else X
    vc.tag = 'extra: ' if extra else ''
    kw = {'extra_cyphers': SymList(vc, n.t, j.t, XX, lambda: Y, (), False, tuple)} if extra else {}
    r = vc.attempt(K.AugmentedPath.checksum, p, *args, **kw)
    alg = 2 if given == 2 else 0 if given == 1 else (1 if where in (1, 2) else 0)
    if not bool(isfile):
        vc.prove('what is not a file has no checksum', r.ok and r.value is None)
        return
    if not r.ok:
        vc.prove('only a failing read', isinstance(r.exc, P10.Boom) and bool(st['src'].g.failed))
        vc.cover('read fails')
        return
    vc.prove('a failing read is reported', not st['src'].g.failed)
    if not extra:
        vc.prove('the digest of all the data by the cypher asked for, or that of the class', is_digest(r.value, alg, N.t))
        vc.cover('digest')
    else:
        v = r.value
        vc.prove('with extra cyphers one digest for each, in a tuple',
                 type(v) is SymList and v.kind is tuple and len(v._vc_prefix) == 1 and v.n.eq(n.t) and v.j.eq(j.t))
        vc.prove('the first is the digest of all the data by the cypher asked for, or that of the class', is_digest(v._vc_prefix[0], alg, N.t))
        vc.prove('the one at any index is the digest of all the data by the extra cypher at that index',
                 is_digest(v.at, 2 if XX is E1 else 3, N.t))
        vc.cover('extra')
