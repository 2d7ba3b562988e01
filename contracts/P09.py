"""Multipart etags: md5 of the md5s of consecutive parts of chunksize bytes, and their number."""
import hashlib
import io
from pyvc.api import *
from pyvc import streams
from augpathlib import core as K
from augpathlib import utils as U
from contracts import P10

ASSUMES = ['md5 and BytesIO as in the standard library', 'chunksize is at least 1',
           'the data of the file is what LocalPath.data yields (proved in P10)']
S = z3.Function('PARTS', z3.IntSort(), streams.LS)       # the digests of the first n parts
KK = z3.Function('PARTEND', z3.IntSort(), z3.IntSort())  # n * chunksize
MD5 = 7


def dig(t):
    return streams.DIG(z3.IntVal(MD5), t)


def spec(vc, n, cs):
    """ the definition of PARTS and PARTEND, unfolded at n """
    vc._assume(z3.And(KK(0) == 0, S(0) == streams.NIL, KK(n + 1) == KK(n) + cs.t,
                      S(n + 1) == streams.SNOC(S(n), dig(streams.SL(z3.IntVal(1), KK(n), KK(n) + cs.t)))))


class Parts(SSeq):
    def append(self, x):
        spec(self.vc, self.n, self.cs)
        SSeq.append(self, x)
    append._vc_stub = True

    def copy(self):
        return self.plain(SSeq(self.vc, self.t, self.n))
    copy._vc_stub = True

    def plain(self, s):
        return s


def state(vc, cs, q0):
    n = vc.int('parts', 0)
    vc._assume(z3.And(KK(n.t) >= 0, KK(n.t) <= q0.t, q0.t - KK(n.t) < cs.t))
    spec(vc, n.t, cs)
    vc._assume(z3.Implies(n.t == 0, z3.And(KK(n.t) == 0, S(n.t) == streams.NIL)))
    parts = Parts(vc, S(n.t), n.t, 'parts')
    parts.cs = cs
    # parts has n elements, is PARTS(n); remainder is what follows
    rem = SBytes([]) if vc.branch(KK(n.t) == q0.t) else SBytes([('s', 1, KK(n.t), q0.t)])
    e = vc.obj(U.etag, 'etag', chunksize=cs, _parts=parts, _remainder=rem)
    return e, parts, n, rem


def common(vc):
    streams.install(vc)
    vc.cut_loops = True
    vc.stubs[hashlib.md5] = vc.class_models[hashlib.md5] = model(lambda *a: fed(vc, a))
    vc.class_models[io.BytesIO] = model(lambda *a: SBytesIO(vc, *a))


def fed(vc, a):
    h = SHash(vc, MD5)
    for x in a:
        h.update(x)
    return h


@contract('etag state at the start')
def init(vc):
    common(vc)
    cs = vc.int('chunksize', 1)
    r = vc.attempt(U.etag, cs)
    vc.prove('made', r.ok)
    e = r.value
    for a in ('_parts', '_remainder'):
        if a not in attrs_of(e):
            vc.unsupported('another representation of the state')
    vc.prove('no parts, no remainder, the chunk size given', len(e._parts) == 0 and e._remainder == b'' and e.chunksize is cs)


@contract('etag update')
def update(vc):
    common(vc)
    cs = vc.int('chunksize', 1)
    q0, q1 = vc.int('bytes so far', 0), vc.int('bytes after', 0)
    vc.assume(q0 <= q1)
    e, parts, n, rem = state(vc, cs, q0)
    arg = SBytes([]) if vc.branch(q0.t == q1.t) else SBytes([('s', 1, q0.t, q1.t)])

    def cands(vc, lid, env):
        m = parts.n
        out = streams.stream_candidates(vc, lid, env, [('end of parts', KK(m)), ('q0', q0.t), ('q1', q1.t)], ('range',))
        out.append(('parts are the digests of the parts', SBool(parts.t == S(m))))
        for o in vc.objs:
            at = attrs_of(o)
            if 'i' in at and 'stop' in at:
                out.append(('index is the end of the parts', SBool(KK(m) == KK(n.t) + at['i'].t)))
        for k, v in env.items():
            if type(v) is SInt:
                out.append((f'{k} is the end of the parts', SBool(KK(m) == KK(n.t) + v.t)))
        return out
    vc.candidates = cands
    vc.witness_fn = lambda m: {'chunksize': val(m, cs), 'cuts': [val(m, q0), val(m, q1)]}
    r = vc.attempt(U.etag.update, e, arg)
    vc.prove('update returns', r.ok)
    if e._parts is not parts:
        vc.unsupported('another representation of the state')
    vc.prove('the parts are the digests of the consecutive parts', SBool(parts.t == S(parts.n)))
    rest = SBytes.of(e._remainder)
    vc.prove('the remainder is what follows the parts', P10.is_range(rest, KK(parts.n), q1.t))
    vc.prove('every whole part is digested', And(SBool(KK(parts.n) <= q1.t), SBool(q1.t - KK(parts.n) < cs.t)))
    vc.prove('the chunk size is kept', e.chunksize is cs)
    vc.cover('updated')


@contract('etag digest')
def digest(vc):
    common(vc)
    cs = vc.int('chunksize', 1)
    q = vc.int('bytes', 0)
    e, parts, n, rem = state(vc, cs, q)
    vc._assume(streams.SJOIN(streams.NIL) == streams.EMPTY)
    vc.witness_fn = lambda m: {'chunksize': val(m, cs), 'cuts': [val(m, q)]}
    r = vc.attempt(U.etag.digest, e)
    vc.prove('digest is a digest and a number', r.ok and type(r.value) is tuple and len(r.value) == 2)
    d, count = r.value
    has = vc.branch(KK(n.t) < q.t)
    seq = streams.SNOC(S(n.t), dig(streams.SL(z3.IntVal(1), KK(n.t), q.t))) if has else S(n.t)
    vc.prove('the number of parts', count == n + (1 if has else 0))
    b = SBytes.of(d)
    if b is None or len(b.segs) != 1 or b.segs[0][0] != 't':
        vc.prove('the digest is a digest', False)
    vc.prove('the digest of the digests of the parts, the last one possibly short',
             SBool(b.segs[0][1] == dig(z3.If(n.t + (1 if has else 0) == 0, streams.EMPTY, streams.SJOIN(seq)))))
    vc.prove('the state is not changed', And(e._parts is parts, SBool(parts.t == S(n.t)), SBool(parts.n == n.t),
                                             P10.is_range(SBytes.of(e._remainder), KK(n.t), q.t), e.chunksize is cs))
    vc.cover('short last part', has)
    vc.cover('no short part', not has)


@contract('etag hexdigest')
def hexdigest(vc):
    textmod.install(vc)
    d = vc.any('digest', bytes, hex=model(lambda: hx))
    hx = textmod.text(vc, 'hex')
    n = vc.int('count', 0)
    e = vc.obj(U.etag, 'etag', stubs={'digest': lambda s: (d, n)})
    r = vc.attempt(U.etag.hexdigest, e)
    vc.prove('the hex digest, a dash and the number', r.ok and r.value == hx + '-' + textmod.dec_text(vc, n))


@contract('etag of a local path')
def path_etag(vc):
    N = vc.int('size', 0)
    P10.setup(vc, lambda: [('N', N.t)])
    isfile = vc.bool('is a file')
    cs = vc.any('chunksize')
    res = vc.any('etag', tuple)
    st = {}

    def make(c):
        vc.prove('the etag is made for the chunk size given', c is cs and 'e' not in st)
        st['e'] = vc.obj(Ghost, 'etag', content=SBytes([]))
        return vc.obj(U.etag, 'e', stubs={'update': upd, 'digest': dg})

    def upd(s, b):
        st['e'].content = st['e'].content + SBytes.of(b)

    def dg(s):
        st['digest'] = st['e'].content
        return res
    vc.class_models[U.etag] = model(make)
    src = ChunkIter(vc, 1, N.t, 'src', can_raise=P10.Boom, nonempty=False)
    p = vc.obj(K.LocalPath, 'p', stubs={'is_file': lambda s: isfile, 'data': Prop(get=lambda s: src)})
    r = vc.attempt(K.LocalPath.etag, p, cs)
    if not bool(isfile):
        vc.prove('what is not a file has no etag', r.ok and r.value is None)
        return
    if not r.ok:
        vc.prove('only a failing read', isinstance(r.exc, P10.Boom) and bool(src.g.failed))
        return
    vc.prove('a failing read is reported', not src.g.failed)
    vc.prove('the etag of all the data', r.value is res and P10.is_range(st['digest'], z3.IntVal(0), N.t))
    vc.cover('etag')
