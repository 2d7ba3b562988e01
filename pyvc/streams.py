"""Bytes, byte streams, sequences, integer ranges, hashes, files."""
import z3
from .values import *
from .values import UNBOUND
from .objects import SObj

B = z3.DeclareSort('B')                    # byte strings as uninterpreted values
SL = z3.Function('SL', z3.IntSort(), z3.IntSort(), z3.IntSort(), B)   # stream, lo, hi
CAT = z3.Function('CAT', B, B, B)
CONST = z3.Function('CONST', z3.IntSort(), B)
DIG = z3.Function('DIG', z3.IntSort(), B, B)      # hash algorithm, content
JOIN = z3.Function('JOIN', z3.ArraySort(z3.IntSort(), B), z3.IntSort(), B)
EMPTY = z3.Const('EMPTY', B)
BLEN = z3.Function('BLEN', B, z3.IntSort())

_consts = {}


def cid(b):
    return _consts.setdefault(b, len(_consts))


class SBytes(Sym):
    """ a byte string as a sequence of segments:
        ('c', b'..')  ('s', stream, lo, hi)  ('t', term, len)
        ('j', array, n, totlen)  - join of n elements """

    def __init__(self, segs):
        self.segs = norm(segs)

    __class__ = property(lambda self: bytes)

    @staticmethod
    def of(x):
        if type(x) is SBytes:
            return x
        if type(x) is SOpt:
            return SBytes.of(x._r())
        if isinstance(x, (bytes, bytearray)) and not is_sym(x):
            return SBytes([('c', bytes(x))] if x else [])
        return None

    def length(self):
        n = z3.IntVal(0)
        for s in self.segs:
            n = n + seglen(s)
        return z3.simplify(n)

    def _vc_len(self):
        return SInt(self.length())

    def term(self):
        t = None
        for s in self.segs:
            x = segterm(s)
            t = x if t is None else CAT(t, x)
        return EMPTY if t is None else t

    def __bool__(self):
        return ctx().branch(self.length() > 0)

    def __add__(self, o):
        b = SBytes.of(o)
        if b is None:
            return NotImplemented
        return SBytes(self.segs + b.segs)

    def __radd__(self, o):
        b = SBytes.of(o)
        if b is None:
            return NotImplemented
        return SBytes(b.segs + self.segs)

    def __eq__(self, o):
        if type(o) is SOpt:
            return o.__eq__(self)
        b = SBytes.of(o)
        if b is None:
            return False
        if not b.segs:
            return SBool(self.length() == 0)
        if not self.segs:
            return SBool(b.length() == 0)
        return SBool(eqform(self, b))

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def split_at(self, k):
        """ (first k bytes, the rest), branching on where k falls """
        c = ctx()
        left, rest = [], list(self.segs)
        while rest:
            s = rest[0]
            n = seglen(s)
            if c.branch(k <= 0):
                break
            if c.branch(n <= k):
                left.append(s)
                rest.pop(0)
                k = z3.simplify(k - n)
                continue
            a, b = segsplit(s, k)
            left.append(a)
            rest[0] = b
            break
        return SBytes(left), SBytes(rest)

    def __getitem__(self, i):
        c = ctx()
        if not isinstance(i, slice):
            unsup('bytes index')
        if i.step is not None:
            unsup('bytes slice step')
        n = self.length()

        def clip(x, d):
            if x is None:
                return d
            t = it(x)
            if c.branch(t < 0):
                t = z3.simplify(t + n)
                if c.branch(t < 0):
                    t = z3.IntVal(0)
            elif c.branch(t > n):
                t = n
            return t
        lo, hi = clip(i.start, z3.IntVal(0)), clip(i.stop, n)
        if c.branch(hi <= lo):
            return SBytes([])
        a, _ = self.split_at(hi)
        _, m = a.split_at(lo)
        return m

    _vc_kind = lambda v: ('sbytes', len(v.segs) > 0 and v.segs[0][0] == 's' and v.segs[0][1] or 0)

    def _vc_same(a, b):
        return len(a.segs) == len(b.segs) and all(
            x[0] == y[0] and all((p.eq(q) if z3.is_expr(p) else p == q) for p, q in zip(x[1:], y[1:]))
            for x, y in zip(a.segs, b.segs))

    def __getattr__(self, name):
        c = ctx()
        if name.startswith('_') or c is None:
            raise AttributeError(name)
        return c.sym_attr(self, name)

    def __repr__(self):
        return f'<bytes {self.segs}>'
    __hash__ = Sym.__hash__


def seglen(s):
    if s[0] == 'c':
        return z3.IntVal(len(s[1]))
    if s[0] == 's':
        return z3.simplify(s[3] - s[2])
    if s[0] == 't':
        return s[2]
    if s[0] == 'j':
        return s[3]


def segterm(s):
    if s[0] == 'c':
        return CONST(cid(s[1]))
    if s[0] == 's':
        return z3.If(s[2] >= s[3], EMPTY, SL(z3.IntVal(s[1]), s[2], s[3]))
    if s[0] == 't':
        return s[1]
    if s[0] == 'j':
        return JOIN(s[1], s[2])


def segsplit(s, k):
    if s[0] == 'c':
        kk = z3.simplify(k)
        if z3.is_int_value(kk):
            return ('c', s[1][:kk.as_long()]), ('c', s[1][kk.as_long():])
        unsup('symbolic split of constant bytes')
    if s[0] == 's':
        m = z3.simplify(s[2] + k)
        return ('s', s[1], s[2], m), ('s', s[1], m, s[3])
    unsup('split of opaque bytes')


def norm(segs):
    out = []
    for s in segs:
        if s[0] == 'c' and not s[1]:
            continue
        if s[0] == 's' and z3.is_true(z3.simplify(s[2] == s[3])):
            continue
        if out and out[-1][0] == 's' and s[0] == 's' and out[-1][1] == s[1]:
            p = out[-1]
            same = z3.simplify(p[3] == s[2])
            if z3.is_true(same) or (ctx() is not None and ctx().valid(SBool(p[3] == s[2]))):
                out[-1] = ('s', p[1], p[2], s[3])
                continue
        if out and out[-1][0] == 'c' and s[0] == 'c':
            out[-1] = ('c', out[-1][1] + s[1])
            continue
        out.append(s)
    return out


def eqform(a, b):
    """ equality of contents.  Equal terms are equal; anything else is left to
        the uninterpreted terms (both outcomes stay possible) """
    sa, sb = a.segs, b.segs
    if len(sa) == 1 and len(sb) == 1 and sa[0][0] == 's' and sb[0][0] == 's' and sa[0][1] == sb[0][1]:
        x, y = sa[0], sb[0]
        pos = z3.And(x[2] == y[2], x[3] == y[3])
        return z3.Or(pos, z3.And(x[3] - x[2] == 0, y[3] - y[2] == 0),
                     z3.And(x[3] - x[2] == y[3] - y[2], a.term() == b.term()))
    return z3.And(a.length() == b.length(), a.term() == b.term())


def fresh_sbytes(vc, k, nm, cur):
    """ an arbitrary slice of a ghost stream """
    st = k[1] if len(k) > 1 and k[1] else 1
    lo, hi = z3.Int(vc._n(nm + '_lo')), z3.Int(vc._n(nm + '_hi'))
    if vc.maybe('empty'):
        return SBytes([])
    vc._assume(z3.And(0 <= lo, lo < hi))
    return SBytes([('s', st, lo, hi)])


class SRange:
    """ range() with symbolic bounds """
    _vc_model = True

    def __init__(self, vc, *a):
        self.vc = vc
        if len(a) == 1:
            self.start, self.stop, self.step = z3.IntVal(0), it(a[0]), 1
        else:
            self.start, self.stop = it(a[0]), it(a[1])
            self.step = a[2] if len(a) > 2 else 1
        if self.start is None or self.stop is None:
            raise TypeError('range')
        if is_sym(self.step) or self.step != 1:
            # step symbolic: positive required
            self.step = it(self.step)
            vc.need(self.step != 0, ValueError('range() arg 3 must not be zero'))
            if vc.branch(self.step < 0):
                unsup('negative range step')

    def _vc_iter(self):
        return RangeIter(self)

    def _vc_len(self):
        if isinstance(self.step, int):
            return SInt(z3.If(self.stop > self.start, self.stop - self.start, 0))
        unsup('len of stepped range')


def gname(vc, kind):
    """ a name that does not depend on the path taken so far """
    n = sum(1 for o in vc.objs if object.__getattribute__(o, '_vc_name').rstrip('0123456789') == kind)
    return f'{kind}{n}'


class Ghost:
    """ class of ghost state objects """


class RangeIter:
    _vc_model = True

    def __init__(self, r):
        self.r = r
        vc = r.vc
        n = sum(1 for o in vc.objs if object.__getattribute__(o, '_vc_name').startswith('range'))
        self.g = vc.obj(Ghost, f'range{n}', i=SInt(r.start), stop=SInt(r.stop))

    def has_next(self):
        return self.r.vc.branch(self.g.i.t < self.r.stop)

    def next(self):
        i = self.g.i
        self.g.i = SInt(z3.simplify(i.t + self.r.step))
        return i


class ChunkIter:
    """ the contract of a data generator: consecutive non-empty slices of a
        ghost stream D[0:N], then StopIteration; may raise in between """
    _vc_model = True

    def __init__(self, vc, stream, n, name='src', can_raise=None, nonempty=True):
        self.vc, self.stream, self.N = vc, stream, n
        self.g = vc.obj(Ghost, name, pos=SInt(z3.IntVal(0)), failed=False)
        self.can_raise = can_raise
        self.nonempty = nonempty

    def _vc_iter(self):
        return self

    __iter__ = _vc_iter

    def has_next(self):
        if self.can_raise is not None and self.vc.maybe('source raises'):
            self.g.failed = True
            raise self.can_raise('source')
        return self.vc.branch(self.g.pos.t < self.N)

    def next(self):
        vc = self.vc
        p = self.g.pos.t
        q = z3.Int(vc._n('chunk_end'))
        vc._assume(z3.And(q > p if self.nonempty else q >= p, q <= self.N))
        self.g.pos = SInt(q)
        return SBytes([('s', self.stream, p, q)])

    def _vc_next(self):
        if not self.has_next():
            raise StopIteration
        return self.next()

    __next__ = _vc_next


LS = z3.DeclareSort('LS')                  # finite sequences of byte strings
NIL = z3.Const('NIL', LS)
SNOC = z3.Function('SNOC', LS, B, LS)
SJOIN = z3.Function('SJOIN', LS, B)


class SSeq(Sym):
    """ a list of byte strings, as a term (NIL, SNOC) and its length """

    def __init__(self, vc, t=None, n=None, name=None):
        self.vc = vc
        self.g = vc.obj(Ghost, name or gname(vc, 'seq'),
                        seq=SAny(NIL if t is None else t, object), n=SInt(z3.IntVal(0) if n is None else n))

    __class__ = property(lambda self: list)
    t = property(lambda s: s.g.seq.t)
    n = property(lambda s: s.g.n.t)

    def _vc_len(self):
        return SInt(self.n)

    def __bool__(self):
        return ctx().branch(self.n > 0)

    def append(self, x):
        b = SBytes.of(x)
        if b is None:
            unsup('append to sequence')
        self.g.seq = SAny(SNOC(self.t, b.term()), object)
        self.g.n = SInt(z3.simplify(self.n + 1))
    append._vc_stub = True

    def extend(self, xs):
        for x in xs:
            self.append(x)
    extend._vc_stub = True

    def _vc_join(self, sep):
        if sep != b'':
            unsup('join with separator')
        t = SJOIN(self.t)
        ctx()._assume(BLEN(t) >= 0)
        return SBytes([('t', t, BLEN(t))])

    def __add__(self, o):
        if isinstance(o, list) and not is_sym(o):
            new = self.copy()
            for x in o:
                new.append(x)
            return new
        return NotImplemented

    def __iadd__(self, o):
        if isinstance(o, list) and not is_sym(o):
            for x in o:
                self.append(x)
            return self
        return NotImplemented

    def copy(self):
        return SSeq(self.vc, self.t, self.n)
    copy._vc_stub = True

    def __getitem__(self, i):
        if isinstance(i, slice) and i.start is None and i.stop is None and i.step is None:
            return self.copy()
        unsup('item of a sequence')

    def _vc_list(self):
        return self.copy()
    __hash__ = Sym.__hash__


class FileR:
    """ a file open for reading: content D[0:N] of a ghost stream """
    _vc_model = True

    def __init__(self, vc, stream, n, name='file'):
        self.vc, self.stream, self.N = vc, stream, n
        self.g = vc.obj(Ghost, name, pos=SInt(z3.IntVal(0)), closed=False)

    def __enter__(self):
        return self
    __enter__._vc_stub = True

    def close(self):
        self.g.closed = True
    close._vc_stub = True

    def __exit__(self, *a):
        self.g.closed = True
    __exit__._vc_stub = True

    def _end(self):
        p = self.g.pos.t
        return z3.If(p > self.N, p, self.N)

    def read(self, n=-1):
        vc = self.vc
        if self.g.closed is True:
            raise ValueError('read of closed file')
        p = self.g.pos.t
        t = z3.IntVal(-1) if n is None else it(n)
        if vc.branch(z3.Or(t < 0, p + t >= self.N)):
            if vc.branch(p >= self.N):
                return SBytes([])
            q = self.N
        else:
            q = z3.simplify(p + t)
        self.g.pos = SInt(q)
        return SBytes([('s', self.stream, p, q)])
    read._vc_stub = True

    def seek(self, off, whence=0):
        vc = self.vc
        base = {0: z3.IntVal(0), 1: self.g.pos.t, 2: self.N}[whence if not is_sym(whence) else unsup('seek whence')]
        q = z3.simplify(base + it(off))
        vc.need(q >= 0, OSError(22, 'Invalid argument') if whence else ValueError('negative seek value'))
        self.g.pos = SInt(q)
        return SInt(q)
    seek._vc_stub = True

    def tell(self):
        return SInt(self.g.pos.t)
    tell._vc_stub = True

    def __iter__(self):
        unsup('lines of a file')


class FileW:
    """ a file open for writing: what it holds is st.content """
    _vc_model = True

    def __init__(self, vc, st, append=False, can_fail=False):
        self.vc, self.st, self.can_fail = vc, st, can_fail
        self.closed = False

    def __enter__(self):
        return self
    __enter__._vc_stub = True

    def close(self):
        self.closed = True
    close._vc_stub = True

    def __exit__(self, *a):
        self.closed = True
    __exit__._vc_stub = True

    def write(self, b):
        x = SBytes.of(b)
        if x is None:
            raise TypeError('a bytes-like object is required')
        if self.closed:
            raise ValueError('write to closed file')
        if self.can_fail and self.vc.maybe('write fails'):
            self.st.failed = True
            raise OSError(28, 'No space left on device')
        self.st.content = self.st.content + x
        return SInt(x.length())
    write._vc_stub = True

    def flush(self):
        pass
    flush._vc_stub = True

    def seek(self, off, whence=0):
        if is_sym(off) or off != 0 or whence:
            unsup('seek in a file open for writing')
        self.at0 = True
    seek._vc_stub = True

    def truncate(self, size=None):
        if size is None and not getattr(self, 'at0', False) or size not in (None, 0):
            unsup('truncate')
        self.st.content = SBytes([])
    truncate._vc_stub = True


def stream_candidates(vc, lid, env, extra=(), skip=()):
    """ candidate invariants: a byte string is D[a:b] for bounds a, b among the
        ghost positions; positions are ordered """
    from .objects import attrs_of
    ints = {'0': z3.IntVal(0)}
    for n, t in extra:
        ints[n] = t
    bs, flags, ends = {}, [], []
    for o in vc.objs:
        nm = object.__getattribute__(o, '_vc_name')
        for a, v in attrs_of(o).items():
            if type(v) is SInt and object.__getattribute__(o, '_vc_cls') is Ghost and not nm.startswith(tuple(skip)):
                ints[f'{nm}.{a}'] = v.t
            elif type(v) is SBytes or type(v) is bytes:
                bs[f'{nm}.{a}'] = SBytes.of(v)
            elif type(v) in (bool, SBool) and object.__getattribute__(o, '_vc_cls') is Ghost:
                flags.append((f'not {nm}.{a}', neg(v) if type(v) is SBool else not v))
    for k, v in env.items():
        if type(v) is SBytes or type(v) is bytes:
            bs[k] = x = SBytes.of(v)
            # bytes that have been read but not yet passed on
            if len(x.segs) < 2 and (not x.segs or x.segs[0][0] == 's'):
                for n, t in list(ints.items()):
                    if n.endswith('.pos') or n == 'at':
                        if 'N' in ints:
                            ends.append((f'{k} is empty only at the end of {n}', z3.Implies(
                                x.segs[0][3] == x.segs[0][2] if x.segs else z3.BoolVal(True), t == ints['N'])))
                        ints[f'{n}-len({k})'] = t - (x.segs[0][3] - x.segs[0][2]) if x.segs else t
    out = flags + ends
    for o in vc.objs:
        at = attrs_of(o)
        if 'i' in at and 'stop' in at and type(at['i']) is SInt:
            out.append((object.__getattribute__(o, '_vc_name') + ' stays in range', SBool(at['i'].t <= at['stop'].t)))
    marks = []
    for o in vc.objs:
        at = attrs_of(o)
        if 'i' in at and 'mark' in at and type(at['i']) is SInt:
            nm = object.__getattribute__(o, '_vc_name')
            marks.append((f'after the element of {nm}', at['mark'].t < at['i'].t))
            marks.append((f'up to the element of {nm}', at['mark'].t >= at['i'].t))
            out.append((f'{nm} starts at the first', SBool(at['i'].t >= 0)))
    for n, x in bs.items():
        if len(x.segs) > 1 or x.segs and x.segs[0][0] != 's':
            continue
        lo, hi = (x.segs[0][2], x.segs[0][3]) if x.segs else (None, None)
        for a, ta in ints.items():
            for b, tb in ints.items():
                if lo is None:
                    f = z3.And(ta == tb)
                else:
                    f = z3.And(lo == ta, hi == tb)
                out.append((f'{n} == D[{a}:{b}]', SBool(f)))
                for w, m in marks:
                    if n.startswith('hash'):
                        out.append((f'{n} == D[{a}:{b}] {w}', SBool(z3.Implies(m, f))))
    for a, ta in ints.items():
        for b, tb in ints.items():
            if '-len(' in a + b and 'N' not in (a, b) and '0' not in (a, b):
                continue
            if a != b and (a != '0' or b != 'N'):
                out.append((f'{a} <= {b}', SBool(ta <= tb)))
    return out


class HashAlg:
    """ class standing for a hashlib constructor """


class SHash:
    """ a hash object: alg and the content fed so far """
    _vc_model = True

    def __init__(self, vc, alg, content=None, name=None):
        self.vc, self.alg = vc, alg
        self.g = vc.obj(Ghost, name or gname(vc, 'hash'), content=content or SBytes([]))

    def update(self, b):
        x = SBytes.of(b)
        if x is None:
            raise TypeError('object supporting the buffer API required')
        self.g.content = self.g.content + x
    update._vc_stub = True

    def digest(self):
        t = DIG(z3.IntVal(self.alg) if isinstance(self.alg, int) else self.alg, self.g.content.term())
        b = SBytes([('t', t, BLEN(t))])
        self.vc.assume(SBool(BLEN(t) >= 1))
        return b
    digest._vc_stub = True

    def copy(self):
        return SHash(self.vc, self.alg, self.g.content)
    copy._vc_stub = True


class SBytesIO:
    _vc_model = True

    def __init__(self, vc, initial=b''):
        self.vc = vc
        self.g = vc.obj(Ghost, gname(vc, 'bio'), rest=SBytes.of(initial))

    def read(self, n=-1):
        if n is None or (not is_sym(n) and n < 0):
            r = self.g.rest
            self.g.rest = SBytes([])
            return r
        t = it(n)
        if self.vc.branch(t < 0):
            r = self.g.rest
            self.g.rest = SBytes([])
            return r
        a, b = self.g.rest.split_at(t)
        self.g.rest = b
        return a
    read._vc_stub = True


def install(vc):
    vc.kind_makers['sbytes'] = fresh_sbytes
    vc.kind_makers['bytes'] = fresh_sbytes
    from .models import METHODS
    vc.method_models[bytes, 'join'] = m_bjoin


def m_bjoin(vc, sep, xs):
    f = getattr(type(xs), '_vc_join', None)
    if f is not None:
        return f(xs, sep)
    out = SBytes([])
    first = True
    for x in xs:
        b = SBytes.of(x)
        if b is None:
            raise TypeError('sequence item: expected a bytes-like object')
        if not first:
            out = out + sep
        out = out + b
        first = False
    return out
