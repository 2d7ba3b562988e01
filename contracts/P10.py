"""Local data: bytes read and written are exactly those of the file and the source."""
from pyvc.api import *
from pyvc import streams
from augpathlib import core as K
from augpathlib import meta as M
from augpathlib import exceptions as exc

ASSUMES = ['a file does not change while it is read', 'file.read(n) returns n bytes unless the end is reached',
           'file.write stores all bytes or raises; opening with mode wb truncates, with ab appends']
MOD = 'augpathlib.core'


def setup(vc, extra=None, skip=()):
    streams.install(vc)
    vc.cut_loops = True
    vc.candidates = lambda vc, lid, env: streams.stream_candidates(vc, lid, env, extra() if extra else (), skip)


def opener(vc, N, st, wst=None, **kw):
    def op(path, mode='r', *a, **k):
        vc.prove('the file opened is this one', path is st['path'])
        st['opened'] = st.get('opened', 0) + 1
        if mode == 'rb':
            f = FileR(vc, 1, N, f'file{st["opened"]}')
            st['file'] = f
            return f
        vc.prove('the mode is binary', mode in ('wb', 'ab'))
        if mode == 'wb':
            wst.content = SBytes([])
            wst.truncated = True
        return FileW(vc, wst, **kw)
    vc.modules[MOD] = {'open': model(op)}


def consume(vc, gen, out, each=None):
    for ch in gen:
        b = SBytes.of(ch)
        vc.prove('chunks are bytes', b is not None)
        if each is not None:
            each(b)
        out.content = out.content + b


def is_range(x, lo, hi):
    """ x is D[lo:hi] """
    s = x.segs
    if not s:
        return SBool(lo == hi)
    if len(s) > 1 or s[0][0] != 's' or s[0][1] != 1:
        return False
    return Or(And(SBool(s[0][2] == lo), SBool(s[0][3] == hi)), And(SBool(s[0][2] == s[0][3]), SBool(lo == hi)))


@contract('data of a file')
def data(vc):
    N = vc.int('size', 0)
    setup(vc, lambda: [('N', N.t)])
    cs = vc.int('chunksize', 1)
    p = vc.obj(K.LocalPath, 'p', stubs={'chunksize': Prop(value=cs)})
    st = {'path': p}
    opener(vc, N.t, st)
    out = vc.obj(Ghost, 'out', content=SBytes([]))

    def each(b):
        vc.prove('no empty chunk', b._vc_len() > 0)
        vc.prove('no chunk is longer than the chunk size', b._vc_len() <= cs)
    consume(vc, vc.call(K.LocalPath.data.fget, p), out, each)
    vc.prove('all the data, in order, once', is_range(out.content, z3.IntVal(0), N.t))
    vc.cover('end')


class Ranges:
    """ any number of ranges; what is read for each is checked before the next """
    _vc_model = True

    def __init__(self, vc, N, out):
        self.vc, self.N, self.out = vc, N, out
        self.g = vc.obj(Ghost, 'ranges', a=SInt(z3.IntVal(0)), b=SInt(z3.IntVal(0)))

    def __bool__(self):
        return True

    def _vc_iter(self):
        return self

    def check(self):
        self.vc.prove('what is read is the range', is_range(self.out.content, self.g.a.t, self.g.b.t))

    def has_next(self):
        self.check()
        return self.vc.maybe('another range')

    def next(self):
        vc, N = self.vc, self.N
        self.out.content = SBytes([])
        s = vc.int('start')
        neg = vc.branch(s.t < 0)
        lo = z3.simplify(N + s.t) if neg else s.t
        if neg:
            vc.assume(SBool(lo >= 0))
        if vc.maybe('open range'):
            e, hi = None, N
        else:
            e = vc.int('stop')
            vc.assume(e >= s)
            if neg:
                vc.assume(e <= 0)
            hi = z3.simplify(N + e.t) if neg else e.t
        self.g.a = SInt(z3.If(lo > N, N, lo))
        self.g.b = SInt(z3.If(hi > N, N, hi))
        return (s, e)


@contract('ranges of a file')
def ranges(vc):
    N = vc.int('size', 0)
    out = vc.obj(Ghost, 'out', content=SBytes([]))
    own = vc.int('class chunksize', 1)
    p = vc.obj(K.LocalPath, 'p', stubs={'chunksize': Prop(value=own)})
    st = {'path': p}
    opener(vc, N.t, st)
    cs = None if vc.maybe('default chunk size') else vc.int('chunksize', 1)
    c = own if cs is None else cs
    rs = None

    def extra():
        e = [('N', N.t)]
        if 'file' in st:
            e.append(('at', z3.If(st['file'].g.pos.t > N.t, N.t, st['file'].g.pos.t)))
        if rs is not None:
            for o in vc.objs:
                if object.__getattribute__(o, '_vc_name') == 'range0' or object.__getattribute__(o, '_vc_name').startswith('range') \
                        and 'i' in attrs_of(o):
                    q = rs.g.a.t + o.i.t * c.t
                    e.append(('progress', z3.If(q > N.t, N.t, q)))
        return e
    setup(vc, extra, ('file', 'range0', 'range1', 'range2'))
    base = vc.candidates

    def cands(vc, lid, env):
        yield from base(vc, lid, env)
        if 'file' not in st:
            return
        # how much is still to be read
        pos = st['file'].g.pos.t
        vs = [(n, v) for n, v in env.items() if type(v) in (SInt, int)]
        for n, v in vs:
            yield f'0 <= {n}', v >= 0
            yield f'pos + {n} is the end of the range', SBool(z3.If(pos + it(v) > N.t, N.t, pos + it(v)) == rs.g.b.t)
    vc.candidates = cands
    rs = Ranges(vc, N.t, out)
    whole = vc.maybe('no ranges')
    consume(vc, vc.call(K.LocalPath._data, p, *(() if whole else (rs,)), **({} if cs is None else {'chunksize': cs})), out)
    if whole:
        vc.prove('without ranges all the data', is_range(out.content, z3.IntVal(0), N.t))
    else:
        rs.check()
    vc.cover('whole' if whole else 'ranges')


def old_content(vc):
    t = z3.Const('OLD', streams.B)
    n = z3.Int('old_len')
    vc._assume(n >= 1)
    return SBytes([('t', t, n)])


class Boom(Exception):
    pass


def writer(name):
    @contract(f'writing data ({name})')
    def write(vc):
        N = vc.int('total', 0)
        setup(vc, lambda: [('N', N.t)])
        src = ChunkIter(vc, 1, N.t, 'src', can_raise=Boom, nonempty=False)
        old = old_content(vc)
        disk = vc.obj(Ghost, 'disk', content=old, failed=False)
        p = vc.obj(K.LocalPath, 'p')
        st = {'path': p}
        opener(vc, N.t, st, disk, can_fail=True)
        f = K.LocalPath.__dict__.get(name)
        if f is None:
            vc.unsupported(f'LocalPath.{name} is gone')
        r = vc.attempt(f, p, src)
        if r.ok:
            vc.prove('exactly the data of the source is stored', is_range(disk.content, z3.IntVal(0), N.t))
            vc.prove('a failure is not swallowed', not src.g.failed and not disk.failed)
            vc.cover('written')
        elif isinstance(r.exc, Boom):
            if not st.get('opened'):
                vc.prove('a source that fails at once leaves the file alone', disk.content is old)
                vc.cover('fails at once')
            else:
                vc.prove('what was read is stored', is_range(disk.content, z3.IntVal(0), src.g.pos.t))
                vc.cover('fails later')
        else:
            vc.prove('a failing write is reported', And(disk.failed, isinstance(r.exc, OSError)))
            vc.cover('write fails')


for _n in ('_write_chunks_posix', '_write_chunks_ntfs'):
    writer(_n)


@contract('the writer in use is one of those proved')
def in_use(vc):
    vc.prove('known writer', any(K.LocalPath._write_chunks is K.LocalPath.__dict__.get(n)
                                 for n in ('_write_chunks_posix', '_write_chunks_ntfs')))


@contract('data setter as a filter')
def chain(vc):
    N = vc.int('total', 0)
    setup(vc, lambda: [('N', N.t)])
    src = ChunkIter(vc, 1, N.t, 'src', can_raise=Boom, nonempty=False)
    old = old_content(vc)
    append = vc.maybe('append')
    disk = vc.obj(Ghost, 'disk', content=SBytes([]) if append else old, failed=False)
    p = vc.obj(K.LocalPath, 'p')
    st = {'path': p}
    opener(vc, N.t, st, disk)
    out = vc.obj(Ghost, 'out', content=SBytes([]))
    r = vc.attempt(model(lambda: consume(vc, vc.call(K.LocalPath._data_setter, p, src, **({'append': True} if append else {})), out)))
    if r.ok:
        vc.prove('all the data is passed on', is_range(out.content, z3.IntVal(0), N.t))
        vc.prove('all the data is stored (after what is there if appending)', is_range(disk.content, z3.IntVal(0), N.t))
        vc.cover('done')
    else:
        vc.prove('only the failure of the source', isinstance(r.exc, Boom) and bool(src.g.failed))
        vc.prove('a source that fails at once leaves the file alone', bool(st.get('opened')) or disk.content is old or append)
        vc.prove('nothing is passed on that is not stored', not st.get('opened') or
                 And(is_range(out.content, z3.IntVal(0), src.g.pos.t), is_range(disk.content, z3.IntVal(0), src.g.pos.t)))
        vc.cover('source fails')


@contract('data setter')
def setter(vc):
    st = {'written': [], 'meta': []}
    src = vc.any('source')
    has = vc.maybe('has a cache')
    m = vc.obj(M.PathMeta, 'metadata', stubs={'__bool__': lambda s: True})
    lost = vc.bool('metadata lost by the write')
    fails = vc.maybe('write fails')
    boom = Boom()

    def meta(s):
        if st['meta']:
            return st['meta'][-1]
        return None if st['written'] and bool(lost) else m

    def setm(s, v):
        vc.prove('the metadata restored is that from before the write', v is m)
        st['meta'].append(v)
    cache = vc.obj(K.EatPath, 'cache', stubs={'meta': Prop(get=meta, set=setm)}) if has else None

    def write(s, g):
        vc.prove('the data written is the data given', g is src)
        st['written'].append(g)
        if fails:
            raise boom
    p = vc.obj(K.LocalPath, 'p', stubs={'cache': Prop(get=lambda s: cache), '_write_chunks': write, '__repr__': lambda s: 'p'})
    r = vc.attempt(K.LocalPath.data.fset, p, src)
    if fails:
        vc.prove('a failing write is reported', r.raised(Boom))
        return
    vc.prove('written', r.ok)
    vc.prove('the data is written once', len(st['written']) == 1)
    if has:
        vc.prove('metadata lost by the write is restored', Iff(len(st['meta']) == 1, lost))
    vc.cover('written')


def copier(cls):
    @contract(f'copy_to of {cls.__name__}')
    def copy(vc):
        st = {'log': []}
        ex, ln, same, sex = vc.bool('target exists'), vc.bool('target is a link'), vc.bool('same file'), vc.bool('source exists')
        force = vc.maybe('force')
        withmeta = cls is K.LocalPath and vc.maybe('copy metadata')
        m, src = vc.any('meta'), vc.any('data')
        vc.assume(Implies(same, And(ex, sex)))
        other = vc.maybe('target of another class')

        def setd(s, v):
            vc.prove('the data stored is that of the source', v is src)
            st['log'].append('data')
        tst = {'exists': lambda s: ex, 'is_symlink': lambda s: ln, 'samefile': lambda s, o: same, 'as_posix': lambda s: 't',
               'data': Prop(set=setd), 'cache_init': lambda s, x: st['log'].append(('meta', x is m)),
               '__repr__': lambda s: 't', '__str__': lambda s: 't'}
        t = vc.obj(cls, 't', stubs=tst)
        given = t
        if other:
            given = vc.obj(K.AugmentedPath if cls is K.LocalPath else K.EatPath, 'given', stubs=dict(tst, data=Prop(set=lambda s, v: st['log'].append('given'))))
            vc.class_models[cls] = model(lambda x: t if x is given else vc.unsupported('path of something else'))
        cache = vc.obj(K.EatPath, 'cache', stubs={'meta': Prop(value=m)})
        p = vc.obj(cls, 'p', stubs={'exists': lambda s: sex, 'data': Prop(get=lambda s: src), 'cache': Prop(value=cache),
                                    '__repr__': lambda s: 'p', '__str__': lambda s: 'p', 'samefile': lambda s, o: same})
        import shutil

        def copy2(a, b, *x, **k):
            vc.prove('the copy is of this file to the target', a is p and (b is given or b is t))
            if bool(same):
                raise shutil.SameFileError('same')
            st['log'].append('data')
        vc.stubs[shutil.copy2] = copy2
        kw = {'copy_cache_meta': True} if withmeta else {}
        r = vc.attempt(cls.copy_to, p, given, **kw, **({'force': True} if force else {}))
        if not force and bool(Or(ex, ln)):
            vc.prove('something that exists is not overwritten unless forced', r.raised(exc.PathExistsError) and not st['log'])
            vc.cover('exists')
        elif bool(same):
            vc.prove('a file is not copied onto itself', r.raised(shutil.SameFileError) and not st['log'])
            vc.cover('same')
        else:
            vc.prove('otherwise the data is copied, once', r.ok and st['log'][:1] == ['data'])
            vc.prove('and its metadata if asked for', st['log'][1:] == ([('meta', True)] if withmeta else []))
            vc.cover('copied')


for _c in (K.AugmentedPath, K.LocalPath):
    copier(_c)


@contract('copy_from, copy_infrom and copy_outto')
def copies(vc):
    st = {'log': []}
    isdir = vc.bool('is a directory')
    force = vc.maybe('force')
    name = vc.str('name')

    def mk(cls, n, **more):
        def copy_to(s, t, **k):
            st['log'].append((s, t, k.get('force', False), k.get('copy_cache_meta', False)))
            return None
        return vc.obj(cls, n, stubs={'copy_to': copy_to, 'is_dir': lambda s: isdir, 'name': Prop(get=lambda s: name),
                                     '__truediv__': lambda s, o: child if s is d and o is name else vc.unsupported('child'),
                                     '__repr__': lambda s: n, '__str__': lambda s: n, **more})
    cls = (K.AugmentedPath, K.LocalPath)[vc.choose(2, 'class')]
    a, d, child = mk(cls, 'a'), mk(cls, 'd'), mk(cls, 'child')
    fk = {'force': True} if force else {}
    how = vc.choose(3, 'how')
    if how == 0:
        wm = cls is K.LocalPath and vc.maybe('copy metadata')
        r = vc.attempt(cls.copy_from, d, a, **fk, **({'copy_cache_meta': True} if wm else {}))
        vc.prove('copy_from is copy_to of the source', r.ok and st['log'] == [(a, d, force, wm)])
        return
    r = vc.attempt(cls.copy_outto, a, d, **fk) if how == 1 else vc.attempt(cls.copy_infrom, d, a, **fk)
    if not bool(isdir):
        vc.prove('only into a directory', r.raised(NotADirectoryError) and not st['log'])
        return
    vc.prove('copied to the same name in the directory, which is returned',
             r.ok and r.value is child and [(x is a, y is child, f, m) for x, y, f, m in st['log']] == [(True, True, force, False)])
    vc.cover('copied')
