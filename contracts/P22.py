"""Paths into a zip file: exactly its members and the directories they are in."""
import zipfile
from pyvc.api import *
from augpathlib import zip as Z
from contracts.P29 import Entries
from contracts import P10

ASSUMES = ['zipfile reads members as they are, each open file on its own; is_zipfile tells whether a path is a zip file',
           'the zip file does not change while it is looked at',
           'what is done to each of the members of a zip file while the table is made is done to an arbitrary one, next to another and an older one of its name; '
           'a path made from a ZipInfo, or a name, is the path of that name and knows the ZipInfo']
ZI, ZH = Z.ZipInternalPath, Z.ZipHelper


class Boom(Exception):
    pass


class Table(dict):
    """ the members and their directories """
    _vc_model = True

    def __init__(self, w):
        self.w = w

    def __contains__(self, x):
        if x is not self.w.p:
            unsup('another path in the table')
        return self.w.there

    def get(self, x, d=None):
        return x if x in self else d

    def __getitem__(self, x):
        if x in self:
            return x
        raise KeyError(x)

    def _vc_iter(self):
        return Entries(self.w, self.w.entry)

    def keys(self):
        return self._vc_iter()
    values = keys

    def _vc_map(self, kind, f):
        return self._vc_iter()._vc_map(kind, f)

    def _no(self, *a, **k):
        unsup('use of the table of members')
    __iter__ = items = __len__ = __eq__ = _no
    __hash__ = object.__hash__
    for n in ('get', 'keys', 'values'):
        locals()[n]._vc_stub = True


class World:
    def __init__(self, vc):
        w = self
        self.vc = vc
        self.there = vc.maybe('there')
        self.kind = vc.choose(3, 'file, directory with an entry, directory without')
        self.got = []
        self.p = p = vc.obj(ZI, 'p', stubs={'__str__': lambda s: 'p', '__eq__': lambda s, o: s is o, '__ne__': lambda s, o: s is not o, '__hash__': lambda s: 1})
        attrs_of(p)['_paths'] = Table(w)
        if self.there and self.kind < 2:
            self.zi = vc.obj(zipfile.ZipInfo, 'zi', stubs={'is_dir': lambda s: w.kind == 1},
                             file_size=vc.int('size', 0), compress_size=vc.int('compressed', 0), CRC=vc.int('crc', 0), flag_bits=vc.int('flags', 0))
            attrs_of(p)['_zi'] = self.zi
        self.opened = []
        self.fails = vc.maybe('opening fails')
        self.boom = Boom('injected')

        def opn(s, zi, *a, **k):
            vc.prove('the member itself is opened', zi is w.zi)
            if w.fails:
                raise w.boom
            w.opened.append((a, k))
            return w.file
        self.file = vc.any('file')
        attrs_of(p)['zip_file'] = vc.obj(zipfile.ZipFile, 'zf', stubs={'open': opn})


@contract('is_dir, exists')
def is_dir(vc):
    w = World(vc)
    r = vc.attempt(ZI.is_dir, w.p)
    vc.prove('a directory exactly when it is there and not a member that is a file', r.ok and bool(r.value) is (w.there and w.kind > 0))
    r = vc.attempt(ZI.exists, w.p)
    vc.prove('there exactly when it is in the table', r.ok and bool(r.value) is w.there)
    vc.cover('end')


@contract('open')
def opn(vc):
    w = World(vc)
    args = ((), ('r',))[vc.choose(2, 'mode')]
    r = vc.attempt(ZI.open, w.p, *args)
    if not w.there:
        vc.prove('what is not there is reported as such', r.raised(FileNotFoundError) and not w.opened)
        vc.cover('not there')
    elif w.kind:
        vc.prove('a directory is reported as such', r.raised(IsADirectoryError) and not w.opened)
        vc.cover('directory')
    elif w.fails:
        vc.prove('a failure is raised', r.exc is w.boom)
    else:
        vc.prove('the open member', r.ok and r.value is w.file and w.opened == [(args, {})])
        vc.cover('open')


@contract('data')
def data(vc):
    N = vc.int('length', 0)
    P10.setup(vc, lambda: [('N', N.t)])
    w = World(vc)
    f = FileR(vc, 1, N.t, 'member')
    other = vc.obj(zipfile.ZipFile, 'another open member', stubs={'close': lambda s: vc.prove('no other file is closed', False)})
    missing = FileNotFoundError(2, 'x')
    isdir = IsADirectoryError('x')
    bad = missing if not w.there else isdir if w.kind else w.boom if w.fails else None

    def opn(s, *a, **k):
        # another reader of the same member follows
        attrs_of(s)['_ZipInternalPath__fd'] = other
        vc.prove('opened for reading', a in ((), ('r',)) and not k)
        if bad is not None:
            raise bad
        return f
    cs = vc.int('chunksize', 1)
    w.p._vc_stubs['open'] = opn
    w.p._vc_stubs['chunksize'] = Prop(value=cs)
    out = vc.obj(Ghost, 'out', content=SBytes([]))
    r = vc.attempt(lambda: P10.consume(vc, vc.call(ZI.data.fget, w.p), out))
    if bad is not None:
        vc.prove('a failure to open is raised as it is', r.exc is bad)
        vc.cover('failed')
        return
    vc.prove('reading ends, and closes its file', r.ok and f.g.closed is True)
    vc.prove('all of the member, in order, once', P10.is_range(out.content, z3.IntVal(0), N.t))
    vc.cover('end')


class Listing(World):
    deep = False

    def entry(self):
        """ a path of the table: the listed one, one directly in it, one further below, another """
        vc, w = self.vc, self
        self.where = vc.choose(4, 'itself, in it, below it, elsewhere')
        self.mark = len(self.got)
        if self.where == 0:
            self.cur = self.p
            return self.p
        mid = vc.obj(ZI, 'mid')
        up = self.p if self.where == 1 else mid
        parents = {1: (self.p, w.above), 2: (mid, mid, mid, mid, self.p, w.above), 3: (mid, w.above)}[self.where]
        self.cur = vc.obj(ZI, 'x', stubs={'parent': Prop(value=up), 'parents': Prop(value=parents), '__eq__': lambda s, o: s is o,
                                         '__ne__': lambda s, o: s is not o})
        return self.cur

    def judge(self, x):
        out = self.got[self.mark:]
        want = self.where in ((1, 2) if self.deep else (1,))
        self.vc.prove('exactly what is in it, once', [id(o) for o in out] == ([id(x)] if want else []))
        self.vc.cover('in' if want else 'out')


def listing(vc, name, deep):
    w = Listing(vc)
    w.deep = deep
    w.above = vc.obj(ZI, 'above')
    root = vc.maybe('the root')
    w.p._vc_stubs['parent'] = Prop(value=w.p if root else w.above)
    w.p._vc_stubs['parents'] = Prop(value=() if root else (w.above,))

    def consume():
        for x in vc.call(ZI.__dict__[name].fget, w.p):
            w.got.append(x)
    r = vc.attempt(consume)
    vc.prove('listing does not fail', r.ok)


@contract('children')
def children(vc):
    listing(vc, 'children', False)


@contract('rchildren')
def rchildren(vc):
    listing(vc, 'rchildren', True)


HC = type('HC', (Z.ZipHelper, Z.AugmentedPath), {})


@contract('zip_path')
def zip_path(vc):
    iszip = vc.maybe('a zip file')
    top = vc.maybe('has no directory above')
    upz = vc.choose(2, 'above: no zip file, one') and not top
    zf = vc.obj(HC, 'zf')
    up = vc.obj(HC, 'up', stubs={'zip_path': Prop(value=zf if upz else None), '__eq__': lambda s, o: s is o, '__ne__': lambda s, o: s is not o})
    suffix = ('.zip', '.txt', '')[vc.choose(3, 'suffix')]
    p = vc.obj(HC, 'p', stubs={'suffix': Prop(value=suffix), '__eq__': lambda s, o: s is o, '__ne__': lambda s, o: s is not o,
                               'ZipInternalPath': Prop(value=model(lambda *a, **k: None)), 'is_file': lambda s: iszip, 'exists': lambda s: iszip})
    p._vc_stubs['parent'] = Prop(value=p if top else up)
    if top:
        vc._assume(z3.BoolVal(not iszip))
    if upz:
        vc._assume(z3.BoolVal(not iszip))      # there is no file in a file

    def is_zipfile(x):
        vc.prove('this is the file in question', x is p)
        return iszip
    vc.stubs[zipfile.is_zipfile] = is_zipfile
    for i in range(2):
        r = vc.attempt(ZH.zip_path.fget, p)
        vc.prove('the zip file is the path itself or the one above it, if any', r.ok and r.value is (p if iszip else zf if upz else None))
    vc.cover('end')


@contract('the internal path of a path')
def internal(vc):
    inz = vc.maybe('in a zip file')
    known = vc.maybe('looked at before')
    rel = vc.any('relative')
    az = vc.obj(HC, 'absolute', stubs={'__hash__': lambda s: 7, '__eq__': lambda s, o: s is o})
    zf = vc.obj(HC, 'zf', stubs={'absolute': lambda s: az, 'resolve': lambda s: az, '__hash__': lambda s: 8, '__eq__': lambda s, o: s is o})
    made = []
    ip = vc.any('internal')

    def ctor(*a, **k):
        vc.prove('the internal path is relative to the zip file', a == (rel,))
        return ip
    old, new, stale = model(ctor), model(ctor), model(lambda *a, **k: vc.prove('of the file that had that relative name before', False))

    def _new(cls, z):
        vc.prove('the table of the zip file', z is zf or z is az)
        made.append(z)
        return new
    vc.stubs[ZI._new.__func__] = _new
    cache = {}
    # where paths of another working directory may have been
    cache[zf] = stale
    if known:
        cache[az] = old
    p = vc.obj(HC, 'p', stubs={'zip_path': Prop(value=zf if inz else None), 'relative_to': lambda s, o: rel if o is zf else unsup('relative to'),
                               'absolute': lambda s: unsup('absolute')})
    attrs_of(p)['_zfc_cache'] = cache
    for i in range(2):
        r = vc.attempt(ZH.zip_relative_path.fget, p)
        vc.prove('the internal path, or none', r.ok and r.value is (ip if inz else None))
    vc.prove('the table is made once', len(made) == int(inz and not known))
    vc.cover('in' if inz else 'out')


@contract('ZipHelper: exists, open, rchildren')
def helper(vc):
    inz = vc.maybe('in a zip file')
    there = vc.maybe('there')
    boom = Boom('injected')
    fails = vc.maybe('fails')
    f = vc.any('file')
    args = ((), ('rb',))[vc.choose(2, 'mode')]

    def opn(s, *a, **k):
        vc.prove('opened as asked for', a == args and not k)
        if fails:
            raise boom
        return f
    kids = [vc.any(f'kid{i}') for i in range(vc.choose(3, 'below'))]
    full = {id(k): vc.any('full') for k in kids}
    ip = vc.obj(ZI, 'ip', stubs={'exists': lambda s: there, 'open': opn, 'rchildren': Prop(get=lambda s: iter(kids))})
    zf = vc.obj(HC, 'zf', stubs={'__truediv__': lambda s, o: full[id(o)]})
    ext = type('Ext', (Z.AugmentedPath,), {'exists': lambda s: unsup(''), 'open': lambda s: unsup(''), 'rchildren': property(lambda s: unsup(''))})
    H2 = type('H2', (Z.ZipHelper, ext), {})
    vc.stubs[ext.exists] = lambda s: there
    vc.stubs[ext.open] = opn
    vc.stubs[ext.rchildren.fget] = lambda s: iter(kids)
    p = vc.obj(H2, 'p', stubs={'zip_path': Prop(value=zf if inz else None), 'zip_relative_path': Prop(value=ip if inz else None),
                               'path_relative_zip': Prop(value=ip if inz else None)})
    r = vc.attempt(ZH.exists, p)
    vc.prove('there exactly when the member, or the file, is', r.ok and bool(r.value) is there)
    r = vc.attempt(ZH.open, p, *args)
    vc.prove('the member, or the file, is opened', r.exc is boom if fails else r.ok and r.value is f)
    r = vc.attempt(lambda: list(vc.call(ZH.rchildren.fget, p)))
    vc.prove('the members below, as paths into the zip file', r.ok and len(r.value) == len(kids) and all(
        x is (full[id(k)] if inz else k) for x, k in zip(r.value, kids)))
    vc.cover('in' if inz else 'out')


class Path:
    """ a path made while the table is built, `what` says of which it is """
    _vc_model = True

    def __init__(self, w, what, info=None, above=()):
        self.w, self.what, self.info, self.above = w, what, info, tuple(above)

    @property
    def parents(self):
        return Fam(self.w, self.above)

    def _same(self, o):
        return self.what == o.what


class Fam:
    """ a set or sequence of which the elements known are arbitrary ones: what is done to it is done to each element """
    _vc_model = True

    def __init__(self, w, reps, isset=False):
        self.w, self.reps, self.isset = w, list(reps), isset

    def _vc_set(self):
        out = []
        for x in self.reps:
            if not any(x is y or type(x) is Path and type(y) is Path and x._same(y) for y in out):
                out.append(x)
        return Fam(self.w, out, True)

    def _vc_map(self, kind, f):
        out = [y for x in self.reps for y in f(x)]
        if kind == 'dict':
            return Tbl(self.w, out)
        r = Fam(self.w, out)
        return r._vc_set() if kind == 'set' else r

    def _vc_list(self):
        return Fam(self.w, self.reps)
    _vc_tuple = _vc_list

    def _vc_iter_all(self):
        return list(self.reps)

    def __or__(self, o):
        if type(o) in (VSet, set, frozenset):
            o = Fam(self.w, list(o))
        if type(o) is not Fam:
            unsup('| with something')
        return Fam(self.w, self.reps + o.reps)._vc_set()

    def __ror__(self, o):
        if type(o) not in (VSet, set, frozenset):
            unsup('| with something')
        return Fam(self.w, list(o) + self.reps)._vc_set()

    def union(self, *os):
        r = self
        for o in os:
            r = r | o
        return r

    def __iter__(self):
        # (only as the inner loop of a comprehension: each element in turn)
        return iter(self.reps)

    def _no(self, *a, **k):
        unsup('use of the members')
    __len__ = __bool__ = __contains__ = __eq__ = __getitem__ = pop = _no
    __hash__ = object.__hash__
    union._vc_stub = True


class Tbl:
    """ the dict that was made """
    _vc_model = True

    def __init__(self, w, pairs):
        self.w, self.pairs = w, []
        for k, v in pairs:
            for i, (a, b) in enumerate(self.pairs):
                if a._same(k):
                    self.pairs[i] = (a, v)      # (a dict keeps the first key)
                    break
            else:
                self.pairs.append((k, v))


@contract('the table of a zip file')
def table(vc):
    class W:
        pass
    w = W()
    w.fam = None
    isdir = vc.maybe('an explicit directory')
    inner = isdir and vc.maybe('the other is in it')
    zi = vc.obj(zipfile.ZipInfo, 'zi', stubs={'is_dir': lambda s: isdir}, filename='one/it/' if isdir else 'one/it')
    zj = vc.obj(zipfile.ZipInfo, 'zj', stubs={'is_dir': lambda s: False}, filename='one/it/x' if inner else 'two/it')
    zold = vc.obj(zipfile.ZipInfo, 'older', stubs={'is_dir': lambda s: isdir}, filename=zi.filename)
    older = vc.maybe('there is an older member of the same name')
    zf = vc.any('zip file')
    boom = Boom('not a zip file')
    bad = vc.maybe('cannot be opened')
    names = {'one/it/': zi, 'one/it': zi}

    class Names:
        """ the last member of each name """
        _vc_model = True

        def values(self):
            return Fam(w, [zi, zj])

        def keys(self):
            return Fam(w, [zi.filename, zj.filename])

        def items(self):
            return Fam(w, [(zi.filename, zi), (zj.filename, zj)])

        def _no(self, *a):
            unsup('use of the names')
        __len__ = __iter__ = __getitem__ = __contains__ = __eq__ = _no
        for n in ('values', 'keys', 'items'):
            locals()[n]._vc_stub = True
    zfile = vc.obj(zipfile.ZipFile, 'zf', stubs={
        'NameToInfo': Prop(value=Names()), 'infolist': lambda s: Fam(w, ([zold] if older else []) + [zi, zj]),
        'filelist': Prop(get=lambda s: Fam(w, ([zold] if older else []) + [zi, zj])),
        'getinfo': lambda s, n: {zi.filename: zi, zj.filename: zj}[n],
        'namelist': lambda s: Fam(w, ([zold.filename] if older else []) + [zi.filename, zj.filename])})

    def opened(*a, **k):
        vc.prove('the zip file is the one asked for', a == (zf,) and not k)
        if bad:
            raise boom
        return zfile
    vc.class_models[zipfile.ZipFile] = opened

    def trail(fn):
        parts = [x for x in fn.split('/') if x]
        ups = [Path(w, tuple(parts[:i])) for i in range(len(parts) - 1, -1, -1)]
        return tuple(parts), ups

    class Made:
        """ the class made for the zip file """
        _vc_model = True

        def __init__(self, bases, ns):
            self.bases, self.ns = bases, dict(ns)
            self.bound = 0

        def _bind_flavours(self):
            self.bound += 1

        def __call__(self, *a, info=None):
            if '_paths' in self.__dict__:
                unsup('a path made after the table')
            if info is not None and not a:
                what, ups = trail(info.filename)
                return Path(w, what, info, ups)
            if len(a) == 1 and isinstance(a[0], str) and not is_sym(a[0]):
                what, ups = trail(a[0])
                return Path(w, what, info, ups)
            if not a:
                return Path(w, ())
            unsup('a path of something')

        @property
        def zip_file(self):
            return self.ns['zip_file']
        _bind_flavours._vc_stub = True
    made = []

    def m_type(*a):
        if len(a) == 3:
            made.append(Made(a[1], a[2]))
            return made[-1]
        return vc.call(type, *a)
    vc.modules['augpathlib.zip'] = {'type': model(m_type)}
    r = vc.attempt(ZI._new.__func__, ZI, zf)
    if bad:
        vc.prove('a failure to open is raised', r.exc is boom)
        return
    vc.prove('a class of its own', r.ok and len(made) == 1 and r.value is made[0] and made[0].bases == (ZI,) and made[0].zip_file is zfile)
    t = made[0].__dict__.get('_paths')
    vc.prove('it has a table', type(t) is Tbl)
    find = {k.what: v for k, v in t.pairs}
    vc.prove('every path is kept once, as itself', all(k is v or k._same(v) for k, v in t.pairs))
    me = trail(zi.filename)[0]
    got = find.get(me)
    vc.prove('every member is there, with the last information about that name', got is not None and
             (got.info is zi or isdir and got.info is None))
    for x in (zi, zj):
        for u in trail(x.filename)[1]:
            vc.prove('so are the directories it is in', u.what in find)
    vc.prove('and the root', () in find)
    vc.prove('nothing else is', set(find) == {()} | {u.what for x in (zi, zj) for u in trail(x.filename)[1]} | {trail(x.filename)[0] for x in (zi, zj)})
    vc.cover('end')


@contract('a path of a zip file')
def new(vc):
    known = vc.maybe('in the table')
    how = vc.choose(3, 'made from: a name, a ZipInfo, a name and a ZipInfo')
    have = vc.obj(ZI, 'have')
    me = vc.obj(ZI, 'me')
    made = []

    class T:
        _vc_model = True

        def __contains__(self, x):
            vc.prove('the path itself is looked for, once it knows its name', x is me and made[-1:] == ['init'])
            return known

        def __getitem__(self, x):
            if x in self:
                return have
            raise KeyError(x)

        def get(self, x, d=None):
            return have if x in self else d
        get._vc_stub = True
    K_ = type('K_', (ZI,), {'_paths': T()})

    def new_(cls, *a, **k):
        vc.prove('a path of the same class', cls is K_)
        made.append(a)
        return me

    def init_(s, *a):
        vc.prove('it is told its name', s is me and a == made[0])
        made.append('init')
    base = super(ZI, K_)
    vc.stubs[base.__new__] = new_
    vc.stubs[base.__init__] = init_
    zi = vc.obj(zipfile.ZipInfo, 'zi', filename='from/zi')
    a = ('a/name',) if how != 1 else ()
    kw = {'info': zi} if how else {}
    r = vc.attempt(ZI.__new__, K_, *a, **kw)
    vc.prove('its name is the one given, or that of the ZipInfo', made[0] == (a or ('from/zi',)))
    if known:
        vc.prove('there is only one of each path', r.ok and r.value is have and '_zi' not in attrs_of(have))
    else:
        vc.prove('a new path knows its ZipInfo, if any', r.ok and r.value is me and attrs_of(me).get('_zi') is (zi if how else None))
    vc.cover('end')
