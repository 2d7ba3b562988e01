"""Metadata of a local file describes the file as it is now."""
import hashlib
from datetime import datetime, timezone
from pyvc.api import *
from augpathlib import core as K
from augpathlib import meta as M
from augpathlib import utils as U
from augpathlib import exceptions as exc
from contracts import P03

ASSUMES = ['a change of a file changes its modification or status change time',
           'a file does not change between the stat and the checksum of one call',
           'stat reports the current state of the file']
FT = z3.Function('fromtimestamp', z3.RealSort(), z3.IntSort())
OCT = z3.Function('oct', z3.IntSort(), z3.DeclareSort('Val'))


class State:
    """ one state of the file on disk """

    def __init__(self, vc, n):
        self.n = n
        self.size, self.mode = vc.int('size', 0), vc.int('mode', 0)
        self.ino, self.uid, self.gid = vc.int('ino', 1), vc.int('uid', 0), vc.int('gid', 0)
        self.ctime, self.mtime = vc.real('ctime'), vc.real('mtime')
        self.st = vc.obj(U.StatResult, f'stat{n}', st_size=self.size, st_ino=self.ino, st_uid=self.uid, st_gid=self.gid,
                         st_mode=self.mode, st_ctime=self.ctime, st_mtime=self.mtime)
        self.sums = {}
        self.etags = []


def world(vc):
    P03.env(vc)

    def ft(t, tz=None):
        vc.prove('times are read as utc', tz is timezone.utc)
        return SInt(FT(SReal._t(t)), cls=datetime)
    vc.stubs[datetime.fromtimestamp] = ft
    vc.builtin_models = dict(vc.builtin_models)
    vc.builtin_models[oct] = lambda vc, x: vc_oct(vc, x)


def vc_oct(vc, x):
    a = vc.any('oct', str)
    vc._assume(a.t == OCT(it(x)))
    return a


def describes(vc, what, r, s, cyph, algo, wantsum, cs, p):
    vc.prove(f'{what}: a record', r.ok and isinstance(r.value, M.PathMeta))
    m = r.value
    vc.prove(f'{what}: size', m.size == s.size)
    vc.prove(f'{what}: created is the modification time', SBool(it(m.created) == FT(s.mtime.t)))
    vc.prove(f'{what}: updated is the status change time', SBool(it(m.updated) == FT(s.ctime.t)))
    vc.prove(f'{what}: file_id, owner and group', And(m.file_id == s.ino, m.user_id == s.uid, m.gid == s.gid))
    vc.prove(f'{what}: mode', SBool(m.mode.t == OCT(s.mode.t)))
    vc.prove(f'{what}: name, id and parent', m.name is p['name'] and m.id is p['id'] and m.parent_id is p['parent'])
    if wantsum:
        vc.prove(f'{what}: the checksum asked for', m.checksum is not None)
    if m.checksum is not None:
        vc.prove(f'{what}: the checksum is that of the file by the cypher of its cache class, which is named',
                 m.checksum is s.sums.get(cyph) and m.checksum_cypher == algo)
    if cs is not None:
        vc.prove(f'{what}: the etag asked for, with its chunk size', m.etag is not None and m.chunksize == cs)
    if m.etag is not None:
        e = [e for c, e in s.etags if e is m.etag]
        cc = [c for c, e in s.etags if e is m.etag]
        vc.prove(f'{what}: the etag is that of the file for the chunk size given', And(bool(e), m.chunksize == cc[0] if cc else False))


@contract('metadata of an existing file, twice', max_paths=20000)
def local_meta(vc):
    world(vc)
    s0, s1 = State(vc, 0), State(vc, 1)
    same = And(s0.ctime == s1.ctime, s0.mtime == s1.mtime)
    unchanged = bool(same)
    if unchanged:
        # nothing changed: the second state is the first one
        s1 = s0
    now = [s0]
    where = vc.choose(3, 'cache class: with cypher, with other cypher, none')
    cyph = (U.default_cypher, hashlib.sha256, U.default_cypher)[where]
    algo = {U.default_cypher: 'blake2b', hashlib.sha256: 'sha256'}[cyph]
    cc = None if where == 2 else vc.obj(K.EatPath, 'cc', stubs={'cypher': Prop(value=cyph)})
    p = {'name': textmod.text(vc, 'name'), 'id': textmod.text(vc, 'id'), 'parent': textmod.text(vc, 'parent')}

    broken = [False]

    def checksum(self, cypher=U.default_cypher):
        if broken[0]:
            raise PermissionError('cannot read')
        if cypher not in now[0].sums:
            now[0].sums[cypher] = vc.any('sum', bytes)
        return now[0].sums[cypher]

    def etag(self, c):
        e = vc.any('etag', tuple)
        now[0].etags.append((c, e))
        return e
    slow = vc.bool('stat fails, the command is used')

    def stat(self):
        if bool(slow):
            raise OSError('stat')
        return now[0].st
    o = vc.obj(K.LocalPath, 'p', stubs={
        'exists': lambda s: True, 'stat': stat, '_stat': lambda s: now[0].st, 'checksum': checksum, 'etag': etag,
        '_cache_class': Prop(value=cc), 'name': Prop(value=p['name']), 'id': Prop(value=p['id']),
        'parent_id': Prop(value=p['parent'])})

    def ask(label):
        how = vc.choose(3, label + ': meta, without checksum, with etag')
        if how == 0:
            return vc.attempt(K.LocalPath.meta.fget, o), True, None
        if how == 1:
            return vc.attempt(K.LocalPath.meta_no_checksum.fget, o), False, None
        cs = vc.int('chunksize', 1)
        wc = vc.maybe('with checksum')
        return vc.attempt(K.LocalPath._meta_maker, o, checksum=wc, chunksize=cs), wc, cs
    r, w, c = ask('first')
    describes(vc, 'first', r, s0, cyph, algo, w, c, p)
    now[0] = s1
    between = vc.choose(3, 'in between: nothing, asked, asked while unreadable')
    if between == 1:
        r, w, c = ask('between')
    elif between == 2:
        broken[0] = True
        r, w, c = ask('unreadable')
        broken[0] = False
        vc.prove('between: a failing read gives an error or metadata of the file as it is',
                 r.raised(PermissionError) or (r.ok and bool(r.value.size == s1.size)))
    r, w, c = ask('second')
    describes(vc, 'second', r, s1, cyph, algo, w, c, p)
    vc.cover('unchanged', unchanged)
    vc.cover('changed', not unchanged)


@contract('metadata of what does not exist')
def missing(vc):
    world(vc)
    name, posix, sysid = (textmod.text(vc, x) for x in ('name', 'posix', 'sysid'))
    rec = vc.obj(M.PathMeta, 'recorded', id=textmod.text(vc, 'rid'), size=vc.int('rsize', 0), name=textmod.text(vc, 'rname'))
    cache = vc.obj(K.EatPath, 'cache', stubs={'meta': Prop(value=rec), 'id': Prop(value=rec.id)}) if vc.maybe('has a cache') else None
    link = vc.maybe('a link to nowhere')
    o = vc.obj(K.LocalPath, 'p', stubs={'exists': lambda s: False, 'name': Prop(value=name), 'as_posix': lambda s: posix,
                                        'is_symlink': lambda s: link, 'is_broken_symlink': lambda s: link,
                                        'cache': Prop(value=cache), 'sysid': Prop(value=sysid)})
    r = vc.attempt(K.LocalPath.meta.fget, o)
    vc.prove('only the name and the id', r.ok and r.value.name is name and r.value.id == sysid + ':' + posix and
             And(True, *[getattr(r.value, f) is None for f in P03.FIELDS if f not in ('name', 'id', 'errors')]))


@contract('size')
def size(vc):
    s = State(vc, 0)
    slow = vc.bool('stat fails')

    def stat(self):
        if bool(slow):
            raise OSError('stat')
        return s.st
    o = vc.obj(K.LocalPath, 'p', stubs={'stat': stat, '_stat': lambda x: s.st})
    r = vc.attempt(K.LocalPath.size.fget, o)
    vc.prove('the size on disk', r.ok and r.value == s.size)


@contract('local metadata cannot be set')
def readonly(vc):
    o = vc.obj(K.LocalPath, 'p')
    r = vc.attempt(K.LocalPath.meta.fset, o, vc.any('m'))
    vc.prove('refused', r.raised(TypeError))


@contract('content_different')
def different(vc):
    has = vc.maybe('recorded checksum')
    csum = vc.any('recorded', bytes)
    vc.assume(Not(csum == b''))
    res = vc.bool('records differ')
    a, b = vc.any('local sum', bytes), vc.any('cache sum', bytes)
    cm = vc.obj(M.PathMeta, 'cm', stubs={'checksum': Prop(value=csum if has else None)})

    def cd(s, other):
        vc.prove('compared with the recorded metadata', other is cm)
        return res
    lm = vc.obj(M.PathMeta, 'lm', stubs={'content_different': cd})
    cache = vc.obj(K.EatPath, 'cache', stubs={'meta': Prop(value=cm), 'checksum': lambda s: b})
    o = vc.obj(K.LocalPath, 'p', stubs={'cache': Prop(value=cache), 'meta': Prop(value=lm), 'checksum': lambda s: a})
    r = vc.attempt(K.LocalPath.content_different, o)
    vc.prove('with a recorded checksum by the records, otherwise by the data of the cache', r.ok and
             Iff(r.value, res if has else Not(a == b)))
