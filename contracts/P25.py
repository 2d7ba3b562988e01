"""A path on a remote machine reached by ssh: what is sent is a command with the name as one word,
what comes back is read as what it is."""
import shlex
import subprocess
from pyvc.api import *
from contracts import P10
from augpathlib import remotes as R
from augpathlib import utils as U
from augpathlib import exceptions as exc

ASSUMES = ['shlex.quote gives one word of the shell that is the text; names have no line break',
           'pxssh: before is the echo of the command, a line end, and the output once the prompt is there; prompt(timeout=None) waits for it',
           'stat -c prints its fields with two blanks between them; only the name can contain two blanks',
           'exit status of ssh is that of the remote command, or its own failure']
MOD = 'augpathlib.remotes'


class Quoted(textmod.Base):
    pass


def setup(vc):
    """ a remote path of any name; the commands sent are recorded """
    textmod.install(vc)
    path = textmod.text(vc, 'path', nonempty=True)

    def quote(s):
        if type(s) is not SText:
            return shlex.quote(s)
        vc.prove('it is the path that is quoted', s is path)
        return SText([('b', Quoted(vc, vc._n('quoted'), nonempty=True), {})])
    vc.stubs[shlex.quote] = quote
    darwin = vc.maybe('darwin')
    sent = []
    vc.st = {}

    def ssh(*a):
        sent.append(a[-1])
        r = vc.st['answer']
        return r() if callable(r) else r
    stubs = {'rpath': Prop(value=path), 'as_posix': lambda s: path, 'remote_platform': Prop(value='darwin' if darwin else 'linux'),
             'host': Prop(value='far'), 'encoding': Prop(value='utf-8'), '_ssh': ssh,
             'cypher_command': Prop(value='b2sum')}
    r = vc.obj(R.SshRemote, 'r', stubs=stubs)
    return r, path, sent, darwin


def words(vc, cmd, n=1):
    """ the words of a command, with the name shown as one; None if it is not one """
    t = SText.of(cmd)
    vc.prove('a command is text', t is not None)
    s = ''
    for g in t.segs:
        if g[0] == 'c':
            s += g[1]
        elif g[0] == 'b' and type(g[1]) is Quoted and not g[2]:
            s += 'QNAMEQ'
        else:
            vc.prove('the name is quoted for the shell', False)
            return None
    lex = shlex.shlex(s, posix=True, punctuation_chars=True)
    lex.whitespace_split = True
    ws = list(lex)
    vc.prove('the name is one word of the command', ws.count('QNAMEQ') == n and s.count('QNAMEQ') == n)
    return [w for w in ws if w != '--']


def is_stat(vc, ws, darwin, fmt):
    vc.prove('stat is asked for what is read, of the path', ws is not None and ws[0] == ('gstat' if darwin else 'stat')
             and 'QNAMEQ' in ws[1:] and any(w.endswith(fmt) for w in ws[1:]) and len(ws) <= 4)


@contract('stat')
def stat(vc):
    r, path, sent, darwin = setup(vc)
    k = vc.choose(5, 'answer: fields, denied, nothing there, something else, interrupted')
    raw = [b'fields', b"stat: cannot statx 'x': Permission denied", b"stat: cannot statx 'x': No such file or directory",
           b'bash: stat: command not found'][k % 4]
    boom = Boom('injected')

    def answer():
        if k == 4:
            raise boom
        return raw
    vc.st['answer'] = answer
    made = vc.obj(U.StatResult, 'st')

    def result(out):
        vc.prove('the output is what is parsed', out is raw)
        if k == 0:
            return made
        raise ValueError('not enough values to unpack')
    vc.class_models[U.StatResult] = result
    x = vc.attempt(R.SshRemote.stat, r)
    vc.prove('one command', len(sent) == 1)
    ws = words(vc, sent[0])
    is_stat(vc, ws, darwin, U.StatResult.stat_format.strip('"'))
    if k == 0:
        vc.prove('what was printed', x.ok and x.value is made)
    elif k == 1:
        vc.prove('permission denied is a PermissionError', x.raised(PermissionError))
    elif k == 2:
        vc.prove('nothing there is a FileNotFoundError', x.raised(FileNotFoundError))
    elif k == 3:
        vc.prove('anything else is an error too', x.raised(ValueError) or x.raised(OSError))
    else:
        vc.prove('a failure is raised', x.exc is boom)
    vc.cover(f'answer {k}')


@contract('exists')
def exists(vc):
    r, path, sent, darwin = setup(vc)
    k = vc.choose(4, 'stat: ok, nothing there, denied, failing')
    e = (FileNotFoundError('x'), PermissionError('x'), Boom('x'))[k - 1]
    made = vc.obj(U.StatResult, 'st', stubs={'__bool__': lambda s: True})

    def st(s):
        if k:
            raise e
        return made
    r._vc_stubs['stat'] = st
    x = vc.attempt(R.SshRemote.exists, r)
    if k < 2:
        vc.prove('exists exactly if it is there', x.ok and bool(x.value) == (k == 0))
    else:
        vc.prove('not knowing is not an answer', x.exc is e)


def kind(name, want):
    @contract(name)
    def spec(vc):
        r, path, sent, darwin = setup(vc)
        outs = [b'regular file', b'regular empty file', b'directory', b'symbolic link', b'fifo', b'socket', b'block special file',
                b'character special file', b"stat: cannot statx 'a directory': No such file or directory",
                b"stat: cannot statx '/regular file': Permission denied", b'']
        out = outs[vc.choose(len(outs), 'output')]
        vc.st['answer'] = out
        x = vc.attempt(getattr(R.SshRemote, name), r)
        vc.prove('one command', len(sent) == 1)
        is_stat(vc, words(vc, sent[0]), darwin, '%F')
        vc.prove('true exactly for what stat calls so', x.ok and bool(x.value) == (out in want))
        vc.cover('yes', x.ok and bool(x.value))


kind('is_dir', [b'directory'])
kind('is_file', [b'regular file', b'regular empty file'])


@contract('checksum')
def checksum(vc):
    r, path, sent, darwin = setup(vc)
    v = vc.any('digest', bytes)
    vc.st['answer'] = textmod.STextBytes(textmod.hex_text(vc, v))
    x = vc.attempt(R.SshRemote.checksum, r, *(() if vc.maybe('default') else (vc.any('cypher'),)))
    vc.prove('one command', len(sent) == 1)
    ws = words(vc, sent[0])
    vc.prove('the command of the cypher, on the path', ws is not None and ws[0] == 'b2sum')
    vc.prove('the digest that was printed', x.ok and x.value is v)


@contract('data', max_paths=3000)
def data(vc):
    r, path, sent, darwin = setup(vc)
    N = vc.int('size', 0)
    P10.setup(vc, lambda: [('N', N.t)])
    code = vc.int('exit status')
    cmds = []
    ended = []

    class Proc:
        _vc_model = True

        def __init__(self):
            self.stdout = FileR(vc, 1, N.t, 'out')

        def communicate(self, *a, **k):
            ended.append(1)
            return (b'', None)

        def wait(self, *a, **k):
            ended.append(1)
            return code

        def poll(self):
            return code if ended else None

        @property
        def returncode(self):
            return code if ended else None

        def __enter__(self):
            return self

        def __exit__(self, *a):
            ended.append(1)

    def popen(cmd, *a, **k):
        cmds.append((list(cmd), k))
        return Proc()
    vc.class_models[subprocess.Popen] = popen
    vc.class_models[subprocess.CalledProcessError] = lambda *a, **k: subprocess.CalledProcessError(1, 'cmd')
    out = vc.obj(Ghost, 'out', content=SBytes([]))
    x = vc.attempt(lambda: P10.consume(vc, vc.call(R.SshRemote.data.fget, r), out))
    vc.prove('one transfer from the machine', len(cmds) == 1 and cmds[0][0][:2] == ['ssh', 'far'] and len(cmds[0][0]) == 3)
    vc.prove('its output is read', cmds[0][1].get('stdout') == subprocess.PIPE)
    ws = words(vc, cmds[0][0][2])
    vc.prove('the contents of the path', ws == ['cat', 'QNAMEQ'])
    if x.ok:
        vc.prove('all the data, in order, once', P10.is_range(out.content, z3.IntVal(0), N.t))
        vc.prove('without error only if the transfer succeeded', code == 0)
        vc.cover('all')
    else:
        vc.prove('an error only if the transfer failed', Not(code == 0))
        vc.cover('failed')


@contract('a command')
def command(vc):
    k = vc.int('length', 0)
    cols = vc.int('columns', 1)
    log = []

    class Cmd(Sym):
        _vc_model = True
        __class__ = property(lambda s: str)
        __hash__ = Sym.__hash__

        def _vc_len(self):
            return k
    cmd = Cmd()
    echo = vc.int('bytes sent', 0)
    out, cut = vc.any('output', bytes), []

    class Raw(Sym):
        _vc_model = True
        __class__ = property(lambda s: bytes)
        __hash__ = Sym.__hash__

        def __getitem__(self, i):
            vc.prove('the output is what follows the echo of the command and its line end',
                     isinstance(i, slice) and i.stop is None and i.step is None and i.start == echo + 1)
            cut.append(1)
            return self

        def strip(self, *a):
            vc.prove('only blanks around the output are removed', bool(not a and len(cut) > 0))
            return out
    e = Boom('injected')
    bad = vc.choose(3, 'ok, sending fails, waiting fails')

    class Session:
        _vc_model = True
        done = False
        timeout = 30

        def sendline(self, c):
            vc.prove('the command is sent, once', c is cmd and not log)
            log.append('send')
            if bad == 1:
                raise e
            return echo

        def prompt(self, timeout=-1):
            log.append('prompt')
            if bad == 2:
                raise e
            ok = timeout is None or vc.maybe('done in time')
            self.done = self.done or ok
            return ok

        @property
        def before(self):
            vc.prove('output is read only when the command is done', self.done)
            return Raw()
    cls = vc.obj(type, 'cls', stubs={'session': Prop(value=Session()), '_cols': Prop(value=cols)})
    x = vc.attempt(R.SshRemote._ssh.__func__, cls, cmd)
    if isinstance(x.exc, exc.CommandTooLongError):
        vc.prove('refused only if it does not fit, and not sent', And(k > cols, not log))
        vc.cover('too long')
        return
    vc.prove('what does not fit is not sent', k <= cols)
    if x.ok:
        vc.prove('the output', x.value is out and log[0] == 'send' and not bad)
        vc.cover('output')
    elif bad:
        vc.prove('a failure is raised', x.exc is e)
    else:
        vc.prove('an error only if the command did not end', log.count('prompt') > 0)


def num(vc, n):
    return SText([('b', textmod.Base(vc, vc._n(n), only=set('0123456789'), nonempty=True), {})])


@contract('the output of stat')
def parse(vc):
    textmod.install(vc)
    name = textmod.text(vc, 'name', nonempty=True)
    ints = {}

    def dec(n):
        i = vc.int(n, 0)
        ints[n] = i
        return textmod.dec_text(vc, i)
    ino, hint, size, gid, uid = (dec(n) for n in ('ino', 'hint', 'size', 'gid', 'uid'))
    free = dict(never=(' ', '.'), nonempty=True)

    def when(n, absent=False):
        ns = num(vc, n + ' ns')
        hr = textmod.text(vc, n + ' date', **free) + ' ' + textmod.text(vc, n + ' time', **free) + '.' + ns + ' ' + textmod.text(vc, n + ' zone', **free)
        return hr, num(vc, n + ' seconds'), ns
    ha, a, na = when('access')
    hm, m, nm = when('modify')
    hc, c, nc = when('change')
    if vc.maybe('no birth time'):
        hb, b, nb = '-', '0', None
    else:
        hb, b, nb = when('birth')
        vc.assume(Not(b == '0'))  # that is how stat prints an unknown one
    v = vc.any('mode', bytes)
    mode = vc.int('mode number', 0)
    raw = textmod.hex_text(vc, v)

    def frombytes(vc_, x, order='big', **k):
        vc.prove('the mode is read as it is printed, highest digit first', x is v and order == 'big')
        return mode
    vc.method_models[int, 'from_bytes'] = frombytes
    real = vc.sym_attrs[str, '__int__']

    def to_int(x, base=None):
        if x is raw or SText.of(x)._vc_same(raw):
            vc.prove('the mode is read as it is printed', base == 16)
            return mode
        return real(x)
    vc.sym_attrs[str, '__int__'] = to_int
    vc.sym_attrs[str, '__float__'] = lambda x: vc.any('float', float, of=x)
    sep = '  '
    t = name
    for f in (ino, hint, size, hb, b, ha, a, hm, m, hc, c, gid, uid, raw):
        t = t + sep + f
    p = vc.obj(U.StatResult, 'p')
    x = vc.attempt(U.StatResult.__init__, p, textmod.STextBytes(t))
    vc.prove('what stat prints is read', x.ok)
    if not x.ok:
        return
    d = attrs_of(p)
    vc.prove('the name is all of the name', SText.of(d['name'])._vc_same(name))
    for f, n in (('st_ino', 'ino'), ('st_blksize', 'hint'), ('st_size', 'size'), ('st_gid', 'gid'), ('st_uid', 'uid')):
        vc.prove(f'{f} is its field', d[f] == ints[n])
    for f, s, n in (('st_atime', a, na), ('st_mtime', m, nm), ('st_ctime', c, nc), ('st_birthtime', b, nb)):
        if n is None:
            vc.prove('no birth time, none made up', f not in d)
            continue
        g = d.get(f)
        vc.prove(f'{f}: the seconds with the nanoseconds', type(g) is SAny and SText.of(g.attrs['of']) is not None and
                 SText.of(g.attrs['of'])._vc_same(s + '.' + n))
    vc.prove('st_mode', d['st_mode'] == mode)
    vc.cover('birth', nb is not None)
    vc.cover('no birth', nb is None)


@contract('access')
def access(vc):
    import os
    mode = vc.bits("mode", 16)
    uid, gid, me = vc.int('uid'), vc.int('gid'), vc.int('me')
    g1, g2 = vc.int('g1'), vc.int('g2')
    k = vc.choose(3, 'stat: ok, nothing there, denied')

    def st(s):
        if k:
            raise (FileNotFoundError('x'), PermissionError('x'))[k - 1]
        return vc.obj(U.StatResult, 'st', st_mode=mode, st_uid=uid, st_gid=gid)
    r = vc.obj(R.SshRemote, 'r', stubs={'stat': st, '_uid': Prop(value=me), '_gids': Prop(value=[g1, g2])})
    what = ('read', os.R_OK, 'write', os.W_OK, 'execute', os.X_OK)[vc.choose(6, 'asked')]
    x = vc.attempt(R.SshRemote.access, r, what)
    if k:
        vc.prove('what cannot be seen cannot be accessed', x.ok and not x.value)
        return
    bit = {'read': 4, os.R_OK: 4, 'write': 2, os.W_OK: 2, 'execute': 1, os.X_OK: 1}[what]
    has = lambda shift: Not((mode & (bit << shift)) == 0)
    owner, group = uid == me, Or(gid == g1, gid == g2)
    want = Or(And(owner, has(6)), And(Not(owner), group, has(3)), And(Not(owner), Not(group), has(0)))
    vc.prove('exactly the bit of the class of the user decides', x.ok and Iff(bool(x.value), want))
    vc.cover('yes', x.ok and bool(x.value))


def rooted(root):
    """ the root of the class stands in the way of that of pathlib, and can be set """
    st = {'root': root}
    return Prop(get=lambda s: st['root'], set=lambda s, v: st.update(root=v))


def raws(x):
    return list(attrs_of(x)['_raw_paths'])


def purepath(vc):
    """ pathlib: a new path has no parts until they are given, they are the texts of what is given """
    import pathlib
    textmod.install(vc)

    def init(p, *args):
        out = []
        for a in args:
            t = SText.of(a)
            out += raws(a) if t is None else [a]
        attrs_of(p)['_raw_paths'] = VList(out)
    vc.stubs[pathlib.PurePath.__init__] = init
    vc.stubs[pathlib.PurePath.__new__] = lambda cls, *args: vc.obj(R.SshRemote, 'new', stubs={
        '_remote_platform': Prop(value='linux'), 'root': rooted(vc.st['root'])})


def paths(vc):
    """ the class anchored at a path of a machine, and the texts of arbitrary paths: absolute, or not """
    purepath(vc)
    a = '' if vc.maybe('anchored at the root') else textmod.text(vc, 'anchor', nonempty=True)
    b = textmod.text(vc, 'rest')
    anchor = vc.obj(R.SshRemote, 'anchor', _raw_paths=VList(['/' + a]))
    vc.st = {'root': 'far:/' + a}
    cls = vc.obj(R.SshRemote, 'the class', stubs={'host': Prop(value='far'), 'root': rooted(vc.st['root'])}, _anchor=anchor)
    return cls, '/' + a, b


def plain(vc, name):
    """ text that is neither absolute nor of the machine """
    return 'n' + textmod.text(vc, name)


@contract('a new path')
def new(vc):
    cls, anchor, rest = paths(vc)
    first = vc.choose(5, 'first: of the machine, absolute, relative, another path, of the machine and relative')
    body = plain(vc, 'p') if first in (2, 4) else '/' + rest
    if first == 3:
        n = 1 + vc.choose(2, 'parts of the other path')
        want = [body, plain(vc, 'q')][:n]
        a0 = vc.obj(R.SshRemote, 'other', _raw_paths=VList(list(want)))
    else:
        want = [body]
        a0 = 'far:' + body if first in (0, 4) else body
    more = []
    for i in range(vc.choose(3, 'more')):
        more.append('/' + textmod.text(vc, f'm{i}') if vc.maybe(f'absolute {i}') else plain(vc, f'm{i}'))
    want += more
    if not any(SText.of(w).startswith('/') is True for w in want):
        want = [anchor] + want
    x = vc.attempt(R.SshRemote.__new__, cls, a0, *more)
    vc.prove('a path is made', x.ok and type(x.value) is SObj)
    got = raws(x.value)
    # what comes before the last absolute one does not matter
    cut = lambda ts: ts[max(i for i, t in enumerate(ts) if SText.of(t).startswith('/') is True):]
    vc.prove('it is below the anchor or absolute', any(SText.of(t).startswith('/') is True for t in got))
    got, want = cut(got), cut(want)
    vc.prove('the path asked, below the anchor if it is relative', len(got) == len(want) and all(SText.of(g)._vc_same(SText.of(w)) for g, w in zip(got, want)))
    vc.prove('its root is that of the machine', SText.of(x.value.root)._vc_same(SText.of('far:/')))
    vc.cover('relative to the anchor', first in (2, 4) and not more)


@contract('a path with its cache')
def init(vc):
    from augpathlib.caches import CachePath
    cls, anchor, rest = paths(vc)
    was = VList(['/' + rest])
    kind = vc.choose(2, 'from: text, another path')
    r = vc.obj(R.SshRemote, 'r', stubs={'cache': Prop(get=lambda s: attrs_of(s).get('_c_cache'))}, _raw_paths=was)
    a0 = 'far:/' + rest if kind == 0 else vc.obj(R.SshRemote, 'other', stubs={'as_posix': lambda s: 'far:/' + rest}, _raw_paths=VList(['/' + rest]))
    more = [plain(vc, 'm')][:vc.choose(2, 'more')]
    cache = vc.obj(CachePath, 'cache') if vc.maybe('cache') else None
    x = vc.attempt(R.SshRemote.__init__, r, a0, *more, cache=cache)
    vc.prove('done', x.ok)
    got = raws(r)
    vc.prove('the path stays what it was made as', len(got) == 1 and got[0] is was[0])
    if cache is not None:
        vc.prove('bound to its cache', attrs_of(r).get('_c_cache') is cache)
        vc.prove('and the cache to it', attrs_of(cache).get('_remote') is r)
    vc.cover('cache', cache is not None)


@contract('the path on the machine')
def rpath(vc):
    cls, anchor, rest = paths(vc)
    at = vc.maybe('at the anchor, with its root')
    root = vc.st['root']
    mine = anchor if at else '/' + rest
    joined = vc.obj(R.SshRemote, 'joined', stubs={'as_posix': lambda s: 'far:' + mine})
    anc = vc.obj(R.SshRemote, 'anchor', stubs={'__truediv__': lambda s, o: joined if o is r else vc.prove('the path itself', False), 'root': rooted(root)},
                 _raw_paths=VList([anchor]))
    r = vc.obj(R.SshRemote, 'r', stubs={'anchor': Prop(value=anc), 'host': Prop(value='far'), 'as_posix': lambda s: 'far:' + mine, 'root': rooted(root if at else 'far:/')},
               _raw_paths=VList([mine]))
    x = vc.attempt(R.SshRemote.rpath.fget, r)
    vc.prove('the path without the machine', x.ok and SText.of(x.value) is not None and SText.of(x.value) == SText.of(mine))
    y = vc.attempt(R.SshRemote.id.fget, r)
    vc.prove('its id is the machine and the path', y.ok and SText.of(y.value) == SText.of('far:' + mine))
    vc.cover('at the anchor', at)
