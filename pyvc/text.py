"""Text as segments: constants and unknown base strings under a finite
character map.  Exact for what codecs do: single character replace, membership,
splitting at a separator, equality of two maps of the same base.

For a base b and each character c of interest there is a boolean has(b, c); for
the empty string and each one-character string there is a boolean is(b, k).
m(b) == m'(b) iff no character on which m and m' differ occurs in b, which is a
formula over the has() booleans: nothing is approximated."""
import z3
from .values import mixed
from .values import *
from .objects import SObj, VList


class Base:
    def __init__(self, vc, name, only=None, never=(), nonempty=False, tag=None):
        self.vc, self.name, self.tag = vc, name, tag
        self.only = only            # the only characters that can occur
        self.never = set(never)
        self.nonempty = nonempty
        self._has, self._is = {}, {}
        self.index = None           # elements of a text sequence: z3 index

    def can(self, c):
        return c not in self.never and (self.only is None or c in self.only)

    def has(self, c):
        if not self.can(c):
            return z3.BoolVal(False)
        if c not in self._has:
            b = self.mkbool(f'has_{ord(c)}')
            self._has[c] = b
            for k, e in self._is.items():
                self.vc.fact(z3.Implies(e, b == z3.BoolVal(c in k)))
        return self._has[c]

    def mkbool(self, what):
        return z3.Bool(f'{self.name}.{what}')

    def is_(self, k):
        """ the base is exactly the constant k """
        if k == '' and self.nonempty:
            return z3.BoolVal(False)
        if any(not self.can(c) for c in k):
            return z3.BoolVal(False)
        if k not in self._is:
            e = self.mkbool('is_' + '_'.join(str(ord(c)) for c in k))
            for o, oe in self._is.items():
                self.vc.fact(z3.Not(z3.And(e, oe)))
            self._is[k] = e
            for c in k:
                self.has(c)
            for c, h in self._has.items():
                self.vc.fact(z3.Implies(e, h == z3.BoolVal(c in k)))
        return self._is[k]


def ap(m, c):
    return m.get(c, c)


class SText(Sym):
    _vc_text = True

    def __init__(self, segs):
        out = []
        for s in segs:
            if s[0] == 'c':
                if not s[1]:
                    continue
                if out and out[-1][0] == 'c':
                    out[-1] = ('c', out[-1][1] + s[1])
                    continue
            out.append(s)
        self.segs = out

    __class__ = property(lambda self: str)

    @staticmethod
    def of(x):
        if type(x) is SOpt:
            x = x._r()
        if type(x) is SText:
            return x
        if isinstance(x, str) and not is_sym(x):
            return SText([('c', str(x))])
        return None

    def has(self, c):
        """ formula: c occurs """
        r = []
        for s in self.segs:
            if s[0] == 'c':
                if c in s[1]:
                    return z3.BoolVal(True)
            elif s[0] == 'b':
                b, m = s[1], s[2]
                pre = [k for k, v in m.items() if v == c]
                if ap(m, c) == c:
                    pre.append(c)
                r.extend(b.has(k) for k in set(pre))
            else:
                r.append(s[1].has(c, s[2]))
        return z3.Or(*r) if r else z3.BoolVal(False)

    def is_(self, k):
        """ formula: equal to the constant k """
        if not self.segs:
            return z3.BoolVal(k == '')
        if len(self.segs) == 1:
            s = self.segs[0]
            if s[0] == 'c':
                return z3.BoolVal(s[1] == k)
            if s[0] == 'b':
                b, m = s[1], s[2]
                opts = ['']
                for ch in k:
                    pre = [x for x, v in m.items() if v == ch] + ([ch] if ap(m, ch) == ch else [])
                    opts = [o + p for o in opts for p in set(pre)]
                return z3.Or(*[b.is_(o) for o in opts]) if opts else z3.BoolVal(False)
            if s[0] == 'j':
                return s[1].join_is(k, s[2])
        # constant text at either end has to be there, then the rest decides
        if self.segs[0][0] == 'c':
            c = self.segs[0][1]
            return SText(self.segs[1:]).is_(k[len(c):]) if k.startswith(c) else z3.BoolVal(False)
        if self.segs[-1][0] == 'c':
            c = self.segs[-1][1]
            return SText(self.segs[:-1]).is_(k[:len(k) - len(c)]) if k.endswith(c) else z3.BoolVal(False)
        if any(s[0] == 'c' and any(ch not in k for ch in s[1]) for s in self.segs):
            return z3.BoolVal(False)
        if sum(len(s[1]) for s in self.segs if s[0] == 'c') > len(k):
            return z3.BoolVal(False)
        for s in self.segs:
            if s[0] == 'b' and s[1].nonempty and not any(s[1].can(x) for x in set(k) | set(s[2])):
                return z3.BoolVal(False)
        if sum(1 for s in self.segs if s[0] == 'b' and s[1].nonempty) + sum(
                len(s[1]) for s in self.segs if s[0] == 'c') > len(k):
            return z3.BoolVal(False)
        unsup(f'comparison of compound text with {k!r}')

    def eqf(self, o):
        o = SText.of(o)
        if o is None:
            return z3.BoolVal(False)
        if all(s[0] == 'c' for s in o.segs):
            return self.is_(o.segs[0][1] if o.segs else '')
        if all(s[0] == 'c' for s in self.segs):
            return o.is_(self.segs[0][1] if self.segs else '')
        if len(self.segs) == len(o.segs) and all(
                x[0] == y[0] and (x[1] == y[1] if x[0] == 'c' or isinstance(x[1], ElemBase) else x[1] is y[1])
                for x, y in zip(self.segs, o.segs)):
            r = []
            for x, y in zip(self.segs, o.segs):
                if x[0] == 'c':
                    continue
                keys = set(x[2]) | set(y[2])
                for c in keys:
                    if ap(x[2], c) != ap(y[2], c):
                        r.append(z3.Not(x[1].has(c) if x[0] == 'b' else x[1].has(c, {})))
            return z3.And(*r) if r else z3.BoolVal(True)
        if len(self.segs) == 1 and len(o.segs) == 1 and self.segs[0][0] == 'b' == o.segs[0][0]:
            # different unknown texts: may or may not be equal
            a, b = sorted(f'{x.segs[0][1].name},{sorted(x.segs[0][2].items())}' for x in (self, o))
            return z3.Bool(f'eq({a},{b})')
        # compound texts of unknown parts: either, but the same whenever asked
        if all(s[0] == 'c' or s[0] == 'b' and type(s[1]) is Base for s in self.segs + o.segs):
            a, b = sorted(str([s[1] if s[0] == 'c' else (s[1].name, sorted(s[2].items())) for s in x.segs]) for x in (self, o))
            return z3.Bool(f'texteq({a},{b})')
        return z3.Bool(ctx()._n('texteq'))

    def __eq__(self, o):
        if type(o) is SOpt:
            return o.__eq__(self)
        if SText.of(o) is None:
            return mixed(self, o)
        return SBool(self.eqf(o))

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __bool__(self):
        return not ctx().branch(self.is_(''))

    def __contains__(self, o):
        o = SText.of(o)
        if o is None:
            raise TypeError("'in <string>' requires string as left operand")
        if len(o.segs) == 1 and o.segs[0][0] == 'c' and len(o.segs[0][1]) == 1:
            return ctx().branch(self.has(o.segs[0][1]))
        if not o.segs:
            return True
        if all(s[0] == 'c' for s in self.segs + o.segs):
            return o.segs[0][1] in self.segs[0][1]
        unsup('substring test on unknown text')

    def __add__(self, o):
        o = SText.of(o)
        return NotImplemented if o is None else SText(self.segs + o.segs)

    def __radd__(self, o):
        o = SText.of(o)
        return NotImplemented if o is None else SText(o.segs + self.segs)

    def replace(self, a, b, n=-1):
        if is_sym(a) or is_sym(b):
            unsup('replace with symbolic text')
        if n != -1 or not a:
            unsup('replace count')
        out = []
        for s in self.segs:
            if s[0] == 'c':
                out.append(('c', s[1].replace(a, b)))
            elif len(a) == 1 and len(b) == 1:
                m = dict(s[2])
                base = s[1]
                for k in [k for k, v in m.items() if v == a]:
                    m[k] = b
                if a not in m:
                    m[a] = b
                out.append((s[0], base, {k: v for k, v in m.items() if k != v or k == a}))
            else:
                # a longer needle or replacement: only if it cannot occur
                c = ctx()
                if any(c.valid(SBool(z3.Not(SText([s]).has(ch)))) for ch in a):
                    out.append(s)
                elif len(a) == 1 and b == '':
                    unsup('character removal on unknown text')
                else:
                    unsup(f'replace {a!r} on unknown text')
        return SText(out)

    def _const_split(self, sep):
        """ segments grouped at the separators of the constant parts; the
            unknown parts must not contain it """
        c = ctx()
        groups = [[]]
        for s in self.segs:
            if s[0] == 'c':
                parts = s[1].split(sep)
                groups[-1].append(('c', parts[0]))
                for p in parts[1:]:
                    groups.append([('c', p)])
            else:
                h = SText([s]).has(sep)
                if c.branch(h):
                    if s is not self.segs[-1] or s[0] != 'b':
                        unsup(f'split of unknown text at {sep!r}')
                    # trailing text: the pieces after the first separator are new unknown texts (one or two of them)
                    nv = set(s[1].never) | {sep}
                    groups[-1].append(('b', Base(c, c._n('piece'), never=nv), {}))
                    for _ in range(1 + c.choose(2, 'more pieces')):
                        groups.append([('b', Base(c, c._n('piece'), never=nv), {})])
                    return [SText(g) for g in groups]
                groups[-1].append(s)
        return [SText(g) for g in groups]

    def split(self, sep=None, maxsplit=-1):
        if sep is None or is_sym(sep) or len(sep) != 1:
            unsup('split')
        if len(self.segs) == 1 and self.segs[0][0] == 'j':
            j, m = self.segs[0][1], self.segs[0][2]
            return j.split(sep, m)
        if maxsplit == 1:
            # what follows the first separator may hold others
            head, segs, c = [], list(self.segs), ctx()
            while segs:
                g = segs.pop(0)
                if g[0] == 'c' and sep in g[1]:
                    a, b = g[1].split(sep, 1)
                    return VList([simp(SText(head + [('c', a)])), simp(SText([('c', b)] + segs))])
                if g[0] != 'c' and not c.valid(SBool(z3.Not(SText([g]).has(sep)))):
                    break
                head.append(g)
        parts = self._const_split(sep)
        if maxsplit >= 0 and len(parts) > maxsplit + 1:
            head, rest = parts[:maxsplit], parts[maxsplit:]
            t = rest[0]
            for r in rest[1:]:
                t = t + sep + r
            parts = head + [t]
        return VList([simp(x) for x in parts])

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or is_sym(sep) or not sep:
            unsup('rsplit')
        if len(sep) > 1:
            return self._rsplit_long(sep, maxsplit)
        if maxsplit == 1:
            # only the text after the last separator has to be free of it
            c = ctx()
            tail = []
            segs = list(self.segs)
            while segs:
                s = segs.pop()
                if s[0] == 'c':
                    if sep in s[1]:
                        a, b = s[1].rsplit(sep, 1)
                        return VList([simp(SText(segs + [('c', a)])), simp(SText([('c', b)] + tail))])
                    tail.insert(0, s)
                else:
                    if c.branch(SText([s]).has(sep)):
                        unsup('rsplit inside unknown text')
                    tail.insert(0, s)
            return VList([self])
        parts = self._const_split(sep)
        return VList([simp(x) for x in parts])

    def _rsplit_long(self, sep, maxsplit):
        """ separators of several characters, all of them the same: found from the right
            in the constant parts, between unknown parts that cannot hold their character """
        c = ctx()
        if len(set(sep)) != 1:
            unsup('rsplit at a long separator')
        segs, parts, tail = list(self.segs), [], []
        while segs and (maxsplit < 0 or len(parts) < maxsplit):
            s = segs.pop()
            if s[0] != 'c':
                if c.branch(SText([s]).has(sep[0])):
                    unsup('rsplit inside unknown text')
                tail.insert(0, s)
                continue
            if s[1].startswith(sep[0]) and segs and segs[-1][0] == 'c':
                segs[-1] = ('c', segs[-1][1] + s[1])
                continue
            i = s[1].rfind(sep)
            if i < 0:
                tail.insert(0, s)
                continue
            parts.insert(0, simp(SText(([('c', s[1][i + len(sep):])] if s[1][i + len(sep):] else []) + tail)))
            tail = []
            if s[1][:i]:
                segs.append(('c', s[1][:i]))
        parts.insert(0, simp(SText(segs + tail)))
        return VList(parts)

    def partition(self, sep):
        p = self.split(sep, 1)
        return (p[0], sep, p[1]) if len(p) == 2 else (p[0], '', '')

    def rpartition(self, sep):
        p = self.rsplit(sep, 1)
        return (p[0], sep, p[1]) if len(p) == 2 else ('', '', p[0])

    def _after(self, p):
        """ the segments after the prefix p, None when the structure does not show it """
        segs = list(self.segs)
        for s in p.segs:
            if not segs:
                return None
            if s[0] == 'c':
                if segs[0][0] != 'c' or not segs[0][1].startswith(s[1]):
                    return None
                segs[0] = ('c', segs[0][1][len(s[1]):])
                if not segs[0][1]:
                    segs.pop(0)
            elif segs[0][0] == s[0] and segs[0][1] is s[1] and segs[0][2] == s[2]:
                segs.pop(0)
            else:
                return None
        return segs

    def _vc_len(self):
        return text_len(self)

    def startswith(self, p):
        if type(p) is SText:
            if self._after(p) is not None:
                return True
            return SBool(startswith_fact(ctx(), self, p))
        if is_sym(p):
            unsup('startswith')
        if not p:
            return True
        if self.segs and self.segs[0][0] == 'c':
            k = self.segs[0][1]
            if len(k) >= len(p):
                return k.startswith(p)
            if not p.startswith(k):
                return False
        elif not self.segs:
            return False
        c = ctx()
        if self.segs and self.segs[0][0] == 'b' and c.valid(SBool(z3.Not(self.has(p[0])))):
            if not c.branch(SText(self.segs[:1]).is_('')):
                return False
            return SText(self.segs[1:]).startswith(p)
        return SBool(z3.Bool(c._n('startswith')))

    def endswith(self, p):
        if is_sym(p):
            unsup('endswith')
        if self.segs and self.segs[-1][0] == 'c' and len(self.segs[-1][1]) >= len(p):
            return self.segs[-1][1].endswith(p)
        return SBool(z3.Bool(ctx()._n('endswith')))

    def strip(self, *a):
        unsup('strip of unknown text')
    lstrip = rstrip = lower = upper = strip

    def encode(self, *a):
        return STextBytes(self)

    def join(self, xs):
        out = None
        for x in xs:
            t = SText.of(x)
            if t is None:
                raise TypeError('sequence item: expected str instance')
            out = t if out is None else out + self + t
        return '' if out is None else simp(out)

    def __getitem__(self, i):
        if isinstance(i, slice) and type(i.start) is SInt and hasattr(i.start, 'text') and i.stop is None and i.step is None:
            r = self._after(i.start.text)
            if r is not None:
                return simp(SText(r))
            return text(ctx(), 'rest')
        if isinstance(i, slice) and i.step is None and i.stop is None and not is_sym(i.start):
            n = i.start
            if self.segs and self.segs[0][0] == 'c' and 0 <= n <= len(self.segs[0][1]):
                return simp(SText([('c', self.segs[0][1][n:])] + self.segs[1:]))
        if self.segs and self.segs[0][0] == 'c' and isinstance(i, int) and not is_sym(i) and 0 <= i < len(
                self.segs[0][1]):
            return self.segs[0][1][i]
        unsup('index of unknown text')

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        unsup(f'str.{name} on unknown text')

    def _vc_same(a, b):
        return a.segs == b.segs

    _vc_kind = lambda v: ('id', id(v))

    def __repr__(self):
        return '<text ' + '+'.join(repr(s[1]) if s[0] == 'c' else f'{s[1].name}{s[2] or ""}' for s in self.segs) + '>'
    __hash__ = Sym.__hash__


def simp(t):
    if type(t) is SText:
        if not t.segs:
            return ''
        if len(t.segs) == 1 and t.segs[0][0] == 'c':
            return t.segs[0][1]
    return t


def text_len(t):
    """ the length of a text """
    n = sum(len(s[1]) for s in t.segs if s[0] == 'c')
    e = z3.IntVal(n)
    for s in t.segs:
        if s[0] != 'c':
            v = z3.Int(f'{s[1].name}.length')
            ctx().fact(v >= 0)
            if s[0] == 'b':
                ctx().fact((v == 0) == s[1].is_(''))
            e = e + v
    r = SInt(e)
    r.text = t
    return r


def startswith_fact(vc, a, b):
    k = ('startswith', repr(a), repr(b))
    if k not in vc.texts:
        vc.texts[k] = z3.Bool(vc._n('startswith'))
    return vc.texts[k]


class STextBytes(Sym):
    """ the utf-8 encoding of a text """

    def __init__(self, text):
        self.text = text

    __class__ = property(lambda self: bytes)

    def decode(self, *a):
        return simp(self.text)

    def __bool__(self):
        return bool(self.text)

    def __eq__(self, o):
        if type(o) is STextBytes:
            return self.text == o.text
        if isinstance(o, bytes) and not is_sym(o):
            try:
                return self.text == o.decode()
            except UnicodeDecodeError:
                return False
        return False

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        unsup(f'bytes.{name} on encoded text')
    __hash__ = Sym.__hash__


def text(vc, name, **kw):
    """ an arbitrary str """
    return SText([('b', Base(vc, vc._n(name), **kw), {})])


DEC = set('-0123456789')
HEX = set('0123456789abcdef')


def dec_text(vc, i):
    """ str(int) """
    key = ('dec', str(it(i)))
    t = vc.texts.get(key)
    if t is None:
        b = Base(vc, f'dec({it(i)})', only=DEC, nonempty=True, tag=('dec', i))
        t = SText([('b', b, {})])
        vc.texts[key] = t
        vc._assume(b.has('-') == (it(i) < 0))
    return t


def hex_text(vc, v):
    key = ('hex', id(v))
    t = vc.texts.get(key)
    if t is None:
        b = Base(vc, vc._n('hex'), only=HEX, tag=('hex', v))
        t = SText([('b', b, {})])
        vc.texts[key] = t
        vc.keep.append(v)
        e = v == b''
        vc._assume(b.is_('') == bt(e))
    return t


def int_of_text(vc, x, base=None):
    t = SText.of(x)
    if t is None:
        unsup('int() of that')
    if len(t.segs) == 1 and t.segs[0][0] == 'b' and t.segs[0][1].tag:
        tag = t.segs[0][1].tag
        if tag[0] == 'dec':
            if any(c in DEC and k != c for c, k in t.segs[0][2].items()):
                unsup('mapped digits')
            return SInt(it(tag[1]))
        if tag[0] == 'notint':
            # int() rejects it; images of mapped characters are not digits either
            if all(v not in '0123456789+-_ ' for v in t.segs[0][2].values()):
                raise ValueError('invalid literal for int()')
    unsup('int() of unknown text')


def fromhex(vc, x):
    t = SText.of(x)
    if type(x) is not SText:
        return bytes.fromhex(x)
    if len(t.segs) == 1 and t.segs[0][0] == 'b' and t.segs[0][1].tag and t.segs[0][1].tag[0] == 'hex':
        if any(c in HEX for c in t.segs[0][2]):
            unsup('mapped hex')
        return t.segs[0][1].tag[1]
    unsup('fromhex of unknown text')


class TextSeq(Sym):
    """ a tuple of unknown length of unknown strings; under elementwise map m """
    _vc_model = True

    def __init__(self, vc, name, cls=tuple, src=None, m=None):
        self.vc, self.cls = vc, cls
        if src is None:
            self.name = vc._n(name)
            self.n = z3.Int(f'{self.name}.len')
            vc._assume(self.n >= 0)
            self.fns = {}
            self.root = self
        else:
            self.root = src.root
            self.name, self.n = src.name, src.n
        self.m = dict(m or {})

    __class__ = property(lambda self: self.cls)

    def fn(self, what):
        r = self.root
        if what not in r.fns:
            r.fns[what] = z3.Function(f'{r.name}.{what}', z3.IntSort(), z3.BoolSort())
        return r.fns[what]

    def elem(self, i):
        return SText([('b', ElemBase(self.root, i), dict(self.m))])

    def _vc_len(self):
        return SInt(self.n)

    def __bool__(self):
        return self.vc.branch(self.n > 0)

    def forall(self, f):
        """ formula: f(element) for all elements """
        i = z3.Int(self.vc._n('i'))
        q = f(self.elem(i))
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), q))

    def has(self, c, m):
        """ the ';'.join of the mapped elements has c """
        i = z3.Int(self.vc._n('k'))
        e = SText([('b', ElemBase(self.root, i), dict(m))])
        r = z3.Exists([i], z3.And(0 <= i, i < self.n, e.has(c)))
        sepc = ap(m, self.root.sep)
        if c == sepc:
            r = z3.Or(r, self.n > 1)
        return r

    def join_is(self, k, m):
        if k == '':
            i = z3.Int(self.vc._n('k'))
            e = SText([('b', ElemBase(self.root, i), dict(m))])
            return z3.Or(self.n == 0, z3.And(self.n == 1, z3.ForAll([i], z3.Implies(i == 0, e.is_('')))))
        sepc = ap(m, self.root.sep)
        e = SText([('b', ElemBase(self.root, z3.IntVal(0)), dict(m))])
        if sepc not in k:
            return z3.And(self.n == 1, e.is_(k))
        return z3.Bool(self.vc._n('joinis'))

    def _vc_join(self, sep):
        if len(sep) != 1:
            unsup('join')
        self.root.sep = sep
        if self.m:
            unsup('join of mapped')
        return SText([('j', self.root, {})])

    def split(self, sep, m):
        vc = self.vc
        if ap(m, self.root.sep) != sep:
            unsup('split at another separator')
        if not vc.valid(SBool(self.forall(lambda e: z3.Not(SText([('b', e.segs[0][1], m)]).has(sep))))):
            unsup('split of a join whose elements may contain the separator')
        if vc.branch(self.n == 0):
            return VList([''])
        return TextSeq(vc, '', list, self.root, m)

    def _vc_map(self, kind, f):
        return SeqComp(self, kind, f).result()

    def __eq__(self, o):
        if type(o) is SOpt:
            return o.__eq__(self)
        if type(o) is TextSeq and o.root is self.root and o.cls is self.cls:
            i = z3.Int(self.vc._n('q'))
            return SBool(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), self.elem(i).eqf(o.elem(i)))))
        if isinstance(o, self.cls) and not is_sym(o):
            if len(o) == 0:
                return SBool(self.n == 0)
        return False

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def _vc_tuple(self):
        return TextSeq(self.vc, '', tuple, self, self.m)

    def _vc_list(self):
        return TextSeq(self.vc, '', list, self, self.m)

    def __iter__(self):
        unsup('iteration over a text sequence')
    __hash__ = Sym.__hash__


class ElemBase(Base):
    def __init__(self, root, i):
        self.root, self.i = root, i
        self.vc, self.name, self.tag = root.vc, f'{root.name}[{i}]', None

    def can(self, c):
        return True

    def has(self, c):
        return self.root.fn(f'has_{ord(c)}')(self.i)

    def is_(self, k):
        r = self.root.fn('is_' + '_'.join(str(ord(c)) for c in k))(self.i)
        # exact for the characters known so far and later: see TextSeq.axioms
        ax = []
        for w, f in list(self.root.fns.items()):
            if w.startswith('has_'):
                ax.append(z3.Implies(r, f(self.i) == z3.BoolVal(chr(int(w[4:])) in k)))
        return z3.And(r, *ax) if ax else r

    def __eq__(self, o):
        return isinstance(o, ElemBase) and o.root is self.root and (o.i is self.i or z3.eq(o.i, self.i))
    __hash__ = object.__hash__


class SeqComp:
    """ comprehension over a TextSeq """
    _vc_model = True

    def __init__(self, seq, kind, f):
        self.seq, self.kind, self.f = seq, kind, f
        self.vc = seq.vc

    def cases(self):
        i = z3.Int(self.vc._n('e'))
        e = self.seq.elem(i)
        cs = self.vc.cases(lambda: list(self.f(e)))
        return i, e, cs

    def result(self):
        if self.kind == 'gen':
            return self
        i, e, cs = self.cases()
        return self.build(i, e, cs)

    def build(self, i, e, cs):
        """ a sequence with the same elements (possibly mapped), when no
            element is dropped """
        vc = self.vc
        rng = z3.And(0 <= i, i < self.seq.n)
        m = None
        for cond, out in cs:
            if len(out) == 0:
                # dropped: must be impossible
                if not vc.valid(SBool(z3.Not(z3.And(rng, cond)))):
                    # an element may be dropped: observable loss
                    vc.lost = True
                    return TextSeq(vc, 'filtered', list)
                continue
            t = SText.of(out[0])
            if len(out) != 1 or t is None or len(t.segs) != 1 or t.segs[0][0] != 'b':
                unsup('comprehension over text sequence')
            if m is None:
                m = t.segs[0][2]
            elif m != t.segs[0][2]:
                # different maps on different cases: fine if they agree there
                if not vc.valid(SBool(z3.Implies(z3.And(rng, cond), t.eqf(SText([('b', t.segs[0][1], m)]))))):
                    unsup('comprehension with case-dependent maps')
        if m is None:
            return VList([])
        return TextSeq(vc, '', list, self.seq, m)

    def _vc_any(self, want=True):
        """ any(...) / all(...) """
        vc = self.vc
        i, e, cs = self.cases()
        rng = z3.And(0 <= i, i < self.seq.n)
        hit = []
        for cond, out in cs:
            if len(out) > 1:
                unsup('any over nested comprehension')
            if len(out) == 1:
                v = out[0]
                v = bt(v) if isinstance(v, bool) else z3.BoolVal(bool(v))
                hit.append(z3.And(cond, v if want else z3.Not(v)))
        h = z3.Or(*hit) if hit else z3.BoolVal(False)
        ex = z3.Exists([i], z3.And(rng, h))
        return SBool(ex)

    def _vc_tuple(self):
        r = self.build(*self.cases())
        return r._vc_tuple() if type(r) is TextSeq else tuple(r)

    def _vc_list(self):
        return self.build(*self.cases())

    def _vc_join(self, sep):
        r = self.build(*self.cases())
        return r._vc_join(sep) if type(r) is TextSeq else sep.join(r)

    def __iter__(self):
        unsup('iteration over text sequence comprehension')


class PPP(Sym):
    """ PurePosixPath of texts without empty or '.' components (assumed
        contract on pathlib: parts, parent, str and / are inverse) """
    _vc_model = True

    def __init__(self, vc, parts, cls):
        self.vc, self._p, self.cls = vc, list(parts), cls

    __class__ = property(lambda s: s.cls)

    @staticmethod
    def make(vc, cls, *args):
        parts = []
        for a in args:
            if type(a) is SOpt:
                a = a._r()
            if type(a) is PPP:
                parts.extend(a._p)
                continue
            t = SText.of(a)
            if t is None:
                if isinstance(a, cls):
                    parts.extend(a.parts)
                    continue
                raise TypeError('argument should be a str or an os.PathLike object')
            ps = t._const_split('/')
            if len(ps) > 1 and not ps[0].segs:
                unsup('absolute path of unknown text')
            for p in ps:
                if vc.branch(p.is_('')) or vc.branch(p.is_('.')):
                    continue
                parts.append(simp(p))
        return PPP(vc, parts, cls)

    @property
    def parts(self):
        return tuple(self._p)

    @property
    def parent(self):
        return PPP(self.vc, self._p[:-1], self.cls)

    @property
    def name(self):
        return self._p[-1] if self._p else ''

    def as_posix(self):
        return self.text()

    def text(self):
        if not self._p:
            return '.'
        out = SText.of(self._p[0])
        for p in self._p[1:]:
            out = out + '/' + SText.of(p)
        return simp(out)

    def __truediv__(self, o):
        return PPP.make(self.vc, self.cls, self, o)

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        unsup(f'PurePosixPath.{name}')

    def __iter__(self):
        unsup('iter path')
    __hash__ = Sym.__hash__


def install(vc):
    """ text models for a contract: str(int), int(text), hex, joins """
    import pathlib
    from . import models
    vc.texts = {}
    vc.keep = []
    vc.lost = False
    vc.sym_attrs[int, '__str__'] = lambda v: dec_text(vc, v)
    vc.sym_attrs[int, '__repr__'] = lambda v: models.model(lambda: dec_text(vc, v))
    vc.sym_attrs[str, '__int__'] = lambda v, *a: int_of_text(vc, v)
    vc.sym_attrs[bytes, '__int__'] = lambda v, *a: int_of_text(vc, v.text) if type(v) is STextBytes else unsup('int(bytes)')
    vc.sym_attrs[bytes, 'hex'] = lambda v: models.model(lambda: hex_text(vc, v))
    vc.method_models[bytes, 'fromhex'] = fromhex
    vc.builtin_models[any] = lambda vc, x: x._vc_any() if type(x) is SeqComp else models.m_any(vc, x)
    vc.builtin_models[all] = lambda vc, x: (SBool(z3.Not(x._vc_any(False).t)) if type(x) is SeqComp
                                            else models.m_all(vc, x))

    def m_join(vc, sep, xs):
        f = getattr(type(xs), '_vc_join', None)
        if f is not None:
            return f(xs, sep)
        return SText.of(sep).join(list(xs))
    vc.method_models[str, 'join'] = m_join
    vc.class_models[pathlib.PurePosixPath] = lambda *a: PPP.make(vc, pathlib.PurePosixPath, *a)
    vc.class_models[pathlib.PurePath] = vc.class_models[pathlib.PurePosixPath]
    vc.sym_attrs[pathlib.PurePosixPath, '__str__'] = lambda v: v.text()
