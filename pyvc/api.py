"""What a contract module imports."""
import sys
import os

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
VENV = '/opt/venv/lib/python3.12/site-packages'
if VENV not in sys.path:
    sys.path.append(VENV)

import z3  # noqa
from augpathlib.exceptions import AugPathlibError  # noqa
from .values import *  # noqa
from .values import UNBOUND, Unsupported, PathCut  # noqa
from .engine import VC, Call, VAL, CTX  # noqa
from .objects import SObj, Prop, Absent, VList, VDict, VSet, attrs_of, MISSING, BoundM  # noqa
from .models import model  # noqa
from . import text as textmod  # noqa
from .text import SText, TextSeq, ElemBase, Base, PPP, STextBytes  # noqa
from .streams import *  # noqa
from .symlist import SymList, SymStack  # noqa


class Boom(BaseException):
    """ An injected failure: one outside of Exception (as KeyboardInterrupt is), or one that
        every handler of the usual families catches; which of the two is chosen per path. """

    def __new__(cls, *args):
        vc = CTX[0]
        if cls is Boom and vc is not None and vc.choose(2, 'kind of the failure'):
            return EveryBoom(*args)
        return BaseException.__new__(cls, *args)


class EveryBoom(Boom, OSError, ValueError, RuntimeError, LookupError, TypeError, ArithmeticError, AssertionError, EOFError, AugPathlibError):
    def __new__(cls, *args):
        return OSError.__new__(cls, *args)


class Contract:
    def __init__(self, fn, name, opts):
        self.fn, self.name, self.opts = fn, name, opts


def contract(name, **opts):
    """ register a contract in the calling module's CONTRACTS list """
    def deco(fn):
        g = fn.__globals__
        g.setdefault('CONTRACTS', []).append(Contract(fn, name, opts))
        return fn
    return deco


def And(*xs):
    return SBool(z3.And(*[bt(x) for x in xs]))


def Or(*xs):
    return SBool(z3.Or(*[bt(x) for x in xs]))


def Not(x):
    return SBool(z3.Not(bt(x)))


def Implies(a, b):
    return SBool(z3.Implies(bt(a), bt(b)))


def Iff(a, b):
    return SBool(bt(a) == bt(b))


def val(m, v):
    """ python value of a symbolic value in a model (for witnesses) """
    if type(v) is SBool:
        return z3.is_true(m.eval(v.t, model_completion=True))
    if type(v) is SInt:
        r = m.eval(v.t, model_completion=True)
        return r.as_long() if z3.is_int_value(r) else None
    if type(v) is SStr:
        r = m.eval(v.t, model_completion=True)
        return z3str(r)
    if type(v) is SReal:
        r = m.eval(v.t, model_completion=True)
        return float(r.as_fraction())
    if type(v) is SOpt:
        if z3.is_true(m.eval(v.isnone, model_completion=True)):
            return None
        return val(m, v.val)
    if type(v) is SText:
        return text_val(m, v)
    if type(v) is TextSeq:
        n = val(m, SInt(v.n))
        return [text_val(m, v.elem(z3.IntVal(i))) for i in range(min(n, 4))]
    if type(v) is SAny:
        return str(m.eval(v.t, model_completion=True))
    return v


def text_val(m, t):
    out = ''
    for s in t.segs:
        if s[0] == 'c':
            out += s[1]
            continue
        if s[0] != 'b':
            return None
        b, mp = s[1], s[2]
        T = lambda f: z3.is_true(m.eval(f, model_completion=True))
        if isinstance(b, ElemBase):
            hs = [chr(int(w[4:])) for w, f in b.root.fns.items() if w.startswith('has_') and T(f(b.i))]
            k = '' if '' in [] or ('is_' in b.root.fns and T(b.root.fns['is_'](b.i))) else 'e' + ''.join(hs)
        else:
            k = next((k for k, e in b._is.items() if T(e)), None)
            if k is None:
                if b.tag and b.tag[0] == 'dec':
                    k = str(val(m, b.tag[1]))
                else:
                    k = 'a' + ''.join(c for c, h in b._has.items() if T(h))
        out += ''.join(mp.get(c, c) for c in k)
    return out


def z3str(r):
    import re
    s = r.as_string()
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda k: chr(int(k.group(1), 16)), s)


def fs(vc, name, /, **more):
    """ what can be asked about a path of which the contract says nothing: it can be anything
        that paths can be, the same every time (chosen when first asked) """
    kind = []

    def k():
        if not kind:
            kind.append(vc.choose(5, f'{name}: missing, file, directory, broken link, link to a file'))
        return kind[0]
    out = {'exists': lambda s: k() in (1, 2, 4), 'is_file': lambda s: k() in (1, 4), 'is_dir': lambda s: k() == 2,
           'is_symlink': lambda s: k() in (3, 4), 'is_broken_symlink': lambda s: k() == 3}
    out.update(more)
    return out
