"""PyVC: path-wise verification-condition generation over real Python functions.

A contract (contracts/*.py) builds symbolic inputs, assumes the precondition,
calls the real function through `vc.call` and proves the postcondition.  Every
path of the function (all branch outcomes, all exceptions the callee contracts
may raise, loops cut by invariants) is explored by re-execution; every
`vc.prove` on every path is one obligation for the solver:  path condition =>
goal.  A contract is discharged when all its obligations are unsat-proved, no
path was left unexplored, and at least one path reached its end."""
import os
import sys
import time
import types
import builtins
import z3
from .values import *
from .values import CTX, Unbound
from . import transform as tr

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))


class Obligation:
    __slots__ = ('name', 'status', 'detail', 'witness', 'path', 'solver', 'smt', 'secs', 'cut')

    def __init__(self, name, status, detail=None, witness=None, path=None, solver='z3', smt=None, secs=0.0):
        self.name, self.status, self.detail = name, status, detail
        self.witness, self.path, self.solver, self.smt = witness, path, solver, smt
        self.secs = secs
        self.cut = False       # the path went through a loop cut by invariants


class Result:
    def __init__(self, name):
        self.name = name
        self.obligations = []
        self.paths = 0
        self.ends = 0
        self.unsupported = []
        self.errors = []
        self.functions = set()
        self.assumed = set()
        self.solver_s = 0.0
        self.wall = 0.0
        self.covers = {}
        self.loops = {}
        self.complete = True

    @property
    def status(self):
        if any(o.status == 'refuted' for o in self.obligations):
            return 'refuted'
        if (self.unsupported or self.errors or not self.complete or
                any(o.status != 'discharged' for o in self.obligations)):
            return 'undecided'
        if not self.obligations or not self.ends:
            return 'vacuous'
        if any(not v for v in self.covers.values()):
            return 'vacuous'
        return 'proved'


class Call:
    """ outcome of a call of code under test """

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *types_):
        return self.exc is not None and isinstance(self.exc, types_)


class VC:
    UNBOUND = UNBOUND

    def __init__(self, name, spec, max_paths=4000, timeout_ms=10000, budget_s=120, seed=1, second=None, unroll=None):
        self.cname = name
        self.spec = spec
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.budget_s = budget_s
        self.seed = seed
        self.second = second       # second solver callback(smt2) -> 'unsat'/'sat'/...
        self.unroll = unroll       # k: loops are not cut but run up to k times (to confirm a refutation)
        self.looprec = {}          # survives re-execution
        self._globals = {}
        self._defclass = {}

    # ---------------------------------------------------------------- exploring
    def run(self):
        t0 = time.time()
        while True:
            self.res = Result(self.cname)
            self.worklist = [[]]
            restart = False
            try:
                while self.worklist:
                    if self.res.paths >= self.max_paths or time.time() - t0 > self.budget_s:
                        self.res.complete = False
                        self.res.unsupported.append(
                            f'exploration budget: {self.res.paths} paths, {time.time()-t0:.0f}s')
                        break
                    self._one(self.worklist.pop())
            except Restart:
                restart = True
            if not restart:
                break
            if time.time() - t0 > self.budget_s:
                self.res.complete = False
                self.res.unsupported.append('exploration budget (loop abstraction)')
                break
        self.res.wall = time.time() - t0
        self.res.loops = {str(k): sorted(c for c, a in r.cands.items() if a)
                          for k, r in self.looprec.items()}
        return self.res

    def _one(self, prefix):
        CTX[0] = self
        self.prefix = prefix
        self.decisions = []
        self.pos = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        self.solver.set('random_seed', self.seed)
        self.pc = []
        self.trail = []
        self.fresh_n = 0
        self.literals = {}
        self.dead = None
        self.cutpath = False
        self.shadow = {}
        self.stubs = {}            # function/callable identity -> contract
        self.class_stubs = {}      # (class, name) -> contract / Prop
        self.class_models = {}     # class -> constructor model
        self.cut_loops = True
        self.candidates = None
        self.witness_fn = None
        self.activeloops = []
        self.objs = []
        self.fuel = 64
        self.nested = 0
        self.facts = []
        self.depth = 0
        self.sym_attrs = {}        # (cls, name) -> handler
        self.modules = {}
        self.tag = ''
        self.res.paths += 1
        from . import models
        models.install(self)
        try:
            self.spec(self)
            self.guard()
            self.res.ends += 1
        except PathCut:
            pass
        except Restart:
            raise
        except Unsupported as e:
            self.res.unsupported.append(f'{e} @ {self._where()} {self.trail[-3:]}')
        except RecursionError:
            self.res.unsupported.append('recursion')
        except Exception as e:
            if isinstance(self.dead, Restart):
                raise self.dead
            if isinstance(self.dead, Unsupported):
                self.res.unsupported.append(f'{self.dead}')
                return
            if self.dead is not None:
                return
            import traceback
            self.res.errors.append(''.join(traceback.format_exception(e))[-1800:])
        finally:
            CTX[0] = None

    def _where(self):
        return ''

    # ---------------------------------------------------------------- decisions
    def guard(self):
        if self.dead is not None:
            raise self.dead

    def die(self, e):
        self.dead = self.dead or e
        raise e

    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.res.solver_s += time.time() - t
        return r

    def branch(self, cond, note=None):
        self.guard()
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            d = bool(d)
            self._assume(cond if d else z3.Not(cond))
            return d
        t = self._check(cond) != z3.unsat
        f = self._check(z3.Not(cond)) != z3.unsat
        if not t and not f:
            self.die(PathCut('infeasible'))
        if t and f:
            self.worklist.append(self.decisions + [0])
        d = 1 if t else 0
        self.pos += 1
        self.prefix = self.prefix + [d]
        self.decisions.append(d)
        self._assume(cond if d else z3.Not(cond))
        return bool(d)

    def choose(self, n, label=''):
        """ a nondeterministic choice among n alternatives: all are explored """
        self.guard()
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
        else:
            for k in range(n - 1, 0, -1):
                self.worklist.append(self.decisions + [k])
            d = 0
            self.pos += 1
            self.prefix = self.prefix + [d]
            self.decisions.append(d)
        if label:
            self.trail.append(f'{label}={d}')
        return d

    def maybe(self, label=''):
        return bool(self.choose(2, label))

    def _assume(self, t):
        self.pc.append(t)
        self.solver.add(t)

    def fact(self, t):
        """ an axiom about a value: also holds outside a nested exploration """
        self._assume(t)
        if self.nested:
            self.facts.append(t)

    def cases(self, fn):
        """ explore a side-effect free computation: [(condition, value)] """
        saved = self.prefix, self.decisions, self.pos, self.worklist, list(self.trail)
        wl = [[]]
        out = []
        self.nested += 1
        try:
            while wl:
                if len(out) > 200:
                    unsup('too many cases')
                self.prefix, self.decisions, self.pos, self.worklist = wl.pop(), [], 0, wl
                n = len(self.pc)
                nf = len(self.facts)
                self.solver.push()
                try:
                    v = fn()
                    out.append((z3.And(*self.pc[n:]) if self.pc[n:] else z3.BoolVal(True), v))
                except PathCut:
                    self.dead = None
                except EngineExc:
                    raise
                except Exception as e:
                    unsup(f'nested computation raises {type(e).__name__}: {e}')
                finally:
                    del self.pc[n:]
                    self.solver.pop()
                for f in self.facts[nf:]:
                    self._assume(f)
        finally:
            self.nested -= 1
            self.prefix, self.decisions, self.pos, self.worklist, self.trail = saved
        return out

    def assume(self, c):
        self.guard()
        if c is True:
            return
        t = bt(c)
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        if z3.is_false(t):
            self.die(PathCut('assume false'))
        self._assume(t)
        if self._check() == z3.unsat:
            self.die(PathCut('assume infeasible'))

    def feasible(self, c):
        return self._check(bt(c)) != z3.unsat

    def valid(self, c):
        t = z3.simplify(bt(c))
        if z3.is_true(t):
            return True
        return self._check(z3.Not(t)) == z3.unsat

    def need(self, c, exc):
        """ the operation raises exc unless c holds (a CPython rule) """
        if not self.branch(c):
            raise exc

    def cover(self, name, reached=True):
        self.res.covers[name] = self.res.covers.get(name, False) or bool(reached)

    def prove(self, name, goal):
        """ one obligation: path condition implies goal """
        self.guard()
        if goal is True:
            t = z3.BoolVal(True)
        elif goal is False:
            t = z3.BoolVal(False)
        else:
            t = bt(goal)
        s = z3.simplify(t)
        t1 = time.time()
        if z3.is_true(s):
            # still an obligation: the path condition decides it syntactically
            self.res.obligations.append(Obligation(name, 'discharged', solver='simplify'))
            return True
        r = self._check(z3.Not(t))
        secs = time.time() - t1
        if r == z3.unsat:
            smt = None
            if self.second is not None:
                smt = self._smt2(t)
            self.res.obligations.append(Obligation(name, 'discharged', smt=smt, secs=secs))
            self._assume(t)
            return True
        if r == z3.unknown:
            r2 = self._cvc5(t)
            if r2 == 'unsat':
                self.res.obligations.append(Obligation(name, 'discharged', solver='cvc5', secs=secs))
                self._assume(t)
                return True
            self.res.obligations.append(Obligation(
                name, 'undecided', detail=f'z3: {self.solver.reason_unknown()}; cvc5: {r2}',
                path=list(self.trail), secs=secs))
            self._assume(t)
            return False
        m = self.solver.model()
        w = None
        if self.witness_fn is not None:
            try:
                w = self.witness_fn(m)
            except EngineExc:
                self.dead = None
                w = None
            except Exception as e:
                w = None
        self.res.obligations.append(Obligation(
            name, 'refuted', detail=_model_text(m), witness=w,
            path=[str(x) for x in self.trail] + [str(p)[:200] for p in self.pc[-12:]]))
        self.res.obligations[-1].cut = self.cutpath
        self._assume(t)
        if self._check() == z3.unsat:
            self.die(PathCut('refuted'))
        return False

    def _smt2(self, goal):
        s = z3.Solver()
        s.add(*self.pc)
        s.add(z3.Not(goal))
        return s.to_smt2()

    def _cvc5(self, goal, timeout=8):
        import subprocess
        try:
            txt = self._smt2(goal)
            p = subprocess.run(['cvc5', '--lang', 'smt2', f'--tlimit={timeout*1000}', '--strings-exp'],
                               input='(set-logic ALL)\n' + txt, capture_output=True, text=True,
                               timeout=timeout + 2)
            return (p.stdout.strip().split('\n') or [''])[0]
        except Exception as e:
            return f'error {type(e).__name__}'

    # ---------------------------------------------------------------- fresh values
    def _n(self, name):
        self.fresh_n += 1
        return f'{name}!{self.fresh_n}'

    def int(self, name='i', lo=None, hi=None, cls=int):
        t = z3.Int(self._n(name))
        if lo is not None:
            self._assume(t >= lo)
        if hi is not None:
            self._assume(t <= hi)
        return SInt(t, cls)

    def real(self, name='r'):
        return SReal(z3.Real(self._n(name)))

    def bits(self, name='m', width=16):
        b = z3.BitVec(self._n(name), BITS)
        self._assume(z3.ULT(b, z3.BitVecVal(1 << width, BITS)))
        return SInt(z3.BV2Int(b), bv=b)

    def bool(self, name='b'):
        return SBool(z3.Bool(self._n(name)))

    def str(self, name='s'):
        return SStr(z3.String(self._n(name)))

    def any(self, name='v', cls=object, sort=None, **attrs):
        return SAny(z3.Const(self._n(name), VAL if sort is None else sort), cls, **attrs)

    def literal(self, sort, o):
        """ the value of an opaque sort that is the constant o """
        ls = self.literals.setdefault(sort.name(), {})
        k = (type(o).__name__, o)
        if k not in ls:
            t = z3.Const(f'literal_{sort.name()}_{type(o).__name__}_{o!r}', sort)
            for x in ls.values():
                self.fact(x != t)
            ls[k] = t
        return ls[k]

    def opt(self, val, name='o'):
        return SOpt(z3.Bool(self._n(name + '_none')), val)

    def obj(self, cls, name=None, /, stubs=None, ident=None, **attrs):
        from .objects import SObj
        return SObj(self, cls, name or cls.__name__, attrs, stubs or {}, ident)

    # ---------------------------------------------------------------- hooks
    def ld(self, v, name):
        if type(v) is Lazy:
            v = force(v)
        if v is UNBOUND:
            raise UnboundLocalError(name)
        return v

    def unsupported(self, msg):
        unsup(msg)

    def defining_class(self, func):
        """ the class whose body defines func (for zero-argument super) """
        for c in func.__closure__ or ():
            pass
        qn = func.__qualname__.split('.')
        mod = __import__('sys').modules[func.__module__]
        o = mod
        for p in qn[:-1]:
            o = getattr(o, p)
        return o

    def globals_for(self, func):
        m = func.__module__
        k = id(func.__globals__)
        g = self._globals.get(k)
        if g is None:
            g = dict(func.__globals__)
            g[tr.VC] = self
            self._globals[k] = g
        ov = self.modules.get(m)
        if ov:
            g.update(ov)
        return g

    def transformed(self, func):
        try:
            return tr.transform(func, self)
        except (LookupError, SyntaxError) as e:
            unsup(f'extraction of {func.__qualname__}: {e}')

    def super_(self, cls, obj):
        from .objects import SObj, SuperM
        if type(obj) is SObj or isinstance(obj, type) or is_sym(obj):
            return SuperM(self, cls, obj)
        return super(cls, obj)

    def is_(self, a, b):
        self.guard()
        if a is b:
            return True
        if type(a) is SOpt and b is None:
            return self.branch(a.isnone)
        if type(b) is SOpt and a is None:
            return self.branch(b.isnone)
        if type(a) is SOpt:
            return self.is_(a._r(), b)
        if type(b) is SOpt:
            return self.is_(a, b._r())
        if type(a) is SBool and type(b) is bool:
            return self.branch(a.t == z3.BoolVal(b))
        if type(b) is SBool and type(a) is bool:
            return self.branch(b.t == z3.BoolVal(a))
        if a is None or b is None or a is True or a is False or b is True or b is False:
            if is_sym(a) or is_sym(b):
                return False
        from .objects import SObj
        if type(a) is SObj and type(b) is SObj:
            return False
        if is_sym(a) or is_sym(b):
            if type(a) is type(b) and type(a) in (SInt, SStr, SAny):
                unsup('identity of symbolic values')
            return False
        return a is b

    def isnot(self, a, b):
        return not self.is_(a, b)

    def in_(self, a, b):
        self.guard()
        if type(b) is SOpt:
            b = b._r()
        if type(b) is str and is_sym(a):
            t = SStr.T(a)
            if t is None:
                raise TypeError("'in <string>' requires string as left operand")
            return self.branch(z3.Contains(z3.StringVal(b), t))
        if type(b) in (dict, set, frozenset) or (type(b).__name__ in ('VDict', 'VSet')):
            return self._in_hash(a, b)
        return a in b

    def _in_hash(self, a, b):
        from .objects import SObj
        if is_sym(a) or type(a) is SObj or (isinstance(a, tuple) and any(is_sym(x) for x in a)):
            for k in list(b):
                if a is k:
                    return True
                e = a == k
                if e if isinstance(e, bool) and not is_sym(e) else bool(e):
                    return True
            return False
        if any(is_sym(k) or type(k) is SObj for k in b):
            for k in list(b):
                if bool(a == k):
                    return True
            return False
        return a in b

    def notin(self, a, b):
        return not self.in_(a, b)

    def attr_shadow(self, owner, name, v):
        k = (id(v))
        if k not in self.shadow:
            from .objects import VList, VDict, VSet
            if type(v) is list:
                c = VList(v)
            elif type(v) is dict:
                c = VDict(v)
            else:
                c = VSet(v)
            self.shadow[k] = c, v
        return self.shadow[k][0]

    def attr(self, obj, name, asked=False):
        try:
            v = getattr(obj, name)
        except AttributeError:
            if not asked and getattr(type(obj), '_vc_model', False) and not hasattr(obj, name):
                unsup(f'model gap: {type(obj).__name__}.{name}')
            raise
        if type(v) in (list, dict, set) and (isinstance(obj, (type, types.ModuleType))):
            return self.attr_shadow(obj, name, v)
        return v

    def fstr(self, parts):
        from . import models
        return models.fstr(self, parts)

    def mod(self, a, b):
        if isinstance(a, str) and not is_sym(a):
            vals = b if isinstance(b, tuple) else (b,)
            if any(is_sym(v) for v in vals):
                from . import models
                return models.percent(self, a, vals)
        if isinstance(a, (str, bytes)) and is_sym(a):
            unsup('% on symbolic string')
        return a % b

    def mul(self, a, b):
        if isinstance(a, (str, bytes, list, tuple)) and is_sym(b) and not is_sym(a):
            unsup('sequence repetition by symbolic count')
        return a * b

    def augop(self, op, a, b):
        import operator
        f = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul,
             'Div': operator.itruediv, 'FloorDiv': operator.ifloordiv, 'Mod': operator.imod,
             'BitAnd': operator.iand, 'BitOr': operator.ior, 'BitXor': operator.ixor,
             'RShift': operator.irshift, 'LShift': operator.ilshift, 'Pow': operator.ipow}[op]
        return f(a, b)

    def getitem(self, a, i):
        self.guard()
        from . import models
        return models.getitem(self, a, i)

    def mklist(self, l):
        from .objects import VList
        return VList(l)

    def mkstar(self, *parts):
        from . import models
        from .objects import VList
        out = None
        for star, v in parts:
            if out is None:
                out = models.m_list(self, v) if star else self.mklist([v])
            elif not star:
                out = out + [v]
            elif type(v).__name__ == 'SymList' and type(out) in (list, tuple, VList):
                out = list(out) + v._as(list)
            elif hasattr(type(v), '_vc_iter') and type(out) in (list, VList) and v is parts[-1][1]:
                from .loops import Chain, OnceList
                return OnceList(self, Chain(self, out, v))
            elif is_sym(v) or hasattr(type(v), '_vc_iter'):
                unsup('list display of a symbolic sequence')
            else:
                out = out + list(v)
        return self.mklist(out) if type(out) is list else out

    def mkstart(self, *parts):
        out = ()
        for star, v in parts:
            if not star:
                v = (v,)
            elif type(v).__name__ == 'SymList':
                v = v._as(tuple)
            elif type(v).__name__ == 'SymStack':
                v = v.copy(tuple)
            elif is_sym(v) or hasattr(type(v), '_vc_iter'):
                unsup('tuple display of a symbolic sequence')
            else:
                v = tuple(v)
            out = out + v
        return out

    def mkdict(self, d):
        from .objects import VDict
        return VDict(d)

    def iter_(self, x):
        return x

    def plain_iter(self, x):
        return hasattr(type(x), '__iter__') or not hasattr(type(x), '_vc_iter')

    def comp(self, kind, it, f):
        from . import models
        return models.comp(self, kind, it, f)

    def loop_while(self, lid, names):
        from .loops import WhileLoop
        self.guard()
        return WhileLoop(self, lid, names)

    def loop_for(self, lid, names, it):
        from .loops import ForLoop
        self.guard()
        return ForLoop(self, lid, names, it)

    def with_(self, ce):
        return WithM(self, ce)

    def note_write(self, obj, attr):
        for lp in self.activeloops:
            lp.wrote(obj, attr)

    # ---------------------------------------------------------------- calls
    def call(self, f, *args, **kw):
        from . import models
        return models.call(self, f, args, kw)

    def attempt(self, f, *args, **kw):
        """ call code under test and observe how it ends """
        try:
            return Call(value=self.call(f, *args, **kw))
        except Exception as e:
            self.guard()
            if isinstance(e, z3.Z3Exception):
                unsup(f'model gap: {e}')
            if isinstance(e, (TypeError, AttributeError, NotImplementedError)) and not any(
                    is_sym(a) for a in e.args) and _names_model(e) and not _none_cmp.search(str(e)):
                unsup(f'model gap: {e}')
            return Call(exc=e)
        except EngineExc:
            raise
        except BaseException as e:
            self.guard()
            return Call(exc=e)

    def sym_attr(self, v, name):
        from . import models
        return models.sym_attr(self, v, name)

    def repo_function(self, f):
        if not isinstance(f, types.FunctionType):
            return False
        fn = f.__code__.co_filename
        return os.path.realpath(fn).startswith(REPO + os.sep)


from .loops import Lazy, force  # noqa


class WithM:
    def __init__(self, vc, ce):
        self.vc, self.ce = vc, ce

    def __enter__(self):
        self.vc.guard()
        t = self.ce
        self.value = self.vc.call(getattr(t, '__enter__'))
        return self.value

    def __exit__(self, et, ev, tb):
        if self.vc.dead is not None or (et is not None and issubclass(et, EngineExc)):
            return False
        r = self.vc.call(getattr(self.ce, '__exit__'), et, ev, tb)
        return bool(r)


import re  # noqa
_internal = re.compile(r'\b(S(Int|Str|Text|Any|Obj|Bool|Real|Opt|Bytes|TextBytes|Hash)|VList|VDict|VSet|BoundM|BoundStub|SuperM|'
                       r'PPP|TextSeq|SeqComp|_vc_\w+)\b')
_stubs = re.compile(r'<locals>|<lambda>|\b__vc')


def _names_model(e):
    """ does the message of an error name a class or function of the verifier
        or of a contract: then the model lacks something, the code did not fail """
    m = str(e)
    if _internal.search(m) or _stubs.search(m):
        return True
    words = set(re.findall(r'\w+', m))
    for n, mod in list(sys.modules.items()):
        if n.startswith(('pyvc', 'contracts')):
            for k, v in vars(mod).items():
                if k in words and isinstance(v, type) and (getattr(v, '__module__', '') or '').startswith(('pyvc', 'contracts')) \
                        and not issubclass(v, BaseException):
                    return True
    # the classes a contract makes for itself
    quoted = set(re.findall(r"'(\w+)'|\b(\w+)(?:\(\)|\.\w+)", m))
    quoted = {x for q in quoted for x in q if x}
    return any(c.__name__ in quoted and (c.__module__ or '').startswith(('pyvc', 'contracts')) and getattr(c, '_vc_model', False)
               for c in object.__subclasses__())


_none_cmp = re.compile(r"not supported between instances of ('NoneType'|'\w+' and 'NoneType')")
VAL = z3.DeclareSort('Val')


def _model_text(m):
    try:
        return '; '.join(f'{d.name()}={str(m[d])[:120]}' for d in m.decls()[:60])
    except Exception:
        return '?'
