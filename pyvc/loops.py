"""Loops.  A loop over concrete iterables runs as it is (all its iterations).
A loop that may run an unknown number of times is cut: at its head every
location the body modifies (found by running the body; locals, attributes,
containers) is replaced by an arbitrary value of its kind, constrained by those
candidate invariants that hold on entry and are preserved by every path through
the body (Houdini); the second arrival at the head ends the path."""
import z3
from .values import *
from .values import UNBOUND
from .objects import SObj, attrs_of, VList, VDict, VSet


class Rec:
    def __init__(self):
        self.cands = {}      # name -> alive
        self.kinds = {}      # location key -> set of kinds
        self.seen = False


class Poison:
    """ a loop-modified value of a kind that cannot be generalised """

    def __init__(self, name):
        object.__setattr__(self, '_n', name)

    def __getattribute__(self, n):
        unsup(f'value of {object.__getattribute__(self, "_n")} after an arbitrary number of iterations')

    def _u(self, *a):
        unsup('poisoned loop variable')
    __bool__ = __eq__ = __iter__ = __len__ = __call__ = __getitem__ = _u
    __hash__ = object.__hash__


class Lazy(Poison):
    """ a local of several possible kinds, decided when it is first loaded """

    def __init__(self, name, make):
        object.__setattr__(self, '_n', name)
        object.__setattr__(self, '_make', make)
        object.__setattr__(self, '_val', None)


def force(v):
    g = object.__getattribute__
    if g(v, '_val') is None:
        object.__setattr__(v, '_val', (g(v, '_make')(),))
    return g(v, '_val')[0]


def kind_of(v):
    t = type(v)
    if t is Lazy:
        r = object.__getattribute__(v, '_val')
        if r is None:
            return ('undecided',)
        v, t = r[0], type(r[0])
    if v is UNBOUND:
        return ('unbound',)
    if v is None:
        return ('none',)
    if t is SBool or t is bool:
        return ('bool',)
    if t is SInt:
        return ('int', v.cls if isinstance(v.cls, type) and not issubclass(v.cls, bool) else int)
    if t is int:
        return ('int', int)
    if t is SReal or t is float:
        return ('real',)
    if t is SStr or t is str:
        return ('str',)
    if t is SOpt:
        return ('opt', kind_of(v.val))
    if t is SAny:
        return ('any', v.t.sort().name(), v.cls)
    k = getattr(t, '_vc_kind', None)
    if k is not None:
        return k(v)
    if t is bytes:
        return ('bytes',)
    return ('opaque', t.__name__)


class BaseLoop:
    def __init__(self, vc, lid, names):
        self.vc, self.lid, self.names = vc, vc.tag + lid, names
        self.n = 0
        self.begun = False       # decided whether this loop is cut
        self.cutting = False
        self.frozen = None

    def wrote(self, obj, attr):
        if not self.cutting:
            return
        # a write inside the body to a location that is not havocked?
        if type(obj) is SObj:
            if obj in self.born:
                return
            key = ('attr', self.objkey(obj), attr)
            if key is not None and key not in self.rec.kinds:
                self.rec.kinds[key] = set()
                self.vc.die(Restart())
        else:
            if id(obj) in self.containers:
                key = ('cont', self.containers[id(obj)])
                if key not in self.rec.kinds:
                    self.rec.kinds[key] = set()
                    self.vc.die(Restart())

    def objkey(self, o):
        return object.__getattribute__(o, '_vc_name')

    def env(self, loc):
        out = {}
        for k, v in loc.items():
            if type(v) is Lazy:
                v = object.__getattribute__(v, '_val')
                if v is None:
                    continue
                v = v[0]
            if not k.startswith('__vc'):
                out[k] = v
        return out

    def cands_now(self, loc):
        f = self.vc.candidates
        out = {}
        if f is None:
            return out
        try:
            for name, t in f(self.vc, self.lid, self.env(loc)):
                if t is None:
                    continue
                try:
                    out[name] = bt(t() if callable(t) and not is_sym(t) else t)
                except (AttributeError, TypeError, KeyError, IndexError):
                    continue
        except EngineExc:
            raise
        return out

    def locations(self, loc):
        """ current values of every location that may be havocked """
        out = {}
        for n in self.names:
            out[('local', n)] = loc.get(n, UNBOUND)
        return out

    def havoc_value(self, key, kinds, cur):
        vc = self.vc
        kinds = sorted(kinds, key=repr)
        if not kinds:
            return cur
        if len(kinds) > 1:
            def make():
                return self.fresh(kinds[vc.choose(len(kinds), f'kind of {key}')], key, cur)
            if key[0] == 'local' and ('unbound',) in kinds and not getattr(vc, 'eager_locals', False):
                return Lazy(key[1], make)
            return make()
        else:
            k = kinds[0]
        return self.fresh(k, key, cur)

    def fresh(self, k, key, cur):
        vc = self.vc
        nm = f'{key[-1]}'
        if k[0] == 'none':
            return None
        if k[0] == 'unbound':
            return UNBOUND
        if k[0] == 'bool':
            return vc.bool(nm)
        if k[0] == 'int':
            return vc.int(nm, cls=k[1])
        if k[0] == 'real':
            return SReal(z3.Real(vc._n(nm)))
        if k[0] == 'str':
            return vc.str(nm)
        if k[0] == 'any':
            if type(cur) is SAny:
                return vc.any(nm, k[2], cur.t.sort(), **cur.attrs)
            return Poison(nm)
        if k[0] == 'opt':
            return vc.opt(self.fresh(k[1], key, cur.val if type(cur) is SOpt else cur), nm)
        fk = vc.kind_makers.get(k[0]) if hasattr(vc, 'kind_makers') else None
        if fk is not None:
            return fk(vc, k, nm, cur)
        if k[0] == 'bytes':
            fk = vc.kind_makers.get('sbytes')
            return fk(vc, k, nm, cur)
        return Poison(nm)

    def head(self, loc):
        vc = self.vc
        vc.guard()
        self.n += 1
        vals = tuple(loc.get(n, UNBOUND) for n in self.names)
        if vc.unroll is not None and self.should_cut():
            return self.unrolled(vals)
        if not self.cutting and not self.begun and self.should_cut():
            self.begun = True
            self.begin_cut(loc)
            out = []
            for n in self.names:
                key = ('local', n)
                out.append(self.rec_value(key, loc.get(n, UNBOUND)))
            env = dict(loc)
            env.update(zip(self.names, out))
            self.havoc_heap()
            self.assume_inv(env)
            self.snapshot(dict(zip(self.names, out)))
            return (*out, None)
        if self.cutting:
            f = getattr(getattr(self, 'sit', None), 'end_iteration', None)
            if f is not None:
                f()
            self.back_edge(loc)
        else:
            self.begun = self.begun or not self.pending()
            self.step_concrete()
        return (*vals, None)

    def pending(self):
        return False

    def unrolled(self, vals):
        """ confirming a refutation: the loop runs as it is, executions with
            more than vc.unroll iterations are dropped """
        if self.n > 1 and not self.first_symbolic():
            f = getattr(getattr(self, 'sit', None), 'end_iteration', None)
            if f is not None:
                f()
        if self.n > self.vc.unroll + 1:
            self.vc.die(PathCut('unrolled'))
        return (*vals, None)

    def first_symbolic(self):
        return False

    def step_concrete(self):
        if self.n > self.vc.fuel:
            unsup(f'loop {self.lid}: more than {self.vc.fuel} iterations unrolled')

    def begin_cut(self, loc):
        vc = self.vc
        vc.cutpath = True
        self.rec = vc.looprec.setdefault(self.lid, Rec())
        cands = self.cands_now(loc)
        if not self.rec.seen:
            self.rec.seen = True
            for c in cands:
                self.rec.cands[c] = True
        dropped = False
        live = [c for c, a in self.rec.cands.items() if a]
        if all(c in cands for c in live) and vc.valid(SBool(z3.And([cands[c] for c in live]))):
            live = None
        for c, alive in list(self.rec.cands.items()):
            if live is None:
                break
            if not alive:
                continue
            if c not in cands or not vc.valid(SBool(cands[c])):
                self.rec.cands[c] = False
                dropped = True
        if dropped and getattr(self.rec, 'used', False):
            vc.die(Restart())
        self.rec.used = True
        self.cutting = True
        self.born = set()
        self.containers = {}
        self.pre_objs = list(vc.objs)
        for k, v in self.env(loc).items():
            if type(v) is not Poison and isinstance(v, (VList, VDict, VSet)):
                self.containers[id(v)] = k
        for o in self.pre_objs:
            for a, v in attrs_of(o).items():
                if isinstance(v, (VList, VDict, VSet)):
                    self.containers[id(v)] = (self.objkey(o), a)
        vc.activeloops.append(self)
        for c, alive in self.rec.cands.items():
            if alive:
                vc.res.obligations.append(_ob(f'{self.lid}: invariant {c} holds on entry'))

    def rec_value(self, key, cur):
        if key in self.rec.kinds:
            ks = set(self.rec.kinds[key])
            if kind_of(cur) != ('undecided',):
                ks.add(kind_of(cur))
            self.rec.kinds[key] = ks
            if len(ks) > 1 and ('unbound',) in ks:
                # first iteration: unbound, later bound: both explored
                pass
            return self.havoc_value(key, ks, cur)
        return cur

    def havoc_heap(self):
        for o in self.pre_objs:
            ok = self.objkey(o)
            at = attrs_of(o)
            for key in list(self.rec.kinds):
                if key[0] == 'attr' and key[1] == ok and key[2] in at:
                    at[key[2]] = self.rec_value(key, at[key[2]])
        for key in list(self.rec.kinds):
            if key[0] == 'cont':
                unsup(f'loop {self.lid} mutates a concrete container {key[1]}')
        self.born = _Born(self.pre_objs)

    def snapshot(self, loc):
        self.snap = dict(loc)
        self.snap_heap = {}
        for o in self.pre_objs:
            for a, v in attrs_of(o).items():
                self.snap_heap[id(o), a] = v

    def assume_inv(self, env):
        vc = self.vc
        cands = self.cands_now(env)
        for c, alive in self.rec.cands.items():
            if alive and c in cands:
                vc._assume(cands[c])
        if vc._check() == z3.unsat:
            vc.die(PathCut('loop invariant infeasible'))

    def back_edge(self, loc):
        vc = self.vc
        again = False
        for n in self.names:
            v = loc.get(n, UNBOUND)
            old = self.snap.get(n, UNBOUND)
            key = ('local', n)
            k = kind_of(v)
            if k == ('undecided',):
                continue
            if key in self.rec.kinds:
                if k not in self.rec.kinds[key]:
                    self.rec.kinds[key].add(k)
                    again = True
            elif v is not old and not _same(v, old):
                self.rec.kinds[key] = {k}
                again = True
        for o in self.pre_objs:
            for a, v in attrs_of(o).items():
                key = ('attr', self.objkey(o), a)
                if key in self.rec.kinds:
                    k = kind_of(v)
                    if k not in self.rec.kinds[key]:
                        self.rec.kinds[key].add(k)
                        again = True
        cands = self.cands_now(loc)
        live = [c for c, a in self.rec.cands.items() if a]
        if all(c in cands for c in live) and vc.valid(SBool(z3.And([cands[c] for c in live]))):
            live = None
        for c, alive in list(self.rec.cands.items()):
            if live is not None and alive and (c not in cands or not vc.valid(SBool(cands[c]))):
                self.rec.cands[c] = False
                again = True
        if again:
            vc.die(Restart())
        for c, alive in self.rec.cands.items():
            if alive:
                vc.res.obligations.append(_ob(f'{self.lid}: invariant {c} preserved'))
        vc.die(PathCut('back edge'))

    def done(self):
        if self.cutting:
            self.cutting = False
            if self in self.vc.activeloops:
                self.vc.activeloops.remove(self)


def _ob(name):
    from .engine import Obligation
    return Obligation(name, 'discharged', solver='z3')


class _Born:
    def __init__(self, pre):
        self.pre = set(id(o) for o in pre)

    def __contains__(self, o):
        return id(o) not in self.pre


def _same(a, b):
    if type(a) is not type(b) or type(a) in (Lazy, Poison):
        return a is b
    if isinstance(a, (int, str, bytes, bool)) and not is_sym(a):
        return a == b
    if hasattr(a, 't') and hasattr(b, 't'):
        try:
            return a.t.eq(b.t)
        except Exception:
            return False
    f = getattr(type(a), '_vc_same', None)
    if f is not None:
        return f(a, b)
    return False


class WhileLoop(BaseLoop):
    def should_cut(self):
        c = self.vc.cut_loops
        return c(self.lid) if callable(c) else c


class ForLoop(BaseLoop):
    def __init__(self, vc, lid, names, it):
        super().__init__(vc, lid, names)
        if type(it) is SOpt:
            it = it._r()
        self.prefix = list(getattr(it, '_vc_prefix', ()))
        self.inprefix = False
        self.sit = getattr(it, '_vc_iter', None)
        if self.sit is not None:
            self.sit = self.sit()
        else:
            self.it = iter(it)
        self._next = None

    def should_cut(self):
        return self.sit is not None and not self.prefix

    def pending(self):
        return bool(self.prefix)

    def first_symbolic(self):
        return self.inprefix

    def step_concrete(self):
        pass

    def has_next(self):
        vc = self.vc
        vc.guard()
        if self.prefix:
            self.inprefix = True
            self._next = self.prefix.pop(0)
            return True
        if self.sit is not None:
            self.inprefix = False
            return self.sit.has_next()
        try:
            self._next = next(self.it)
            return True
        except StopIteration:
            return False

    def next(self):
        if self.sit is not None and not self.inprefix:
            return self.sit.next()
        return self._next


class Chain:
    """ itertools.chain: concrete elements, then a symbolic iterable """
    _vc_model = True

    def __init__(self, vc, prefix, tail):
        self.vc, self._vc_prefix, self.tail = vc, list(prefix) + list(getattr(tail, '_vc_prefix', ())), tail

    def _vc_iter(self):
        return self.tail._vc_iter()

    def _vc_next(self, *d):
        if self._vc_prefix:
            return self._vc_prefix.pop(0)
        return type(self.tail)._vc_next(self.tail, *d)


class OnceList:
    """ list() of a symbolic iterable, iterated over (at most) once """
    _vc_model = True

    def __init__(self, vc, it):
        self.vc, self.it, self.used = vc, it, False
        self._vc_prefix = list(getattr(it, '_vc_prefix', ()))

    def _vc_iter(self):
        if self.used:
            unsup('a second iteration over a list of symbolic length')
        self.used = True
        return self.it._vc_iter()

    def _u(self, *a):
        unsup('operation on a list of symbolic length')
    __bool__ = __len__ = __getitem__ = __contains__ = __eq__ = __add__ = __radd__ = append = extend = pop = sort = _u
    __hash__ = object.__hash__
