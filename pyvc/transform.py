"""Mechanical extraction: the AST of a function of /repo, with hooks added.

The function is looked up by its real code object (co_filename, co_firstlineno)
in the file it was imported from, so what is verified is what runs.  Nothing is
dropped from the body except decorators (the object they were applied to is the
one we were handed) and annotations; what is added:

  f(x)            ->  __vc.call(f, x)            calls go through contracts
  super()         ->  __vc.super_(__class__, s)
  a is b, a in b  ->  __vc.is_(a, b), __vc.in_(a, b)
  f'..{x}..'      ->  __vc.fstr((..., x, ...))
  a[i]            ->  __vc.getitem(a, i)         (loads only)
  'fmt' % x       ->  __vc.mod('fmt', x)
  [..], {..:..}   ->  __vc.mklist / __vc.mkdict  (displays; tracked containers)
  comprehensions  ->  __vc.comp(kind, iterable, closure)
  while/for       ->  the same loop with a head hook where the loop may be cut
  except/finally  ->  the same, with a guard so that engine exceptions pass
"""
import ast
import copy
import inspect
import types
import functools

VC = '__vc'


@functools.lru_cache(None)
def _module_ast(filename):
    with open(filename, 'rb') as f:
        src = f.read()
    tree = ast.parse(src, filename)
    return tree


def find_def(code):
    """ the def / lambda node with this code object's position """
    tree = _module_ast(code.co_filename)
    best = None
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            first = min([node.lineno] + [d.lineno for d in node.decorator_list])
            if first == code.co_firstlineno and node.name == code.co_name:
                best = node
        elif isinstance(node, ast.Lambda) and code.co_name == '<lambda>':
            if node.lineno == code.co_firstlineno:
                best = node
    if best is None:
        raise LookupError(f'no def found for {code}')
    return best


def assigned_names(nodes):
    """ names bound by these statements (not descending into nested scopes) """
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        def visit_ExceptHandler(self, n):
            # the handler name is deleted at the end of the handler
            for s in n.body:
                self.visit(s)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
        visit_ClassDef = visit_Lambda

        def visit_Import(self, n):
            for a in n.names:
                nm = (a.asname or a.name).split('.')[0]
                if nm not in out:
                    out.append(nm)
        visit_ImportFrom = visit_Import
    v = V()
    for n in nodes:
        v.visit(n)
    return out


def _name(id, ctx=None):
    return ast.Name(id=id, ctx=ctx or ast.Load())


def _vc(attr, *args):
    return ast.Call(func=ast.Attribute(value=_name(VC), attr=attr, ctx=ast.Load()),
                    args=list(args), keywords=[])


def _handler_names(fn):
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    return out


class T(ast.NodeTransformer):
    def __init__(self, qualname, classname, params, firstarg, loopvars, nloc=None):
        self.q = qualname
        self.classname = classname.lstrip('_') if classname else None
        self.params = params
        self.firstarg = firstarg
        self.loopvars = loopvars
        self.nloop = [0] if nloc is None else nloc
        self.uses_class = False

    # mangling
    def mangle(self, name):
        if (self.classname and name.startswith('__') and not name.endswith('__')
                and name != VC and not name.startswith('__vc')):
            return f'_{self.classname}{name}'
        return name

    def visit_Attribute(self, n):
        self.generic_visit(n)
        n.attr = self.mangle(n.attr)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(_vc('attr', n.value, ast.Constant(n.attr)), n)
        return n

    def visit_Name(self, n):
        n.id = self.mangle(n.id)
        if isinstance(n.ctx, ast.Load) and n.id in self.loopvars:
            return ast.copy_location(_vc('ld', n, ast.Constant(n.id)), n)
        return n

    def visit_arg(self, n):
        n.arg = self.mangle(n.arg)
        n.annotation = None
        return n

    def visit_Call(self, n):
        if (isinstance(n.func, ast.Name) and n.func.id == 'super'
                and not n.args and not n.keywords):
            self.uses_class = True
            return ast.copy_location(
                _vc('super_', _name('__class__'), _name(self.firstarg)), n)
        if (isinstance(n.func, ast.Name) and n.func.id == 'locals'):
            return ast.copy_location(_vc('unsupported', ast.Constant('locals()')), n)
        func = self.visit(n.func)
        args = [self.visit(a) for a in n.args]
        kws = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in n.keywords]
        c = _vc('call', func, *args)
        c.keywords = kws
        return ast.copy_location(c, n)

    def visit_Compare(self, n):
        left = self.visit(n.left)
        comps = [self.visit(c) for c in n.comparators]
        if len(n.ops) == 1:
            op, right = n.ops[0], comps[0]
            m = {ast.Is: 'is_', ast.IsNot: 'isnot', ast.In: 'in_', ast.NotIn: 'notin'}
            if type(op) in m:
                return ast.copy_location(_vc(m[type(op)], left, right), n)
            n.left, n.comparators = left, comps
            return n
        if any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in n.ops):
            return ast.copy_location(_vc('unsupported', ast.Constant('chained is/in')), n)
        n.left, n.comparators = left, comps
        return n

    def visit_JoinedStr(self, n):
        elts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                elts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(None)
                elts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec],
                                      ctx=ast.Load()))
        return ast.copy_location(_vc('fstr', ast.Tuple(elts=elts, ctx=ast.Load())), n)

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(_vc('getitem', self.visit(n.value), self.visit(n.slice)), n)
        return self.generic_visit(n)

    def visit_Expr(self, n):
        if not isinstance(n.value, ast.YieldFrom):
            return self.generic_visit(n)
        # yield from X, its value unused: a loop, where X is a model that only loops can iterate over
        loop = ast.For(target=_name('__vcyfe', ast.Store()), iter=_name('__vcyf'), orelse=[],
                       body=[ast.Expr(value=ast.Yield(value=_name('__vcyfe')))])
        ast.copy_location(loop, n)
        ast.fix_missing_locations(loop)
        loop = self.visit_For(loop)
        out = [ast.Assign(targets=[_name('__vcyf', ast.Store())], value=_vc('iter_', self.visit(n.value.value))),
               ast.If(test=_vc('plain_iter', _name('__vcyf')),
                      body=[ast.Expr(value=ast.YieldFrom(value=_name('__vcyf')))],
                      orelse=loop if isinstance(loop, list) else [loop])]
        for o in out:
            ast.copy_location(o, n)
            ast.fix_missing_locations(o)
        return out

    def visit_YieldFrom(self, n):
        n.value = _vc('iter_', self.visit(n.value))
        return n

    def visit_Slice(self, n):
        g = lambda x: self.visit(x) if x is not None else ast.Constant(None)
        return ast.copy_location(
            ast.Call(func=_name('slice'), args=[g(n.lower), g(n.upper), g(n.step)], keywords=[]), n)

    def visit_Assign(self, n):
        n.value = self.visit(n.value)
        n.targets = [self._target(t) for t in n.targets]
        return n

    def _target(self, t):
        if isinstance(t, ast.Subscript):
            # a[i:j] = x keeps a plain slice
            t.value = self.visit(t.value)
            if isinstance(t.slice, ast.Slice):
                for f in ('lower', 'upper', 'step'):
                    v = getattr(t.slice, f)
                    if v is not None:
                        setattr(t.slice, f, self.visit(v))
            else:
                t.slice = self.visit(t.slice)
            return t
        if isinstance(t, (ast.Tuple, ast.List)):
            t.elts = [self._target(e) for e in t.elts]
            return t
        if isinstance(t, ast.Starred):
            t.value = self._target(t.value)
            return t
        return self.visit(t)

    def visit_AugAssign(self, n):
        # x op= v  ->  x = x op v   (lists: += mutates; handled by tracked lists)
        n.value = self.visit(n.value)
        if isinstance(n.target, ast.Name):
            load = self.visit(_name(n.target.id))
            return ast.copy_location(
                ast.Assign(targets=[_name(self.mangle(n.target.id), ast.Store())],
                           value=_vc('augop', ast.Constant(type(n.op).__name__), load, n.value)), n)
        n.target = self._target(n.target)
        return n

    def visit_AnnAssign(self, n):
        if n.value is None:
            return ast.copy_location(ast.Pass(), n)
        return self.visit(ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n))

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(_vc('mod', n.left, n.right), n)
        if isinstance(n.op, ast.Mult):
            return ast.copy_location(_vc('mul', n.left, n.right), n)
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            if any(isinstance(e, ast.Starred) for e in n.elts):
                # [*a, b] is list(a) followed by b
                parts = [ast.Tuple([ast.Constant(isinstance(e, ast.Starred)), e.value if isinstance(e, ast.Starred) else e], ast.Load())
                         for e in n.elts]
                return ast.copy_location(_vc('mkstar', *parts), n)
            return ast.copy_location(_vc('mklist', n), n)
        return n

    def visit_Tuple(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and any(isinstance(e, ast.Starred) for e in n.elts):
            parts = [ast.Tuple([ast.Constant(isinstance(e, ast.Starred)), e.value if isinstance(e, ast.Starred) else e], ast.Load())
                     for e in n.elts]
            return ast.copy_location(_vc('mkstart', *parts), n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        return ast.copy_location(_vc('mkdict', n), n)

    def _comp(self, n, kind):
        gens = n.generators
        if any(g.is_async for g in gens):
            return ast.copy_location(_vc('unsupported', ast.Constant('async comp')), n)
        first = gens[0]
        it = self.visit(first.iter)
        # closure over one element: lambda x: [elt for T in (x,) if cond <rest>]
        inner = copy.copy(first)
        inner.iter = ast.Tuple(elts=[_name('__vcx')], ctx=ast.Load())
        inner.ifs = [self.visit(c) for c in first.ifs]
        rest = []
        for g in gens[1:]:
            g2 = copy.copy(g)
            g2.iter = _vc('iter_', self.visit(g.iter))
            g2.ifs = [self.visit(c) for c in g.ifs]
            rest.append(g2)
        if kind == 'dict':
            elt = ast.Tuple(elts=[self.visit(n.key), self.visit(n.value)], ctx=ast.Load())
        else:
            elt = self.visit(n.elt)
        body = ast.ListComp(elt=elt, generators=[inner] + rest)
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg='__vcx')],
                                            kwonlyargs=[], kw_defaults=[], defaults=[]),
                         body=body)
        return ast.copy_location(_vc('comp', ast.Constant(kind), it, lam), n)

    def visit_ListComp(self, n):
        return self._comp(n, 'list')

    def visit_SetComp(self, n):
        return self._comp(n, 'set')

    def visit_GeneratorExp(self, n):
        return self._comp(n, 'gen')

    def visit_DictComp(self, n):
        return self._comp(n, 'dict')

    # statements
    def _guard(self, at):
        return ast.copy_location(ast.Expr(value=_vc('guard')), at)

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        n.body = [self._guard(n.body[0])] + n.body
        return n

    def visit_Try(self, n):
        self.generic_visit(n)
        if n.finalbody:
            n.finalbody = [self._guard(n.finalbody[0])] + n.finalbody
        return n

    def _block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_While(self, n):
        self.nloop[0] += 1
        k = self.nloop[0]
        names = [self.mangle(x) for x in assigned_names(n.body)]
        body = self._block(n.body)
        orelse = self._block(n.orelse)
        test = self.visit(n.test)
        pre = [ast.Assign(targets=[_name(f'__vcl{k}', ast.Store())],
                          value=_vc('loop_while', ast.Constant(f'{self.q}#{k}'),
                                    ast.Constant(tuple(names))))]
        return self._loop2(n, names, test, pre, [], body, orelse, k)

    def _loop2(self, n, names, test, pre, first, body, orelse, k):
        L, e = f'__vcl{k}', f'__vce{k}'
        head = ast.Assign(
            targets=[ast.Tuple(elts=[_name(x, ast.Store()) for x in names] + [_name(f'__vcu{k}', ast.Store())],
                               ctx=ast.Store())],
            value=ast.Call(func=ast.Attribute(value=_name(L), attr='head', ctx=ast.Load()),
                           args=[ast.Call(func=_name('locals'), args=[], keywords=[])], keywords=[]))
        out = list(pre)
        out.append(ast.Assign(targets=[_name(e, ast.Store())], value=ast.Constant(False)))
        out.append(ast.While(
            test=ast.Constant(True),
            body=[head,
                  ast.If(test=test, body=[ast.Pass()],
                         orelse=[ast.Assign(targets=[_name(e, ast.Store())], value=ast.Constant(True)),
                                 ast.Break()]),
                  *first, *body], orelse=[]))
        out.append(ast.Expr(value=ast.Call(
            func=ast.Attribute(value=_name(L), attr='done', ctx=ast.Load()), args=[], keywords=[])))
        if orelse:
            out.append(ast.If(test=_name(e), body=orelse, orelse=[]))
        for o in out:
            ast.copy_location(o, n)
            ast.fix_missing_locations(o)
        return out

    def visit_For(self, n):
        self.nloop[0] += 1
        k = self.nloop[0]
        names = [self.mangle(x) for x in
                 assigned_names([ast.Assign(targets=[n.target], value=ast.Constant(None))] + n.body)]
        it = self.visit(n.iter)
        body = self._block(n.body)
        orelse = self._block(n.orelse)
        L = f'__vcl{k}'
        pre = [ast.Assign(targets=[_name(L, ast.Store())],
                          value=_vc('loop_for', ast.Constant(f'{self.q}#{k}'),
                                    ast.Constant(tuple(names)), it))]
        test = ast.Call(func=ast.Attribute(value=_name(L), attr='has_next', ctx=ast.Load()),
                        args=[], keywords=[])
        target = self._target(n.target)
        first = [ast.Assign(targets=[target],
                            value=ast.Call(func=ast.Attribute(value=_name(L), attr='next', ctx=ast.Load()),
                                           args=[], keywords=[]))]
        return self._loop2(n, names, test, pre, first, body, orelse, k)

    def visit_With(self, n):
        # with E as x: B   ->  the enter/exit protocol through __vc
        self.nloop[0] += 1
        k = self.nloop[0]
        body = n.body
        if len(n.items) > 1:
            inner = ast.With(items=n.items[1:], body=n.body)
            ast.copy_location(inner, n)
            body = [inner]
        item = n.items[0]
        ce = self.visit(item.context_expr)
        w = f'__vcw{k}'
        out = [ast.Assign(targets=[_name(w, ast.Store())], value=_vc('with_', ce))]
        if item.optional_vars is not None:
            bind = [ast.Assign(targets=[self._target(item.optional_vars)],
                               value=ast.Attribute(value=_name(w), attr='value', ctx=ast.Load()))]
        else:
            bind = []
        out.append(ast.With(items=[ast.withitem(context_expr=_name(w), optional_vars=None)],
                            body=bind + self._block(body)))
        for o in out:
            ast.copy_location(o, n)
            ast.fix_missing_locations(o)
        return out

    def visit_FunctionDef(self, n):
        # nested def: same hooks, own scope
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.returns = None
        inner = T(self.q + '.' + n.name, self.classname,
                  [a.arg for a in n.args.args], n.args.args[0].arg if n.args.args else None,
                  set(), self.nloop)
        inner.loopvars = _loop_locals(n)
        n.args = self._args(n.args)
        body = inner._block(n.body)
        if inner.uses_class:
            self.uses_class = True
        n.body = _init_loopvars(inner.loopvars, n) + body
        n.name = self.mangle(n.name)
        return n

    def _args(self, a):
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        for x in a.args + a.kwonlyargs + a.posonlyargs:
            self.visit_arg(x)
        if a.vararg:
            self.visit_arg(a.vararg)
        if a.kwarg:
            self.visit_arg(a.kwarg)
        return a

    def visit_Lambda(self, n):
        n.args = self._args(n.args)
        n.body = self.visit(n.body)
        return n

    def visit_ClassDef(self, n):
        # class bodies inside functions: leave methods native but hooked
        inner = T(self.q + '.' + n.name, n.name, [], None, set(), self.nloop)
        n.body = inner._block(n.body)
        return n


def _params(a):
    out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        out.append(a.vararg.arg)
    if a.kwarg:
        out.append(a.kwarg.arg)
    return out


def _loop_locals(fn):
    """ locals assigned inside loops that are not parameters / nonlocal """
    params = set(_params(fn.args))
    out = set()
    nonloc = set()
    hn = _handler_names(fn)

    class V(ast.NodeVisitor):
        def visit_For(self, n):
            out.update(assigned_names([ast.Assign(targets=[n.target], value=ast.Constant(None))] + n.body))
            self.generic_visit(n)

        def visit_While(self, n):
            out.update(assigned_names(n.body))
            self.generic_visit(n)

        def visit_Expr(self, n):
            if isinstance(n.value, ast.YieldFrom):
                out.update(('__vcyf', '__vcyfe'))
            self.generic_visit(n)

        def visit_FunctionDef(self, n):
            if n is fn:
                self.generic_visit(n)

        def visit_Lambda(self, n):
            pass

        def visit_Global(self, n):
            nonloc.update(n.names)
        visit_Nonlocal = visit_Global
    V().visit(fn)
    return out - params - nonloc - hn


def _init_loopvars(names, at):
    out = []
    for x in sorted(names):
        s = ast.Assign(targets=[_name(x, ast.Store())],
                       value=ast.Attribute(value=_name(VC), attr='UNBOUND', ctx=ast.Load()))
        ast.copy_location(s, at)
        ast.fix_missing_locations(s)
        out.append(s)
    return out


_cache = {}


def transform(func, vc, globals_override=None):
    """ a new function object: func's current source with hooks, same defaults,
        same closure cells, same globals (plus __vc) """
    code = func.__code__
    key = (code, id(vc))
    if key not in _cache:
        node = copy.deepcopy(find_def(code))
        qual = func.__qualname__
        classname = None
        for piece in qual.split('.<locals>.'):
            parts = piece.split('.')
            if len(parts) > 1:
                classname = parts[-2]
        if isinstance(node, ast.Lambda):
            raise LookupError('lambda')
        firstarg = None
        if node.args.posonlyargs or node.args.args:
            firstarg = (node.args.posonlyargs + node.args.args)[0].arg
        t = T(qual, classname, _params(node.args), firstarg, set())
        t.loopvars = _loop_locals(node)
        is_gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in _walk_scope(node))
        node.name = '__vc_f'          # (not a name the body may use)
        node.decorator_list = []
        node.returns = None
        # defaults come from the real function object
        nd = len(node.args.defaults)
        node.args.defaults = [ast.Constant(None)] * nd
        node.args.kw_defaults = [None if d is None else ast.Constant(None) for d in node.args.kw_defaults]
        node.args = t._args(node.args)
        node.body = _init_loopvars(t.loopvars, node) + t._block(node.body)
        freevars = list(code.co_freevars)
        if t.uses_class and '__class__' not in freevars:
            freevars.append('__class__')
        factory = ast.FunctionDef(
            name='__vc_factory',
            args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=[ast.Assign(targets=[_name(v, ast.Store())], value=ast.Constant(None)) for v in freevars]
            + [node, ast.Return(value=_name(node.name))],
            decorator_list=[])
        mod = ast.Module(body=[factory], type_ignores=[])
        ast.copy_location(factory, node)
        ast.fix_missing_locations(mod)
        c = compile(mod, code.co_filename, 'exec')
        fcode = next(x for x in c.co_consts if isinstance(x, types.CodeType))
        inner = next(x for x in fcode.co_consts
                     if isinstance(x, types.CodeType) and x.co_name == node.name)
        _cache[key] = inner, is_gen
    inner, is_gen = _cache[key]
    cells = dict(zip(code.co_freevars, func.__closure__ or ()))
    closure = []
    for v in inner.co_freevars:
        if v in cells:
            closure.append(cells[v])
        elif v == '__class__':
            closure.append(types.CellType(vc.defining_class(func)))
        else:
            raise LookupError(f'free variable {v}')
    g = vc.globals_for(func)
    f = types.FunctionType(inner, g, func.__name__, func.__defaults__, tuple(closure))
    f.__kwdefaults__ = func.__kwdefaults__
    f.__qualname__ = func.__qualname__
    return f


def _walk_scope(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
