"""
Loads the repository's current source under the symbolic mpmath.

Extraction, redone on every run: each module's source text is read from
/repo, parsed, and compiled after one mechanical AST rewriting:
  * a comprehension / generator expression with one `for` clause becomes
    __sx__.comp(lambda target: elt, iterable[, lambda target: cond]), which is the same
    comprehension when the iterable is an ordinary sequence;
  * inside such a comprehension, `a or b` / `a and b` become
    __sx__.OR/AND(lambda: a, lambda: b) (same value and evaluation order);
  * a `for` statement without break/continue/return/yield/else in its body gets a second version
    of its body used only when the iterable is a symbolic-length sequence.
Nothing is dropped except: docstrings/comments, and functools.lru_cache
(replaced by the identity: caching is history, checked by its own property).
"""
import ast
import builtins
import sys
import types
import importlib
import importlib.metadata
import os
from . import sx
from .smp import SMP, make_module

REPO = os.environ.get('MPSCI_REPO', '/repo')


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0
        self.n = 0

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        return node

    # ---------------------------------------------------------- loop contracts
    def visit_While(self, node):
        self.depth += 1
        node.test = self.visit(node.test)
        self.depth -= 1
        node.body = [u for t in node.body for u in _aslist(self.visit(t))]
        node.orelse = [u for t in node.orelse for u in _aslist(self.visit(t))]
        if node.orelse or _scopes(node.body):
            return node
        self.n += 1
        w = f'__w{self.n}'
        names = sorted(_assigned(node.body))
        true = isinstance(node.test, ast.Constant) and bool(node.test.value)
        tests = ([] if true else [node.test]) + _tests(node.body)
        mod = ast.parse(_loop_head(w, names) + f"while True:\n    __HEAD\n    __TEST\n    __BODY\n")
        mod.body[0].value = ast.Call(
            func=_attr('wloop'),
            args=[ast.Constant(value=f'while {node.lineno}'), _getters(names), ast.Constant(value=None) if true else
                  ast.Lambda(args=_args([]), body=node.test), _candidates(names, node.body, tests)], keywords=[])
        loop = mod.body[-1]
        head = mod.body[1:-1]
        body = list(head)
        if not true:
            body.append(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=node.test), body=[ast.Break()], orelse=[]))
        loop.body = body + node.body
        out = [mod.body[0], loop]
        _relocate(out, node)
        return out

    def _for_rule(self, node):
        """for-loop with its loop-rule variant (active in loop-contract mode only)"""
        names = sorted((_assigned(node.body) | _mutated(node.body)) - set(_flatten(node.target)[0] or ()))
        if node.orelse or not names or not isinstance(node.target, ast.Name) or _scopes(node.body) or \
                not any(isinstance(t, ast.If) for b in node.body for t in ast.walk(b)):
            return [node]
        self.n += 1
        w = f'__w{self.n}'
        mod = ast.parse(_loop_head(w, names))
        mod.body[0].value = ast.Call(
            func=_attr('floop'),
            args=[ast.Constant(value=f'for {node.lineno}'), _getters(names), node.iter,
                  _candidates(names, node.body, _tests(node.body))], keywords=[])
        node.iter = ast.Name(id=w, ctx=ast.Load())
        out = mod.body + [node]
        _relocate(out, node)
        return out

    def _lam(self, target, body):
        if isinstance(target, ast.Name):
            return ast.Lambda(args=_args([target.id]), body=body)
        # tuple target: lambda __a: (lambda names: body)(*flat) with nested unpack
        names, path = _flatten(target)
        if names is None:
            return None
        self.n += 1
        an = f'__a{self.n}'
        inner = ast.Lambda(args=_args(names), body=body)
        elts = []
        for pth in path:
            e = ast.Name(id=an, ctx=ast.Load())
            for i in pth:
                e = ast.Subscript(value=e, slice=ast.Constant(value=i), ctx=ast.Load())
            elts.append(e)
        return ast.Lambda(args=_args([an]), body=ast.Call(func=inner, args=elts, keywords=[]))

    def _comp(self, node):
        if len(node.generators) != 1 or node.generators[0].is_async:
            self.generic_visit(node)
            return node
        if any(isinstance(t, ast.NamedExpr) for t in ast.walk(node)):
            self.generic_visit(node)
            return node
        if any(isinstance(t, (ast.Yield, ast.YieldFrom, ast.Await)) for t in ast.walk(node)):
            self.generic_visit(node)
            return node
        g = node.generators[0]
        it = self.visit(g.iter)
        self.depth += 1
        elt = self.visit(node.elt)
        ifs = [self.visit(t) for t in g.ifs]
        self.depth -= 1
        lam = self._lam(g.target, elt)
        if lam is None:
            g.iter, node.elt, g.ifs = it, elt, ifs
            return node
        args = [lam, it]
        if ifs:
            cond = ifs[0] if len(ifs) == 1 else _boolcall('AND', ifs)
            args.append(self._lam(g.target, cond))
        return ast.Call(func=_attr('comp'), args=args, keywords=[])

    visit_ListComp = _comp
    visit_GeneratorExp = _comp

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        if self.depth:
            return _boolcall('OR' if isinstance(node.op, ast.Or) else 'AND', node.values)
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        if node.orelse or any(isinstance(t, (ast.Break, ast.Continue, ast.Return, ast.Yield,
                                             ast.YieldFrom, ast.For, ast.While, ast.FunctionDef, ast.Lambda))
                              for b in node.body for t in ast.walk(b)):
            return self._for_rule(node)
        names = sorted(_assigned(node.body) | _mutated(node.body))
        tnames, _ = _flatten(node.target)
        if tnames is None:
            return node
        names = [n for n in names if n not in tnames]
        self.n += 1
        it, L = f'__it{self.n}', f'__L{self.n}'
        src = f"{it} = None\nif __sx__.is_sym({it}):\n    {L} = __sx__.loop({it}, {{k: v for k, v in locals().items() if k in {names!r}}})\n"
        for n in names:
            src += f"    if {n!r} in {L}.havoc: {n} = {L}.havoc[{n!r}]\n"
        src += "    __T = None\n    __BODY\n"
        src += f"    {L}o = {L}.close({{k: v for k, v in locals().items() if k in {names!r}}})\n"
        for n in names:
            src += f"    if {n!r} in {L}o: {n} = {L}o[{n!r}]\n"
        src += "else:\n    __BODY2\n"
        mod = ast.parse(src)
        mod.body[0].value = node.iter
        iff = mod.body[1]
        new = []
        import copy
        for st in iff.body:
            if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) \
                    and st.targets[0].id == '__T':
                new.append(ast.Assign(targets=[node.target],
                                      value=ast.Attribute(value=ast.Name(id=L, ctx=ast.Load()),
                                                          attr='elem', ctx=ast.Load())))
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Name) and st.value.id == '__BODY':
                new.extend(copy.deepcopy(node.body))
            else:
                new.append(st)
        iff.body = new
        plain = ast.For(target=node.target, iter=ast.Name(id=it, ctx=ast.Load()),
                        body=node.body, orelse=[])
        ast.copy_location(plain, node)
        iff.orelse = self._for_rule(plain)
        for st in mod.body:
            ast.copy_location(st, node)
            for t in ast.walk(st):
                if not hasattr(t, 'lineno') and isinstance(t, (ast.stmt, ast.expr)):
                    ast.copy_location(t, node)
        return mod.body


def _aslist(x):
    return x if isinstance(x, list) else [] if x is None else [x]


def _scopes(stmts):
    return any(isinstance(t, (ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.ClassDef, ast.Global, ast.Nonlocal,
                              ast.Delete, ast.NamedExpr)) for b in stmts for t in ast.walk(b))


def _relocate(stmts, node):
    for st in stmts:
        for t in ast.walk(st):
            if isinstance(t, (ast.stmt, ast.expr)) and not hasattr(t, 'lineno'):
                ast.copy_location(t, node)


def _loop_head(w, names):
    src = f"{w} = None\n__h = {w}.head()\nif __h is not None:\n    pass\n"
    for n in names:
        src += f"    if {n!r} in __h: {n} = __h[{n!r}]\n"
    return src + f"    {w}.assume()\n"


def _getters(names):
    return ast.Dict(keys=[ast.Constant(value=n) for n in names],
                    values=[ast.Lambda(args=_args([]), body=ast.Name(id=n, ctx=ast.Load())) for n in names])


def _tests(stmts):
    """branch conditions of a loop body, with its simple assignments inlined"""
    import copy
    defs = {}
    for s in stmts:
        for t in ast.walk(s):
            if isinstance(t, ast.Assign) and len(t.targets) == 1 and isinstance(t.targets[0], ast.Name):
                n = t.targets[0].id
                defs[n] = None if n in defs else t.value
            elif isinstance(t, (ast.AugAssign, ast.For)):
                for q in ast.walk(t.target):
                    if isinstance(q, ast.Name):
                        defs[q.id] = None

    class Inl(ast.NodeTransformer):
        def visit_Name(self, n):
            d = defs.get(n.id)
            if d is not None and isinstance(d, ast.Call) and len(ast.dump(d)) < 800:
                return copy.deepcopy(d)
            return n
    out = []
    for s in stmts:
        for t in ast.walk(s):
            if isinstance(t, ast.If):
                out.append(Inl().visit(copy.deepcopy(t.test)))
    return out


def _candidates(names, body, tests):
    """candidate invariants [(text, thunk)], over the variables the loop changes"""
    import copy
    assigned = set(names)
    loaded, called, calls = set(), set(), {}
    for b in list(body) + list(tests):
        for t in ast.walk(b):
            if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Load):
                loaded.add(t.id)
            if isinstance(t, ast.Call):
                if isinstance(t.func, ast.Name):
                    called.add(t.func.id)
                    if len(t.args) == 1 and isinstance(t.args[0], ast.Name) and not t.keywords:
                        calls[t.func.id] = t.func
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                called.add(t.value.id)
    others = sorted(n for n in (loaded | assigned) - called if not n.startswith('__'))
    texts = {}

    def put(e):
        e = ast.fix_missing_locations(e)
        texts.setdefault(ast.unparse(e), e)
    if len(names) <= 6 and len(others) <= 12:
        for v in names:
            for op in ('<', '<=', '>', '>='):
                put(ast.parse(f'{v} {op} 0', mode='eval').body)
                for u in others:
                    if u != v:
                        put(ast.parse(f'{v} {op} {u}', mode='eval').body)
            for u in names:
                if u > v:
                    put(ast.parse(f'{v}*{u} <= 0', mode='eval').body)
                for f in calls:
                    if u != v:
                        put(ast.parse(f'{v} == {f}({u})', mode='eval').body)
        for b in body:
            if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name):
                v = b.targets[0].id
                if isinstance(b.value, (ast.BinOp, ast.UnaryOp)) and len(ast.dump(b.value)) < 600 and \
                        not any(isinstance(t, ast.Name) and t.id == v for t in ast.walk(b.value)):
                    put(ast.Compare(left=ast.Name(id=v, ctx=ast.Load()), ops=[ast.Eq()],
                                    comparators=[copy.deepcopy(b.value)]))
        for cnd in tests:
            if not isinstance(cnd, (ast.Compare, ast.Call)):
                continue
            if sum(isinstance(t, ast.Attribute) and t.attr == 'sign' for t in ast.walk(cnd)) > 1 and not any(
                    isinstance(t, ast.BinOp) for t in ast.walk(cnd)):
                continue
            free = {t.id for t in ast.walk(cnd) if isinstance(t, ast.Name)} & assigned
            for n in sorted(free):
                for v in names:
                    class Sub(ast.NodeTransformer):
                        def visit_Name(self, q):
                            return ast.Name(id=v, ctx=ast.Load()) if q.id == n else q
                    e = Sub().visit(copy.deepcopy(cnd))
                    put(e)
                    put(ast.UnaryOp(op=ast.Not(), operand=copy.deepcopy(e)))
    elts = []
    for k, e in texts.items():
        neg = isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not)
        elts.append(ast.Tuple(elts=[ast.Constant(value=k), ast.Lambda(args=_args([]), body=e.operand if neg else e),
                                    ast.Constant(value=neg)], ctx=ast.Load()))
    return ast.List(elts=elts, ctx=ast.Load())


def _assigned(stmts):
    out = set()
    for s in stmts:
        for t in ast.walk(s):
            if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                out.add(t.id)
    return out


def _mutated(stmts):
    out = set()
    for s in stmts:
        for t in ast.walk(s):
            if isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) \
                    and isinstance(t.func.value, ast.Name) and t.func.attr in ('append', 'extend'):
                out.add(t.func.value.id)
    return out


def _flatten(t, pre=()):
    if isinstance(t, ast.Name):
        return [t.id], [pre]
    if isinstance(t, (ast.Tuple, ast.List)):
        names, paths = [], []
        for i, u in enumerate(t.elts):
            n, p = _flatten(u, pre + (i,))
            if n is None:
                return None, None
            names += n
            paths += p
        return names, paths
    return None, None


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names],
                         kwonlyargs=[], kw_defaults=[], defaults=[])


def _attr(n):
    return ast.Attribute(value=ast.Name(id='__sx__', ctx=ast.Load()), attr=n, ctx=ast.Load())


def _boolcall(n, vals):
    return ast.Call(func=_attr(n), args=[ast.Lambda(args=_args([]), body=v) for v in vals],
                    keywords=[])


def sym_builtins():
    b = dict(vars(builtins))
    b.update(int=sx.py_int, float=sx.py_float, sum=sx.py_sum, len=sx.py_len,
             any=sx.py_any, all=sx.py_all, zip=sx.py_zip, enumerate=sx.py_enumerate,
             range=sx.py_range, list=sx.py_list, tuple=sx.py_tuple, map=sx.py_map,
             isinstance=sx.py_isinstance, abs=sx.py_abs, min=sx.py_min, max=sx.py_max,
             sorted=sx.py_sorted, round=sx.py_round, set=sx.py_set)
    b['__import__'] = _import
    return b


class _Functools(types.ModuleType):
    pass


def _fake_functools():
    import functools
    m = types.ModuleType('functools')
    m.__dict__.update({k: v for k, v in vars(functools).items() if not k.startswith('__')})

    def lru_cache(*a, **k):
        if a and callable(a[0]):
            return a[0]
        return lambda f: f
    m.lru_cache = lru_cache
    m.cache = lambda f: f
    return m


def _fake_operator():
    import operator
    m = types.ModuleType('operator')
    m.__dict__.update({k: v for k, v in vars(operator).items() if not k.startswith('__')})
    m.index = sx.op_index
    return m


def _fake_math():
    import math
    m = types.ModuleType('math')

    def wrap(f, name):
        def g(*a):
            if any(isinstance(t, (sx.SX, sx.SI)) for t in a):
                if name in ('log', 'exp', 'sqrt', 'log1p', 'expm1', 'erf', 'sin', 'cos', 'tan',
                            'gamma', 'lgamma', 'pow'):
                    fn = {'pow': 'power', 'lgamma': 'loggamma'}.get(name, name)
                    return sx.fl_round(getattr(SYM.mp, fn)(*a).e)
                if name == 'floor':
                    return sx.SI(sx.s_floor(a[0].e))
                if name == 'ceil':
                    return sx.SI(sx.s_ceil(a[0].e))
                if name == 'isinf':
                    return SYM.mp.isinf(a[0])
                if name == 'isnan':
                    return SYM.mp.isnan(a[0])
                raise sx.Unsupported(f'math.{name}')
            return f(*a)
        return g
    for k, v in vars(math).items():
        if k.startswith('__'):
            continue
        setattr(m, k, wrap(v, k) if callable(v) else v)
    return m


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        top = name.split('.')[0]
        if top == 'mpmath':
            return SYM.mpmath
        if top == 'functools':
            return SYM.functools
        if top == 'operator':
            return SYM.operator
        if top == 'math':
            return SYM.math
        if top == 'mpsci':
            m = load(name)
            if not fromlist:
                return load('mpsci')
            return _from(m, fromlist)
        return builtins.__import__(name, globals, locals, fromlist, level)
    pkg = globals['__package__'].split('.')
    base = pkg[:len(pkg) - (level - 1)]
    full = '.'.join(base + ([name] if name else []))
    m = load(full)
    return _from(m, fromlist)


def _from(m, fromlist):
    for f in fromlist or ():
        if f == '*':
            continue
        if not hasattr(m, f) and hasattr(m, '__path__'):
            sub = m.__name__ + '.' + f
            if _file(sub):
                load(sub)
    return m


def _file(full):
    p = os.path.join(REPO, *full.split('.'))
    if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
        return os.path.join(p, '__init__.py')
    if os.path.exists(p + '.py'):
        return p + '.py'
    return None


class _Sym:
    pass


SYM = _Sym()
SYM.modules = {}


def load(full):
    if full in SYM.modules:
        return SYM.modules[full]
    parent = full.rpartition('.')[0]
    if parent:
        load(parent)
        if full in SYM.modules:
            return SYM.modules[full]
    fn = _file(full)
    if fn is None:
        raise ModuleNotFoundError(full)
    src = open(fn).read()
    tree = ast.parse(src, fn)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    code = compile(tree, fn, 'exec')
    m = types.ModuleType(full)
    m.__file__ = fn
    if fn.endswith('__init__.py'):
        m.__path__ = [os.path.dirname(fn)]
        m.__package__ = full
    else:
        m.__package__ = parent
    m.__dict__['__builtins__'] = SYM.builtins
    m.__dict__['__sx__'] = sx.SXHelpers
    SYM.modules[full] = m
    if parent:
        setattr(SYM.modules[parent], full.rpartition('.')[2], m)
    sys.modules.setdefault('_sym_' + full, m)
    exec(code, m.__dict__)
    return m


def init():
    if hasattr(SYM, 'mp'):
        return SYM
    SYM.mp = SMP()
    SYM.mpmath = make_module(SYM.mp)
    SYM.functools = _fake_functools()
    SYM.operator = _fake_operator()
    SYM.math = _fake_math()
    SYM.builtins = sym_builtins()
    real = importlib.metadata.version
    importlib.metadata.version = lambda n: '0' if n == 'mpsci' else real(n)
    try:
        load('mpsci')
        load('mpsci.distributions')
        load('mpsci.fun')
        load('mpsci.stats')
        for d in os.listdir(os.path.join(REPO, 'mpsci', 'distributions')):
            if d.endswith('.py') and d != '__init__.py':
                load('mpsci.distributions.' + d[:-3])
    finally:
        importlib.metadata.version = real
    return SYM
