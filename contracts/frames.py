"""
Frame contracts (C01) and purity contracts (C20), decided on the source of every
function of the package, modularly: a call is checked against the callee's
contract, not its body.

  precision frame   ensures mp.prec == old(mp.prec) on every normal and
                    exceptional exit (forward analysis over the statements with
                    exceptional edges; mp.extradps & co. are assumed to restore)
  argument frame    assigns nothing reachable from an argument: ownership labels
                    on local values; private helpers may get an inferred
                    `mutates` clause, which every caller must satisfy with an
                    owned value
  purity            no store to module state, no read of ambient state, no
                    module-level or default value that depends on the precision,
                    cached functions keyed by the precision they read and never
                    handing out the cached mutable object
"""
import ast
import os

PREC_ATTRS = {'dps', 'prec', '_prec', '_dps', '_prec_rounding', 'rounding'}
PREC_CALLS = {'_set_prec', '_set_dps', 'set_prec', 'set_dps', 'default', '__setattr__', '__enter__', '__exit__'}
MANAGERS = {'extradps', 'extraprec', 'workdps', 'workprec'}
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'clear', 'update', 'add', 'discard',
            'setdefault', 'popitem', 'appendleft', 'popleft', '__setitem__', '__delitem__', '__iadd__', 'fill', 'put',
            'resize', 'swap_row'}
MUTFUNCS = {('random', 'shuffle'), ('heapq', 'heapify'), ('heapq', 'heappush'), ('heapq', 'heappop'),
            ('bisect', 'insort'), ('operator', 'setitem'), ('operator', 'delitem'), ('list', 'sort'),
            ('list', 'append'), ('operator', 'iadd')}
FRESH_CALLS = {'list', 'sorted', 'dict', 'set', 'tuple', 'frozenset', 'reversed', 'zip', 'enumerate', 'map', 'filter',
               'iter', 'groupby', 'chain', 'accumulate', 'Counter'}
NUMBER_CALLS = {'len', 'int', 'float', 'abs', 'bool', 'str', 'repr', 'sum', 'round', 'isinstance', 'type', 'divmod',
                'range', 'any', 'all', 'hasattr', 'complex', 'Fraction', 'format', 'callable', 'slice', 'hash',
                'ValueError', 'TypeError', 'RuntimeError', 'ZeroDivisionError', 'NotImplementedError', 'issubclass',
                'OverflowError', 'ArithmeticError', 'pow', 'print', 'super', 'fields', 'object', 'ord', 'chr'}
MATRIX = {'matrix', 'zeros', 'ones', 'eye', 'diag', 'inverse', 'lu_solve', 'qr_solve', 'cholesky', 'cholesky_solve',
          'lu', 'LU_decomp', 'expm', 'sqrtm', 'logm', 'powm', 'hilbert', 'randmatrix', 'linspace', 'arange',
          'polyroots', 'taylor', 'chebyfit', 'swap_row', 'extend', 'svd', 'eig', 'eigh', 'eigsy', 'hessenberg', 'qr'}
PASS_CALLS = {'convert', 'mpmathify'}          # may return the very object given
AMBIENT = {'random', 'time', 'environ', 'getenv', 'urandom', 'rand', 'randmatrix', 'uuid', 'datetime', 'getrefcount',
           'gc', 'perf_counter', 'secrets', 'locals', 'globals', 'vars'}
AMBIENT_CALLS = {'id', 'input', 'open', 'globals'}
EXACT_CONSTS = {'inf', 'ninf', 'nan', 'one', 'zero', 'pi', 'e', 'euler', 'ln2', 'ln10', 'phi', 'catalan', 'apery',
                'degree', 'khinchin', 'glaisher', 'mertens', 'twinprime', 'eps', 'j', 'mpf', 'mpc', 'mpi'}

REPO = os.environ.get('MPSCI_REPO', '/repo')


class Fn:
    """one function (or method, nested function, lambda)"""

    def __init__(self, mod, qual, node, cls=None, outer=None):
        self.mod, self.qual, self.node, self.cls, self.outer = mod, qual, node, cls, outer
        self.name = getattr(node, 'name', '<lambda>')
        a = node.args
        self.pos = [p.arg for p in a.posonlyargs + a.args]
        self.kwonly = [p.arg for p in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.params = self.pos + self.kwonly
        self.mutates = set()        # parameters (inferred contract)
        self.muts = []              # (label, line, what)
        self.ret = None             # inferred contract on the value returned
        self.cached = False
        self.line = node.lineno

    @property
    def id(self):
        return f'{self.mod.name}.{self.qual}'

    @property
    def public(self):
        return self.outer is None and not self.name.startswith('_')


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.fns = {}           # top-level name -> Fn
        self.classes = {}
        self.imports = {}       # local name -> (module, attr|None)
        self.globals = {}       # name -> value node
        self.all = []


def load(repo=None):
    repo = repo or REPO
    root = os.path.join(repo, 'mpsci')
    mods = {}
    for dp, dn, fn in os.walk(root):
        dn[:] = sorted(d for d in dn if d not in ('tests', '__pycache__'))
        for f in sorted(fn):
            if not f.endswith('.py'):
                continue
            p = os.path.join(dp, f)
            rel = os.path.relpath(p, repo)[:-3].replace(os.sep, '.')
            if rel.endswith('.__init__'):
                rel = rel[:-9]
            mods[rel] = Module(rel, p, ast.parse(open(p).read()))
    for m in mods.values():
        index(m)
    return mods


def index(m):
    is_pkg = m.path.endswith('__init__.py')

    def fns(node, qual, cls, outer):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = f'{qual}{ch.name}'
                f = Fn(m, q, ch, cls, outer)
                m.all.append(f)
                if outer is None and cls is None:
                    m.fns[ch.name] = f
                for d in ch.decorator_list:
                    for s in ast.walk(d):
                        if isinstance(s, (ast.Name, ast.Attribute)) and \
                                (getattr(s, 'id', None) or getattr(s, 'attr', None)) in \
                                ('lru_cache', 'cache', 'cached_property', 'memoize'):
                            f.cached = True
                fns(ch, q + '.', None, f)
            elif isinstance(ch, ast.Lambda):
                q = f'{qual}<lambda:{ch.lineno}>'
                f = Fn(m, q, ch, None, outer)
                m.all.append(f)
                fns(ch, q + '.', None, f)
            elif isinstance(ch, ast.ClassDef):
                m.classes[ch.name] = ch
                fns(ch, f'{qual}{ch.name}.', ch.name, outer)
            else:
                fns(ch, qual, cls, outer)
    fns(m.tree, '', None, None)

    def top(stmts):
        for n in stmts:
            if isinstance(n, ast.ImportFrom):
                if n.level:
                    base = m.name.split('.')
                    if not is_pkg:
                        base = base[:-1]
                    base = base[:len(base) - (n.level - 1)]
                    src = '.'.join(base + ([n.module] if n.module else []))
                else:
                    src = n.module
                for a in n.names:
                    m.imports[a.asname or a.name] = (src, a.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    m.imports[(a.asname or a.name).split('.')[0]] = (a.name, None)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    for s in ast.walk(t):
                        if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
                            m.globals[s.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value:
                m.globals[n.target.id] = n.value
            elif isinstance(n, (ast.If, ast.Try, ast.With)):
                for fld in ('body', 'orelse', 'finalbody'):
                    top(getattr(n, fld, []) or [])
                for h in getattr(n, 'handlers', []):
                    top(h.body)
            elif isinstance(n, ast.For):
                for s in ast.walk(n.target):
                    if isinstance(s, ast.Name):
                        m.globals[s.id] = n.iter
                top(n.body)
    top(m.tree.body)


def own_nodes(node):
    """nodes of a function body without those of nested functions/classes"""
    body = node.body if isinstance(node.body, list) else [node.body]
    st = list(body)
    while st:
        n = st.pop()
        yield n
        for ch in ast.iter_child_nodes(n):
            if not isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                st.append(ch)
            elif isinstance(ch, (ast.FunctionDef, ast.Lambda)):
                st.extend(ch.args.defaults + [d for d in ch.args.kw_defaults if d])


# ------------------------------------------------------------ precision frame

OLD, MOD = 'old', 'mod'


class PState:
    __slots__ = ('prec', 'saved')

    def __init__(self, prec=OLD, saved=frozenset()):
        self.prec, self.saved = prec, saved

    def __eq__(self, o):
        return self.prec == o.prec and self.saved == o.saved

    def join(self, o):
        if o is None:
            return self
        return PState(OLD if self.prec == o.prec == OLD else MOD, self.saved & o.saved)


def join(a, b):
    return b if a is None else a.join(b)


def simple_expr(e):
    """cannot raise (reading a plain name or the precision)"""
    return e is None or isinstance(e, (ast.Constant, ast.Name)) or \
        (isinstance(e, ast.Attribute) and e.attr in ('prec', 'dps') and isinstance(e.value, ast.Name)) or \
        (isinstance(e, (ast.Tuple, ast.List)) and all(simple_expr(t) for t in e.elts))


class PrecFrame:
    def __init__(self, fn):
        self.fn = fn
        self.bad = []

    def run(self):
        node = self.fn.node
        if isinstance(node, ast.Lambda):
            self.expr_effects(node.body)
            return self.bad
        st, exits = self.block(node.body, PState())
        if st is not None and st.prec != OLD:
            self.bad.append((node.lineno, 'normal exit with a changed precision'))
        for k, s, ln in exits:
            if s.prec != OLD:
                self.bad.append((ln, {'raise': 'an exception raised here leaves the precision changed',
                                      'return': 'returns with a changed precision',
                                      'yield': 'yields with a changed precision'}.get(k, k)))
        return self.bad

    def expr_effects(self, e):
        """True if evaluating the expression may change the precision"""
        if e is None:
            return False
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Attribute) and f.attr in PREC_CALLS:
                    return True
                if isinstance(f, ast.Name) and f.id == 'setattr':
                    return True
            if isinstance(n, ast.Attribute) and n.attr == '__dict__':
                return True
        return False

    def block(self, stmts, st):
        exits = []
        for s in stmts:
            if st is None:
                break
            st, ex = self.stmt(s, st)
            exits += ex
        return st, exits

    def raises(self, st, line):
        return [('raise', st, line)] if st.prec != OLD else []

    def stmt(self, s, st):
        ln = getattr(s, 'lineno', 0)
        ex = []
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global,
                          ast.Nonlocal)):
            return st, []
        for n in ast.walk(s) if not isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)) else ():
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                ex.append(('yield', st, ln))
        if isinstance(s, ast.Return):
            if not simple_expr(s.value):
                ex += self.raises(st, ln)
            if self.expr_effects(s.value):
                st = PState(MOD, st.saved)
            return None, ex + [('return', st, ln)]
        if isinstance(s, ast.Raise):
            return None, ex + [('raise', st, ln)]
        if isinstance(s, ast.Break):
            return None, [('break', st, ln)]
        if isinstance(s, ast.Continue):
            return None, [('continue', st, ln)]
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            value = s.value
            targets = s.targets if isinstance(s, ast.Assign) else [s.target]
            if not simple_expr(value):
                ex += self.raises(st, ln)
            if self.expr_effects(value):
                st = PState(MOD, st.saved)
            flat = []
            for t in targets:
                vals = [value]*len(t.elts) if isinstance(t, (ast.Tuple, ast.List)) else None
                if vals is not None:
                    if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                        vals = value.elts
                    else:
                        vals = [None]*len(t.elts)
                    flat += list(zip(t.elts, vals))
                else:
                    flat.append((t, value))
            saved0 = st.saved
            for t, v in flat:
                if isinstance(t, ast.Name):
                    sv = {x for x in st.saved if x[0] != t.id}
                    if isinstance(s, ast.AugAssign):
                        v = None
                    if isinstance(v, ast.Attribute) and v.attr == 'prec' and st.prec == OLD:
                        sv.add((t.id, 'prec'))
                    elif isinstance(v, ast.Name) and (v.id, 'prec') in saved0:
                        sv.add((t.id, 'prec'))
                    st = PState(st.prec, frozenset(sv))
                elif isinstance(t, ast.Attribute) and t.attr in PREC_ATTRS:
                    ok = isinstance(v, ast.Name) and (v.id, 'prec') in saved0 and t.attr == 'prec' and \
                        not isinstance(s, ast.AugAssign)
                    st = PState(OLD if ok else MOD, st.saved)
                elif not isinstance(t, ast.Starred):
                    ex += self.raises(st, ln)
            return st, ex
        if isinstance(s, ast.Expr):
            if not simple_expr(s.value):
                ex += self.raises(st, ln)
                if self.expr_effects(s.value):
                    st = PState(MOD, st.saved)
            return st, ex
        if isinstance(s, (ast.Assert, ast.Delete)):
            return st, ex + self.raises(st, ln)
        if isinstance(s, ast.If):
            if not simple_expr(s.test):
                ex += self.raises(st, ln)
            if self.expr_effects(s.test):
                st = PState(MOD, st.saved)
            a, ea = self.block(s.body, st)
            b, eb = self.block(s.orelse, st)
            return (join(a, b) if a is not None else b), ex + ea + eb
        if isinstance(s, (ast.While, ast.For)):
            cur, out = st, None
            for _ in range(5):
                ex2 = []
                hd = cur
                if isinstance(s, ast.For) or not simple_expr(s.test):
                    ex2 += self.raises(hd, ln)
                if isinstance(s, ast.For):
                    hd = PState(hd.prec, frozenset(x for x in hd.saved
                                                   if not any(isinstance(t, ast.Name) and t.id == x[0]
                                                              for t in ast.walk(s.target))))
                b, eb = self.block(s.body, hd)
                out = None
                for k, q, l in eb:
                    if k == 'break':
                        out = join(out, q)
                    elif k == 'continue':
                        b = join(b, q) if b is not None else q
                    else:
                        ex2.append((k, q, l))
                nxt = cur.join(b) if b is not None else cur
                if nxt == cur:
                    break
                cur = nxt
            forever = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
            res = None
            if not forever:
                res, eo = self.block(s.orelse, cur)
                ex2 += eo
            res = join(res, out) if out is not None else res
            return res, ex + ex2
        if isinstance(s, ast.With):
            managed = False
            swallow = False
            for it in s.items:
                c = it.context_expr
                f = c.func if isinstance(c, ast.Call) else None
                nm = getattr(f, 'attr', None) or getattr(f, 'id', None)
                if nm in MANAGERS:
                    managed = True
                else:
                    swallow = True
                    ex += self.raises(st, ln)
                    if self.expr_effects(c):
                        st = PState(MOD, st.saved)
            inner = PState(MOD, frozenset()) if managed else st
            b, eb = self.block(s.body, inner)
            if not managed:
                if swallow:
                    for k, q, l in eb:
                        if k == 'raise':
                            b = join(b, q) if b is not None else q
                return b, ex + eb
            # the manager restores the precision found at entry, on every exit
            back = []
            for k, q, l in eb:
                if k == 'yield':
                    back.append((k, q, l))
                else:
                    back.append((k, PState(st.prec, st.saved), l))
            return (PState(st.prec, st.saved) if b is not None else None), ex + back
        if isinstance(s, ast.Try):
            b, eb = self.block(s.body, st)
            outs = [b]
            # any statement of the body may have raised: states along the way
            along = self.along(s.body, st)
            ex2 = [t for t in eb if t[0] != 'raise' or not s.handlers]
            if s.handlers:
                hs = along
                for k, q, l in eb:
                    if k == 'raise':
                        hs = hs.join(q)
                for h in s.handlers:
                    o, eo = self.block(h.body, hs)
                    outs.append(o)
                    ex2 += eo
                # exceptions of other types pass through
                if not any(h.type is None for h in s.handlers):
                    ex2 += [('raise', hs, ln)] if hs.prec != OLD else []
            elif along.prec != OLD:
                ex2.append(('raise', along, ln))
            if s.orelse and b is not None:
                o, eo = self.block(s.orelse, b)
                outs[0] = o
                ex2 += eo
            if s.finalbody:
                res = []
                fin = []
                for o in outs:
                    if o is not None:
                        q, eq = self.block(s.finalbody, o)
                        fin += eq
                        if q is not None:
                            res.append(q)
                for k, q, l in ex2:
                    if k == 'yield':
                        fin.append((k, q, l))
                        continue
                    q2, eq = self.block(s.finalbody, q)
                    fin += eq
                    if q2 is not None:
                        fin.append((k, q2, l))
                outs, ex2 = res, fin
            r = None
            for o in outs:
                if o is not None:
                    r = join(r, o)
            return r, ex + ex2
        if isinstance(s, ast.Match):
            ex += self.raises(st, ln)
            r = st
            for c in s.cases:
                o, eo = self.block(c.body, st)
                ex += eo
                if o is not None:
                    r = join(r, o)
            return r, ex
        return st, ex + self.raises(st, ln)

    def along(self, stmts, st):
        """join of the states at the statements that may raise"""
        r = st
        cur = st
        for s in stmts:
            if cur is None:
                break
            cur, ex = self.stmt(s, cur)
            for k, q, l in ex:
                if k == 'raise':
                    r = r.join(q)
            if cur is not None:
                r = r.join(PState(cur.prec, cur.saved | r.saved) if cur.prec == r.prec else cur)
        return r


# ------------------------------------------------------------- argument frame

class V:
    """a value that may be a mutable object: labels of the objects it may be,
    what its parts may be (None: immutable; 'self': as the value itself),
    components if it is a known tuple/list display"""
    __slots__ = ('own', 'part', 'fields')

    def __init__(self, own=frozenset(), part=None, fields=None):
        self.own, self.part, self.fields = own, part, fields

    def key(self):
        return (tuple(sorted(self.own)), self.part.key() if isinstance(self.part, V) else self.part,
                None if self.fields is None else tuple(f.key() if f else None for f in self.fields))

    def __eq__(self, o):
        return isinstance(o, V) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


NOTHING = None


def labels(v, seen=None):
    if v is None:
        return frozenset()
    r = v.own
    if isinstance(v.part, V):
        r |= labels(v.part)
    for f in v.fields or ():
        r |= labels(f)
    return r


def depth(v):
    if v is None:
        return 0
    return 1 + max([depth(v.part) if isinstance(v.part, V) else 0] + [depth(f) for f in v.fields or ()])


def V_(own=frozenset(), part=None, fields=None):
    v = V(frozenset(own), part, fields)
    if depth(v) > 4:
        return V(labels(v), 'self')
    return v


def part_of(v):
    if v is None:
        return None
    r = v if v.part == 'self' else v.part
    for f in v.fields or ():
        r = vjoin(r, f)
    return r


def vjoin(*vs):
    vs = [v for v in vs if v is not None]
    if not vs:
        return None
    r = vs[0]
    for v in vs[1:]:
        if v == r:
            continue
        if r.fields is not None and v.fields is not None and len(r.fields) == len(v.fields) and r.part == v.part:
            r = V_(r.own | v.own, r.part, tuple(vjoin(a, b) for a, b in zip(r.fields, v.fields)))
        elif r.part == 'self' or v.part == 'self':
            r = V(labels(r) | labels(v), 'self')
        else:
            r = V_(r.own | v.own, vjoin(part_of(r), part_of(v)))
    return r


def opaque(*vs):
    """an unknown object made from these"""
    labs = frozenset()
    some = False
    for v in vs:
        if v is not None:
            some = True
            labs |= labels(v)
    return V(labs, 'self') if some and labs else (V() if some else None)


def fresh(*vs):
    """a new container whose parts are these values"""
    return V_(frozenset(), vjoin(*vs) if vs else None)


def cache_label(v, lab):
    """the parts of a cached result that can be modified (tuples cannot)"""
    if v is None:
        return None
    if v.fields is not None and v.part is None and not v.own:
        return V_(frozenset(), None, tuple(cache_label(q, lab) for q in v.fields))
    if v.part == 'self':
        return V(v.own | {lab}, 'self')
    return V_(v.own | {lab}, cache_label(v.part, lab) if v.part else None)


def relabel(v, f):
    """substitute labels: f(label) -> list of values"""
    if v is None:
        return None
    own = frozenset(l for l in v.own if not l.startswith('P:'))
    subs = [w for l in v.own if l.startswith('P:') for w in f(l)]
    if v.part == 'self':
        r = V(own, 'self') if own or not subs else None
        for w in subs:
            r = vjoin(r, w)
        return r
    r = V_(own, relabel(v.part, f), None if v.fields is None else tuple(relabel(q, f) for q in v.fields))
    for w in subs:
        r = vjoin(r, w)
    return r


class Own:
    """ownership of the values in one function: value = (labels the object may
    alias, labels its parts may alias, may be a mutable container)"""

    def __init__(self, world, fn, outer_env=None):
        self.w, self.fn = world, fn
        self.env = dict(outer_env or {})
        self.ret = NOTHING
        self.muts = []
        for p in fn.params:
            self.env[p] = V(frozenset(['P:' + p]), 'self')
        if fn.cls and fn.pos and fn.pos[0] == 'self':
            if fn.name in ('__init__', '__post_init__', '__new__'):
                self.env['self'] = V()
        if fn.vararg:
            self.env[fn.vararg] = V(frozenset(), V(frozenset(['P:*' + fn.vararg]), 'self'))
        if fn.kwarg:
            self.env[fn.kwarg] = V(frozenset(), V(frozenset(['P:**' + fn.kwarg]), 'self'))
        self.seqlike = set()
        for n in own_nodes(fn.node):
            if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Name):
                self.seqlike.add(n.iter.id)
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
                self.seqlike.add(n.value.id)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in \
                    ('len', 'sorted', 'list', 'tuple', 'sum', 'min', 'max', 'zip', 'enumerate', 'any', 'all'):
                for a in n.args:
                    if isinstance(a, ast.Name) and (len(n.args) == 1 or n.func.id == 'zip'):
                        self.seqlike.add(a.id)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('fsum', 'fprod', 'fdot'):
                for a in n.args:
                    if isinstance(a, ast.Name):
                        self.seqlike.add(a.id)

    def run(self):
        body = self.fn.node.body
        if isinstance(self.fn.node, ast.Lambda):
            self.ret = self.val(body)
            return
        self.block(body)

    # ---- values
    def val(self, e):
        if e is None or isinstance(e, (ast.Constant, ast.JoinedStr, ast.Compare, ast.Slice, ast.FormattedValue)):
            for ch in ast.iter_child_nodes(e) if e is not None else ():
                self.val(ch)
            return NOTHING
        if isinstance(e, ast.Name):
            if e.id in self.env:
                return self.env[e.id]
            return self.glob(e.id)
        if isinstance(e, ast.UnaryOp):
            self.val(e.operand)
            return NOTHING
        if isinstance(e, ast.BinOp):
            a, b = self.val(e.left), self.val(e.right)
            # numbers, or concatenation/repetition of lists: a new object
            if a is None and b is None:
                return None
            return fresh(part_of(a), part_of(b))
        if isinstance(e, ast.BoolOp):
            return vjoin(*[self.val(v) for v in e.values])
        if isinstance(e, ast.IfExp):
            self.val(e.test)
            return vjoin(self.val(e.body), self.val(e.orelse))
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            if any(isinstance(v, ast.Starred) for v in e.elts):
                return fresh(*[part_of(self.val(v.value)) if isinstance(v, ast.Starred) else self.val(v)
                               for v in e.elts])
            vs = [self.val(v) for v in e.elts]
            if isinstance(e, ast.Tuple):
                return V_(frozenset(), None, tuple(vs)) if any(v is not None for v in vs) else None
            return fresh(*vs)
        if isinstance(e, ast.Dict):
            vs = [self.val(v) for v in list(e.values) + [k for k in e.keys if k is not None]]
            return fresh(*vs)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            saved = dict(self.env)
            for g in e.generators:
                it = self.val(g.iter)
                self.bind(g.target, part_of(it))
                for i in g.ifs:
                    self.val(i)
            if isinstance(e, ast.DictComp):
                v = vjoin(self.val(e.key), self.val(e.value))
            else:
                v = self.val(e.elt)
            self.env = saved
            return fresh(v)
        if isinstance(e, ast.Starred):
            return self.val(e.value)
        if isinstance(e, ast.Subscript):
            b = self.val(e.value)
            self.val(e.slice)
            if isinstance(e.slice, ast.Slice):
                return fresh(part_of(b)) if b is not None else None
            if b is not None and b.fields is not None and isinstance(e.slice, ast.Constant) and \
                    isinstance(e.slice.value, int) and -len(b.fields) <= e.slice.value < len(b.fields) and \
                    b.part is None:
                return b.fields[e.slice.value]
            return part_of(b)
        if isinstance(e, ast.Attribute):
            root = e
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and root.id not in self.env and root.id in self.fn.mod.imports:
                return NOTHING if self.w.is_ctx(self.fn.mod, root.id) else self.w.attr_global(self.fn.mod, e)
            b = self.val(e.value)
            return opaque(b)
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.Lambda):
            sub = Own(self.w, Fn(self.fn.mod, self.fn.qual + '.<lambda>', e, None, self.fn),
                      {k: v for k, v in self.env.items()})
            sub.run()
            self.muts += [t for t in sub.muts if t[0][2:] not in sub.fn.params]
            return NOTHING
        if isinstance(e, ast.NamedExpr):
            v = self.val(e.value)
            self.bind(e.target, v)
            return v
        if isinstance(e, (ast.Yield, ast.YieldFrom, ast.Await)):
            v = self.val(e.value) if e.value else NOTHING
            self.ret = vjoin(self.ret, fresh(v))
            return NOTHING
        return NOTHING

    def glob(self, name):
        m = self.fn.mod
        if name in m.fns or name in m.classes or name in m.imports:
            return NOTHING
        g = m.globals.get(name)
        if g is None:
            return NOTHING
        if self.w.immutable(g):
            return NOTHING
        return V(frozenset([f'G:{m.name}.{name}']), 'self')

    def mutate(self, v, node, what):
        for lab in v.own if v is not None else ():
            self.muts.append((lab, node.lineno, what))

    def call(self, e):
        f = e.func
        args = [self.val(a) for a in e.args]
        kws = [(k.arg, self.val(k.value)) for k in e.keywords]
        allv = args + [v for _, v in kws]
        every = opaque(*allv)
        if isinstance(f, ast.Attribute):
            root = f
            while isinstance(root, ast.Attribute):
                root = root.value
            rid = root.id if isinstance(root, ast.Name) else None
            if isinstance(f.value, ast.Name) and (f.value.id, f.attr) in MUTFUNCS and args:
                self.mutate(args[0], e, f'{f.value.id}.{f.attr}()')
                return NOTHING
            if rid is not None and rid not in self.env and rid in self.fn.mod.imports:
                if self.w.is_ctx(self.fn.mod, rid):
                    if f.attr in MATRIX:
                        return V()
                    if f.attr in PASS_CALLS:
                        return vjoin(*allv)
                    return NOTHING
                t = self.w.resolve(self.fn.mod, f)
                if t is not None:
                    return self.apply(t, e, args, kws)
                if f.attr in ('copy', 'deepcopy'):
                    return fresh(part_of(args[0]) if f.attr == 'copy' and args else None)
                if f.attr in ('index', 'floor', 'ceil', 'comb', 'gcd', 'factorial', 'isclose', 'sqrt', 'log', 'exp'):
                    return NOTHING
                return fresh(every)
            b = self.val(f.value)
            if f.attr in MUTATORS:
                self.mutate(b, e, f'.{f.attr}()')
                # stored values become parts of the container
                if isinstance(f.value, ast.Name) and f.value.id in self.env and f.attr in \
                        ('append', 'extend', 'insert', 'add', 'update', 'setdefault', 'appendleft'):
                    self.store(f.value.id, *[part_of(v) if f.attr in ('extend', 'update') else v for v in allv])
                if f.attr in ('pop', 'popleft', 'popitem', 'setdefault'):
                    return part_of(b)
                return NOTHING
            if f.attr in ('copy', 'tolist', 'keys', 'values', 'items', 'apply'):
                return fresh(part_of(b)) if b is not None else None
            if f.attr in ('index', 'count', 'format', 'join', 'split', 'startswith', 'endswith', 'is_integer',
                          'bit_length', 'conjugate', 'lower', 'upper'):
                return NOTHING
            meth = self.w.method(self.fn, f.attr)
            if meth is not None and isinstance(f.value, ast.Name) and f.value.id == 'self':
                return self.apply(meth, e, [b] + args, kws)
            return opaque(b, every)
        if isinstance(f, ast.Name):
            n = f.id
            if n in self.env:                       # a callable argument or local function
                t = self.w.local(self.fn, n)
                if t is not None:
                    return self.apply(t, e, args, kws)
                return every
            t = self.w.local(self.fn, n) or self.w.resolve(self.fn.mod, f)
            if t is not None:
                return self.apply(t, e, args, kws)
            if n in self.fn.mod.classes or n in NUMBER_CALLS:
                return NOTHING if n in NUMBER_CALLS else fresh(every)
            if n in FRESH_CALLS:
                if n in ('zip', 'enumerate'):
                    return fresh(V_(frozenset(), vjoin(*[part_of(v) for v in allv])))
                return fresh(*([part_of(v) for v in allv] + ([every] if n in ('map', 'groupby', 'accumulate') else [])))
            if n in ('max', 'min', 'next'):
                if len(e.args) == 1:
                    return part_of(args[0])
                return vjoin(*allv)
            if n in ('setattr', 'delattr') and args:
                self.mutate(args[0], e, f'{n}()')
                return NOTHING
            if n == 'getattr':
                return every
            return fresh(every) if every is not None else None
        self.val(f)
        return every

    def apply(self, t, e, args, kws):
        """call against the callee's contract"""
        star = any(isinstance(a, ast.Starred) for a in e.args) or any(k is None for k, _ in kws)
        bindp = {}
        for p, v in zip(t.pos, args):
            bindp[p] = v
        for k, v in kws:
            if k:
                bindp[k] = v
        extra = opaque(*args[len(t.pos):])
        for p in t.mutates:
            v = bindp.get(p)
            if v is None and star:
                v = opaque(*args, *[x for _, x in kws])
            if v is not None:
                for lab in v.own:
                    self.muts.append((lab, e.lineno, f'passed to {t.id}, which modifies its argument {p}'))

        def sub(lab):
            if lab.startswith('P:*'):
                return [extra] if extra is not None else []
            v = bindp.get(lab[2:])
            if v is None and star:
                v = opaque(*args, *[x for _, x in kws])
            return [v] if v is not None else []
        if t.cached and t.ret is not None:
            return cache_label(t.ret, f'G:cache of {t.id}')
        return relabel(t.ret, sub)

    def store(self, name, *vs):
        """values become parts of the container"""
        o = self.env[name]
        if o is None:
            o = V()
        if o.part == 'self':
            self.env[name] = V(o.own | frozenset().union(*[labels(v) for v in vs]), 'self') if any(
                v is not None for v in vs) else o
        else:
            self.env[name] = V_(o.own, vjoin(part_of(o), *vs))

    # ---- statements
    def bind(self, t, v):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            if v is not None and v.fields is not None and v.part is None and len(v.fields) == len(t.elts) and \
                    not any(isinstance(q, ast.Starred) for q in t.elts):
                for q, w in zip(t.elts, v.fields):
                    self.bind(q, w)
                return
            for q in t.elts:
                self.bind(q.value if isinstance(q, ast.Starred) else q, fresh(part_of(v)) if isinstance(
                    q, ast.Starred) else part_of(v))
        elif isinstance(t, ast.Subscript):
            self.val(t.slice)
            self.mutate(self.val(t.value), t, 'item assignment')
            if isinstance(t.value, ast.Name) and t.value.id in self.env:
                self.store(t.value.id, v)
        elif isinstance(t, ast.Attribute):
            if t.attr in PREC_ATTRS:
                return
            root = t.value
            if isinstance(root, ast.Name) and root.id not in self.env:
                self.muts.append((f'G:{root.id}', t.lineno, f'attribute {t.attr} of a global assigned'))
            else:
                self.mutate(self.val(root), t, 'attribute assignment')

    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def branch(self, *blocks):
        start = dict(self.env)
        outs = []
        for b in blocks:
            self.env = dict(start)
            self.block(b)
            outs.append(self.env)
        env = {}
        for o in outs:
            for k, v in o.items():
                env[k] = vjoin(env[k], v) if k in env else v
        self.env = env

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            v = self.val(s.value)
            for t in s.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and \
                        len(t.elts) == len(s.value.elts) and not any(isinstance(q, ast.Starred)
                                                                     for q in t.elts + s.value.elts):
                    vs = [self.val(q) for q in s.value.elts]
                    for q, w in zip(t.elts, vs):
                        self.bind(q, w)
                else:
                    self.bind(t, v)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.val(s.value))
        elif isinstance(s, ast.AugAssign):
            v = self.val(s.value)
            t = s.target
            if isinstance(t, ast.Name):
                o = self.val(ast.Name(t.id, ast.Load()))
                if o is not None and o.own and isinstance(s.op, (ast.Add, ast.Mult, ast.BitOr, ast.BitAnd, ast.BitXor)) and \
                        (t.id in self.seqlike or isinstance(s.value, (ast.List, ast.ListComp))):
                    self.mutate(o, s, 'in-place operator on a sequence')
                    self.env[t.id] = vjoin(o, v)
                elif o is not None and o.own:
                    self.env[t.id] = None
                elif o is not None:
                    self.env[t.id] = fresh(part_of(o), part_of(v))
            elif isinstance(t, ast.Subscript):
                self.mutate(self.val(t.value), s, 'item assignment')
            elif isinstance(t, ast.Attribute) and t.attr not in PREC_ATTRS:
                root = t.value
                if isinstance(root, ast.Name) and root.id not in self.env:
                    self.muts.append((f'G:{root.id}', s.lineno, f'attribute {t.attr} of a global assigned'))
                else:
                    self.mutate(self.val(root), s, 'attribute assignment')
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.mutate(self.val(t.value), s, 'item deletion')
                elif isinstance(t, ast.Name):
                    self.env.pop(t.id, None)
        elif isinstance(s, ast.Return):
            self.ret = vjoin(self.ret, self.val(s.value))
        elif isinstance(s, ast.Expr):
            self.val(s.value)
        elif isinstance(s, ast.If):
            self.val(s.test)
            self.branch(s.body, s.orelse)
        elif isinstance(s, ast.For):
            it = self.val(s.iter)
            for _ in range(2):
                self.bind(s.target, part_of(it))
                self.branch(s.body, [])
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            for _ in range(2):
                self.val(s.test)
                self.branch(s.body, [])
            self.block(s.orelse)
        elif isinstance(s, ast.With):
            for it in s.items:
                v = self.val(it.context_expr)
                if it.optional_vars is not None:
                    self.bind(it.optional_vars, v)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            self.branch(s.body, [])
            self.branch([], *[h.body for h in s.handlers])
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, (ast.FunctionDef,)):
            t = self.w.nested(self.fn, s)
            if t is not None:
                sub = Own(self.w, t, self.env)
                sub.run()
                t.ret = sub.ret
                t.mutates = {lab[2:] for lab, _, _ in sub.muts if lab.startswith('P:') and lab[2:] in t.params}
                self.muts += [m for m in sub.muts if not (m[0].startswith('P:') and m[0][2:] in t.params)]
            self.env[s.name] = NOTHING
            for d in s.args.defaults + [d for d in s.args.kw_defaults if d]:
                self.val(d)
        elif isinstance(s, (ast.Raise, ast.Assert)):
            for ch in ast.iter_child_nodes(s):
                self.val(ch)
        elif isinstance(s, ast.Match):
            self.val(s.subject)
            self.branch(*[c.body for c in s.cases], [])
        elif isinstance(s, ast.Global):
            for n in s.names:
                self.muts.append((f'G:{self.fn.mod.name}.{n}', s.lineno, 'global statement'))


class World:
    def __init__(self, repo=None):
        self.mods = load(repo)
        self.fns = [f for m in self.mods.values() for f in m.all]

    def is_ctx(self, mod, name):
        src = mod.imports.get(name)
        return bool(src) and (src[0] or '').split('.')[0] == 'mpmath'

    def attr_global(self, mod, e):
        if isinstance(e.value, ast.Name):
            src, attr = mod.imports[e.value.id]
            nm = src if attr is None else f'{src}.{attr}'
            m = self.mods.get(nm)
            if m is not None and e.attr in m.globals and not self.immutable(m.globals[e.attr]):
                return V(frozenset([f'G:{nm}.{e.attr}']), 'self')
        return NOTHING

    def lookup(self, modname, attr, depth=0):
        m = self.mods.get(modname)
        if m is None or depth > 6:
            return None
        if attr in m.fns:
            return m.fns[attr]
        if attr in m.imports:
            src, a = m.imports[attr]
            if a is not None:
                return self.lookup(src, a, depth + 1)
        return None

    def resolve(self, mod, f):
        if isinstance(f, ast.Name):
            return self.lookup(mod.name, f.id)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in mod.imports:
            src, a = mod.imports[f.value.id]
            nm = src if a is None else f'{src}.{a}'
            return self.lookup(nm, f.attr)
        return None

    def local(self, fn, name):
        """a function nested in fn or in one of its enclosing functions"""
        o = fn
        while o is not None:
            for g in fn.mod.all:
                if g.outer is o and g.name == name and not isinstance(g.node, ast.Lambda):
                    return g
            o = o.outer
        return None

    def nested(self, fn, node):
        for g in fn.mod.all:
            if g.node is node:
                return g
        return None

    def method(self, fn, name):
        if fn.cls is None:
            return None
        for g in fn.mod.all:
            if g.cls == fn.cls and g.name == name:
                return g
        return None

    def immutable(self, g):
        """module-level value that cannot be modified"""
        if isinstance(g, (ast.Constant, ast.JoinedStr)):
            return True
        if isinstance(g, ast.Tuple):
            return all(self.immutable(t) for t in g.elts)
        if isinstance(g, (ast.BinOp, ast.UnaryOp, ast.Compare, ast.Lambda)):
            return not any(isinstance(s, (ast.List, ast.Dict, ast.Set, ast.ListComp)) for s in ast.walk(g))
        if isinstance(g, ast.Call):
            f = g.func
            nm = getattr(f, 'attr', None) or getattr(f, 'id', '')
            if nm in ('tuple', 'frozenset', 'int', 'float', 'str', 'mpf', 'mpc', 'Fraction', 'compile', 'version',
                      'namedtuple', 'MappingProxyType', 'range', 'len', 'sqrt', 'log', 'exp', 'power'):
                return True
            return False
        if isinstance(g, (ast.Name, ast.Attribute)):
            return True
        return False

    def infer(self):
        """return and mutation contracts of all functions, to a fixed point"""
        for _ in range(6):
            changed = False
            for f in self.fns:
                if f.outer is not None:
                    continue
                o = Own(self, f)
                o.run()
                f.muts = o.muts
                mt = {lab[2:] for lab, _, _ in o.muts if lab.startswith('P:')}
                if o.ret != f.ret or mt != f.mutates:
                    changed = True
                f.ret, f.mutates = o.ret, mt
            if not changed:
                break

    # ------------------------------------------------------------ purity
    def reads_precision(self, fn, seen=None):
        """may the result depend on the working precision at the call"""
        seen = seen or set()
        if fn.id in seen:
            return False
        seen.add(fn.id)
        for n in own_nodes(fn.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and \
                    self.is_ctx(fn.mod, n.value.id):
                return True
            if isinstance(n, ast.Call):
                t = self.resolve(fn.mod, n.func)
                if t is not None and self.reads_precision(t, seen):
                    return True
            if isinstance(n, ast.Constant) and isinstance(n.value, float):
                return True
        ints = set()
        for n in own_nodes(fn.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('range', 'int'):
                for s in ast.walk(n):
                    if isinstance(s, ast.Name):
                        ints.add(s.id)
        for n in own_nodes(fn.node):
            if isinstance(n, ast.BinOp):
                for s in (n.left, n.right):
                    if isinstance(s, ast.Name) and s.id in fn.params and s.id not in ints:
                        return True
        return False

    def cache_problem(self, fn):
        """None if the cached function's key determines its result"""
        if not self.reads_precision(fn):
            return None
        calls = []
        for g in self.fns:
            for n in own_nodes(g.node):
                if isinstance(n, ast.Call):
                    t = self.resolve(g.mod, n.func)
                    if t is fn:
                        calls.append((g, n))
        keyed = None
        for g, n in calls:
            good = set()
            for p, a in list(zip(fn.pos, n.args)) + [(k.arg, k.value) for k in n.keywords]:
                if self.is_prec(g, a):
                    good.add(p)
            keyed = good if keyed is None else keyed & good
        if fn.public:
            return 'a cached public function depends on the working precision'
        if not calls:
            return None
        if not keyed:
            return 'the cache key does not contain the working precision'
        return None

    def is_prec(self, g, a):
        if isinstance(a, ast.Attribute) and a.attr == 'prec' and isinstance(a.value, ast.Name) and \
                self.is_ctx(g.mod, a.value.id):
            return True
        if isinstance(a, ast.Name):
            defs = [n for n in own_nodes(g.node) if isinstance(n, ast.Assign) and
                    any(isinstance(t, ast.Name) and t.id == a.id for t in n.targets)]
            return len(defs) == 1 and a.id not in g.params and self.is_prec(g, defs[0].value) and \
                not any(isinstance(n, ast.With) for n in own_nodes(g.node))
        return False

    def inexact(self, mod, e):
        """does evaluating this expression at import or definition time freeze
        a value computed at that time's precision?"""
        for n in ast.walk(e):
            if isinstance(n, ast.Lambda):
                return False
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and self.is_ctx(mod, f.value.id):
                if f.attr in ('mpf', 'convert', 'mpmathify') and len(e.args) == 1:
                    a = e.args[0]
                    if isinstance(a, ast.UnaryOp):
                        a = a.operand
                    if isinstance(a, ast.Constant):
                        if isinstance(a.value, (int, float)):
                            return isinstance(a.value, int) and a.value.bit_length() > 50
                        if isinstance(a.value, str):
                            return not dyadic(a.value)
                return True
            t = self.resolve(mod, f)
            if t is not None and self.reads_precision(t):
                return True
            return any(self.inexact(mod, a) for a in e.args)
        if isinstance(e, (ast.BinOp, ast.UnaryOp)):
            for s in ast.walk(e):
                if isinstance(s, ast.Attribute) and isinstance(s.value, ast.Name) and self.is_ctx(mod, s.value.id):
                    if s.attr not in ('inf', 'ninf', 'nan'):
                        return True
            return False
        return any(self.inexact(mod, ch) for ch in ast.iter_child_nodes(e) if isinstance(ch, ast.expr))


def dyadic(s):
    from fractions import Fraction
    try:
        d = Fraction(s).denominator
    except (ValueError, ZeroDivisionError):
        return False
    return d & (d - 1) == 0 and d < 2**40


# ---------------------------------------------------------------- obligations

def c01(w):
    obs = []
    for f in w.fns:
        bad = PrecFrame(f).run()
        obs.append(dict(id=f'C01:precision:{f.id}', fn=f, bad=[f'{f.mod.path}:{ln}: {t}' for ln, t in bad]))
    for f in w.fns:
        if f.outer is not None or isinstance(f.node, ast.Lambda):
            continue
        bad = []
        if f.public or f.cls:
            for lab, ln, t in f.muts:
                if lab.startswith('P:') and not (f.cls and lab == 'P:self'):
                    bad.append(f'{f.mod.path}:{ln}: argument {lab[2:]} is modified ({t})')
        obs.append(dict(id=f'C01:arguments:{f.id}', fn=f, bad=bad))
    return obs


def c20(w):
    obs = []
    for f in w.fns:
        if f.outer is not None or isinstance(f.node, ast.Lambda):
            continue
        bad = []
        for lab, ln, t in f.muts:
            if lab.startswith('G:'):
                bad.append(f'{f.mod.path}:{ln}: module state {lab[2:]} is modified ({t})')
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        for p, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + \
                [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp)) and p in f.mutates:
                bad.append(f'{f.mod.path}:{f.line}: the mutable default of {p} is modified')
            if w.inexact(f.mod, d):
                bad.append(f'{f.mod.path}:{f.line}: default of {p} is computed at import, at another precision')
        for n in own_nodes(f.node):
            if isinstance(n, ast.Attribute) and n.attr in AMBIENT and isinstance(n.value, ast.Name) and \
                    n.value.id in f.mod.imports:
                bad.append(f'{f.mod.path}:{n.lineno}: reads ambient state ({n.attr})')
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in AMBIENT_CALLS:
                bad.append(f'{f.mod.path}:{n.lineno}: reads ambient state ({n.func.id})')
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in f.mod.imports and \
                    (f.mod.imports[n.id][0] or '').split('.')[0] in ('random', 'time', 'datetime', 'secrets', 'uuid'):
                bad.append(f'{f.mod.path}:{n.lineno}: reads ambient state ({n.id})')
        if f.cached:
            c = w.cache_problem(f)
            if c:
                bad.append(f'{f.mod.path}:{f.line}: {c}')
        if f.public:
            for lab in sorted(labels(f.ret)):
                if lab.startswith('G:'):
                    bad.append(f'{f.mod.path}:{f.line}: returns a reference to mutable state ({lab[2:]})')
        obs.append(dict(id=f'C20:purity:{f.id}', fn=f, bad=bad))
    for m in w.mods.values():
        bad = []
        for n, g in m.globals.items():
            if w.inexact(m, g):
                used = any(isinstance(s, ast.Name) and s.id == n and isinstance(s.ctx, ast.Load)
                           for f in m.all for s in own_nodes(f.node))
                if used or not n.startswith('_'):
                    bad.append(f'{m.path}:{g.lineno}: {n} is computed at import, at another precision')
        for cn, cd in m.classes.items():
            for s in cd.body:
                if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and w.inexact(m, s.value):
                    bad.append(f'{m.path}:{s.lineno}: class attribute computed at import, at another precision')
        obs.append(dict(id=f'C20:module:{m.name}', fn=None, bad=bad))
    return obs


def analyse(prop, repo=None):
    w = World(repo)
    w.infer()
    return {'C01': c01, 'C20': c20}[prop](w)


if __name__ == '__main__':
    import sys
    o = analyse(sys.argv[1])
    print(len(o), 'obligations', sum(1 for q in o if not q['bad']), 'discharged')
    for q in o:
        for b in q['bad']:
            print(q['id'], b)
