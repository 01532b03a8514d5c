"""
Symbolic side: executes the contract text on symbolic arguments over the
symbolically loaded real code and discharges the collected goals on every path.
"""
import time
import signal
import random
from fractions import Fraction
from . import terms as T
from . import sx
from . import logs
from .terms import c, ZERO, ONE
from .sx import (SX, SI, SBool, SAnd, SOr, SymSeq, CUR, Unsupported, SolverFailure, explore,
                 SPECIAL, PINF, NINF, NAN, CPLX)
from .smp import SMatrix
from .lab import Skip, Env
from .loader import SYM, init
from .numeval import evaluate, NumFail
from .norm import STATS, SLOW


class Goal:
    __slots__ = ('name', 'kind', 'a', 'b')

    def __init__(self, name, kind, a, b):
        self.name, self.kind, self.a, self.b = name, kind, a, b


class SymLab:
    symbolic = True

    def __init__(self):
        self.m = SYM.mp
        self.goals = []
        self.inf = SX(PINF)

    def mod(self, name):
        return SYM.modules['mpsci.' + name]

    def real(self, x):
        return SX(x)

    def q(self, a, b=1):
        return SX(c(Fraction(a) / Fraction(b)))

    def num(self, x):
        return x

    def to_float(self, x):
        """the same number as a Python float (the argument stands for any double)"""
        return sx.SFloat(x.e)

    def assume(self, *conds):
        for cnd in conds:
            if isinstance(cnd, (bool, int)):
                if not cnd:
                    raise sx.Infeasible()
            elif isinstance(cnd, SBool):
                CUR.path.assume(cnd.rel, cnd.e)
                if CUR.path.ctx.entails(cnd.rel, cnd.e) is False:
                    raise sx.Infeasible()
            elif isinstance(cnd, SAnd):
                self.assume(*cnd.parts)
            else:
                if not bool(cnd):
                    raise sx.Infeasible()

    def eq(self, name, a, b, tol=None):
        self.goals.append(Goal(name, 'eq', a, b))

    def ne(self, name, a, b):
        self.goals.append(Goal(name, 'ne', a, b))

    def le(self, name, a, b):
        self.goals.append(Goal(name, 'le', a, b))

    def lt(self, name, a, b):
        self.goals.append(Goal(name, 'lt', a, b))

    def true(self, name, cond):
        self.goals.append(Goal(name, 'true', cond, True))

    def cond(self, cnd):
        return bool(cnd)

    def raises(self, name, exc, thunk):
        try:
            v = thunk()
        except SolverFailure:
            self.goals.append(Goal(name, 'raises', 'solver failure reached', exc.__name__))
        except exc:
            self.goals.append(Goal(name, 'true', True, True))
        except Exception as e:
            self.goals.append(Goal(name, 'raises', f'{type(e).__name__}: {e}', exc.__name__))
        else:
            self.goals.append(Goal(name, 'raises', f'returned {str(v)[:200]}', exc.__name__))

    def deriv(self, f, x, n=1, singular=None):
        if not isinstance(x, SX) or x.e.op != 's':
            raise Unsupported('derivative at a non-variable')
        v = f(x)
        e = SX(v).e if not isinstance(v, SX) else v.e
        if e in SPECIAL:
            raise Unsupported('derivative of special value')
        for cd in CUR.path.conds:
            if cd[0] == '==' and x.e in T.free(cd[1]):
                raise Unsupported('derivative at a point where the code branches')
        for _ in range(n):
            e = T.diff(e, x.e)
        return SX(e)

    def dlog(self, f, x):
        '''the derivative of log f at x (f(x) > 0)'''
        if not isinstance(x, SX) or x.e.op != 's':
            raise Unsupported('derivative at a non-variable')
        v = f(x)
        e = SX(v).e if not isinstance(v, SX) else v.e
        if e in SPECIAL:
            raise Unsupported('derivative of special value')
        for cd in CUR.path.conds:
            if cd[0] == '==' and x.e in T.free(cd[1]):
                raise Unsupported('derivative at a point where the code branches')
        e = CUR.path.ctx.canon(T.log(e))
        return SX(T.diff(e, x.e))

    def quot(self, u, v):
        '''u/v, from the logarithms if their difference is free of special functions'''
        r = u/v
        if isinstance(u, SX) and isinstance(v, SX):
            ctx = CUR.path.ctx
            if ctx.entails('>', u.e) is True and ctx.entails('>', v.e) is True:
                e = ctx.canon(T.sub(T.log(u.e), T.log(v.e)))
                st, ok, n = [e], True, 0
                while st and ok:
                    t = st.pop()
                    n += 1
                    ok = n < 40 and t.op in ('c', 's', 'k', '+', '*', '^', 'exp', 'log')
                    st.extend(a for a in t.args if isinstance(a, T.E))
                if ok:
                    return SX(T.exp(e))
        return r

    def seq(self, x):
        return x

    def sum(self, it):
        return SYM.mp.fsum(it)

    def isseq(self, x):
        return isinstance(x, SymSeq)

    def map(self, f, *seqs):
        if len(seqs) == 1:
            return sx.seq_comp(f, seqs[0])
        return sx.seq_comp(lambda t: f(*t), sx.py_zip(*seqs))

    def tsum(self, f, *seqs):
        """sum of f over the elements"""
        return SYM.mp.fsum(self.map(f, *seqs))

    def len(self, s):
        return sx.py_len(s)

    def range(self, *a):
        return sx.py_range(*a)

    def ind(self, cond):
        """1 if the condition holds, else 0"""
        return SX(ONE) if cond else SX(ZERO)

    def not_constant(self, x):
        """assume: some element differs from the first one"""
        p = CUR.path
        w = p.fresh_sym('wd', 'i')
        p.assume('>=', T.sub(w, T.add(x.fam[0], ONE)))
        p.assume('>=', T.sub(x.fam[1], w))
        p.witness.append(w)
        self.assume(sx._subst_val(x.elem, {x.idx: w}) != x[0])

    def some(self, x, cond):
        """assume: some element satisfies the condition"""
        p = CUR.path
        w = p.fresh_sym('we', 'i')
        p.assume('>=', T.sub(w, x.fam[0]))
        p.assume('>=', T.sub(x.fam[1], w))
        p.witness.append(w)
        self.assume(cond(sx._subst_val(x.elem, {x.idx: w})))

    def minimum(self, s):
        return sx.py_min(s)

    def maximum(self, s):
        return sx.py_max(s)

    def score(self, f, hats, xs, counts=None):
        """[(d/d theta_k of sum c_i f(x_i, theta) at theta = hats, scale)]; `hats`
        are in the interior of the parameter space (assumed by the contract)"""
        p = CUR.path
        th = []
        hs = [toe(h) for h in hats]
        for k, h in enumerate(hs):
            t = p.fresh_sym('th')
            for rel in ('>', '<'):
                if p.ctx.entails(rel, h) is True:
                    p.assume(rel, t)
                if p.ctx.entails(rel, T.sub(h, c(1))) is True:
                    p.assume(rel, T.sub(t, c(1)))
            th.append(t)
        n0 = len(p.conds)
        p.generic = set(th)
        seqs = (xs,) if counts is None else (xs, counts)
        g = (lambda x, w=1: w*f(x, *[SX(t) for t in th]))
        v = self.tsum(g, *seqs) if isinstance(xs, SymSeq) else \
            sum((g(*q) for q in zip(*seqs)), SX(ZERO))
        p.generic = set()
        e = toe(v)
        if e in SPECIAL:
            raise Unsupported('derivative of special value')
        m = dict(zip(th, hs))
        return [(SX(T.subst(T.diff(e, t), m)), None) for t in th]

    def rootdom(self, doms):
        """assume: a root returned by the solver lies in the parameter space"""
        CUR.path.rootdom = doms

    def zero(self, name, v, scale=None, tol=None):
        self.goals.append(Goal(name, 'eq', v, SX(ZERO)))

    def ufun(self, name, concrete=None, at_ninf=None, at_inf=None):
        """an unknown function of one real argument"""
        def f(x):
            e = toe(x)
            if e is PINF:
                return at_inf if at_inf is not None else SX(CUR_sym(name + '_hi'))
            if e is NINF:
                return at_ninf if at_ninf is not None else SX(CUR_sym(name + '_lo'))
            if e in SPECIAL:
                raise Unsupported('unknown function at nan')
            return SX(T.fn('uf_' + name, CUR.path.ctx.canon(e)))
        return f

    def unknown(self, name, concrete=None):
        """an unknown real number (computed from the arguments in concrete runs)"""
        return SX(T.sym('u_' + name))

    def same_type(self, name, a, b):
        self.goals.append(Goal(name, 'true', type(a) is type(b), True))


def CUR_sym(n):
    return T.sym('u_' + n)


def prove(goal, ctx):
    """True (proved) / None (undecided) / False (refuted)"""
    if goal.kind == 'raises':
        return False
    if goal.kind == 'true':
        v = goal.a
        if isinstance(v, bool):
            return v
        if isinstance(v, SBool):
            return ctx.entails(v.rel, v.e)
        if isinstance(v, (SAnd, SOr)):
            rs = [prove(Goal('', 'true', p, True), ctx) for p in v.parts]
            if isinstance(v, SAnd):
                return True if all(r is True for r in rs) else (False if any(r is False for r in rs) else None)
            return True if any(r is True for r in rs) else (False if all(r is False for r in rs) else None)
        return bool(v)
    if goal.kind == 'eq':
        return eqv(goal.a, goal.b, ctx)
    a, b = toe(goal.a), toe(goal.b)
    if goal.kind in ('le', 'lt'):
        r = sx.s_cmp('<=' if goal.kind == 'le' else '<', a, b)
        if isinstance(r, bool):
            return r
        t = ctx.entails(r.rel, r.e)
        return t if t is True else (logs.entails(ctx, r.rel, r.e) or t)
    if goal.kind == 'ne':
        r = sx.s_cmp('!=', a, b)
        return r if isinstance(r, bool) else ctx.entails(r.rel, r.e)
    return None


def toe(v):
    e, k = sx._conv(v)
    if e is None:
        raise Unsupported(f'value {type(v).__name__}')
    return e


def squeezed(ctx, d):
    """d >= 0 is one of the facts, and so is d <= 0"""
    up = down = False
    try:
        from .norm import solve_linear
        eqs = {}
        for rel, e in ctx.facts:
            if rel == '==':
                s = solve_linear(ctx.canon(T.subst(e, eqs)))
                if s is not None and s[0].op == 's':
                    if s[1].op == 's' and s[0] in T.free(d) and s[1] not in T.free(d):
                        s = (s[1], s[0])
                    eqs = {k: T.subst(v, {s[0]: s[1]}) for k, v in eqs.items()}
                    eqs[s[0]] = s[1]
        d = T.subst(d, eqs)
        for rel, e in ctx.facts:
            if rel not in ('>=', '<='):
                continue
            e = T.subst(e, eqs)
            for s, f in ((1, T.sub(e, d)), (-1, T.add(e, d))):
                if (up if (rel == '>=') == (s > 0) else down):
                    continue
                if ctx.is_zero(f):
                    if (rel == '>=') == (s > 0):
                        up = True
                    else:
                        down = True
        return up and down
    except ZeroDivisionError:
        return False


def eqv(a, b, ctx):
    if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return a is b or (type(a) is type(b) and a == b)
    if isinstance(a, SMatrix) or isinstance(b, SMatrix):
        if not (isinstance(a, SMatrix) and isinstance(b, SMatrix)):
            return None
        if (a.rows, a.cols) != (b.rows, b.cols):
            return False
        rs = [eqv(a[i, j], b[i, j], ctx) for i in range(a.rows) for j in range(a.cols)]
        return True if all(r is True for r in rs) else None
    if isinstance(a, SymSeq) or isinstance(b, SymSeq):
        if isinstance(a, SymSeq) and isinstance(b, SymSeq):
            if isinstance(a, sx.SRange) and isinstance(b, sx.SRange):
                pass
            r1 = ctx.prove_eq(a.fam[0], b.fam[0])
            r2 = ctx.prove_eq(a.fam[1], b.fam[1])
            if r1 is True and r2 is True:
                if a.fam == b.fam:
                    return eqv(a.elem, b.elem, ctx)
                eb = sx._subst_val(b.elem, {b.idx: a.idx})
                return eqv(a.elem, eb, ctx)
            return None
        return None
    if isinstance(a, range) and isinstance(b, range):
        return a == b
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not isinstance(a, (list, tuple)) or not isinstance(b, (list, tuple)):
            return None
        if len(a) != len(b):
            return False
        rs = [eqv(x, y, ctx) for x, y in zip(a, b)]
        if all(r is True for r in rs):
            return True
        return None
    a, b = toe(a), toe(b)
    if a in SPECIAL or b in SPECIAL:
        return a is b and a is not CPLX
    if ctx.prove_eq(a, b) is True:
        return True
    if squeezed(ctx, T.sub(a, b)):
        return True
    return None


# ------------------------------------------------------------------ arguments

def sym_args(ob):
    """-> (env of symbolic values, facts)"""
    env = Env()
    facts = CUR.path.ctx.facts

    def dom_facts(e, d):
        lo, hi = d.bounds(env)
        for bnd, rel, relc, inc in ((lo, '>', '>=', d.lo_in), (hi, '<', '<=', d.hi_in)):
            if bnd is None:
                continue
            be = toe(bnd)
            if be in SPECIAL:
                continue
            CUR.path.assume(relc if inc else rel, T.sub(e, be))

    for n, d in ob.args:
        if d.sort == 'seq':
            if d.same_len:
                ln = env[d.same_len].n
            else:
                ln = T.sym('n_' + n, 'i')
                sx.LENGTHS.add('n_' + n)
                CUR.path.assume('>=', T.sub(ln, c(d.nmin)))
            kind = 'int' if d.elem.sort == 'i' else 'mpf'
            s = sx.sym_seq(n, ln, kind)
            env[n] = s
            dom_facts(s.elem.e, d.elem)
        else:
            e = T.sym(n, 'i' if d.sort == 'i' else 'r')
            env[n] = SI(e) if d.sort == 'i' else SX(e)
            dom_facts(e, d)
    return env, list(facts)


class Budget(BaseException):
    pass


def _alarm(sig, frame):
    f = frame
    while f is not None:
        if f.f_code.co_name == '__del__':       # an exception would be swallowed here
            signal.setitimer(signal.ITIMER_REAL, 0.1, 2.0)
            return
        f = f.f_back
    raise Unsupported('time budget of the obligation exhausted')


class PathResult:
    def __init__(self, kind, why, conds, ctx, goals):
        self.kind, self.why, self.conds, self.ctx, self.goals = kind, why, conds, ctx, goals


_stubbed = False


def install_stubs():
    """callers of the helpers under contract see the contract, not the body"""
    global _stubbed
    if _stubbed:
        return
    _stubbed = True
    import inspect
    from contracts import helpers
    for name, (nreq, stub, mod) in helpers.stubs().items():
        common = SYM.modules.get('mpsci.' + mod)
        real = getattr(common, name, None)
        if not inspect.isfunction(real):
            continue
        req = [q for q in inspect.signature(real).parameters.values() if q.default is q.empty]
        if len(req) != nreq or list(inspect.signature(stub).parameters) != list(inspect.signature(real).parameters):
            continue
        stub.real = real
        for m in list(SYM.modules.values()):
            if m.__dict__.get(name) is real:
                setattr(m, name, stub)


def run_symbolic(ob, budget=20.0):
    """-> dict(status, paths, goals, proved, failing=[PathResult])"""
    init()
    install_stubs()
    res = dict(paths=0, goals=0, proved=0, failing=[], unsupported=[], solverfail=0)
    t0 = time.time()
    SLOW[0] = 0
    q0 = STATS.get('z3_time', 0)
    holder = {}
    # argument facts may themselves need a path (bounds with special values)
    old = CUR.path
    CUR.path = sx.Path([], [])
    try:
        env, facts = sym_args(ob)
        split = bool(CUR.path.taken)
    finally:
        CUR.path = old
    if split:           # the bounds of a domain are given by cases: every case is explored
        facts = []

    def thunk():
        lab = SymLab()
        holder['lab'] = lab
        ob.body(lab, sym_args(ob)[0] if split else env)
        return lab

    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, budget, 2.0)
    sx.Loops.reset(rule_for=getattr(ob, 'loops', False))
    try:
        while True:
            sx.Loops.changed = False
            res.update(paths=0, goals=0, proved=0, failing=[], unsupported=[], solverfail=0)
            one_round(ob, res, thunk, facts, t0, budget)
            if not sx.Loops.changed or time.time() - t0 > budget or \
                    any('time' in u for u in res['unsupported']):
                break
        if sx.Loops.changed:
            res['failing'].append(PathResult('unsupported', 'loop invariants not stable', [], None, []))
    except sx.Unsupported as e:
        res['failing'].append(PathResult('unsupported', str(e)[:200], [], None, []))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        CUR.path = old
    res['invariants'] = dict(sx.Loops.used)
    res['time'] = time.time() - t0
    res['z3'] = STATS.get('z3_time', 0) - q0
    if res['failing']:
        res['status'] = 'undecided'
    elif res['goals'] == 0:
        res['status'] = 'vacuous'
    else:
        res['status'] = 'proved'
    return res


def one_round(ob, res, thunk, facts, t0, budget):
    old = CUR.path
    try:
        try:
            for out in explore(thunk, facts, max_paths=ob.maxpaths, deadline=t0 + budget):
                res['paths'] += 1
                p = out.path
                if out.kind == 'unsupported':
                    res['unsupported'].append(str(out.value)[:200])
                    res['failing'].append(PathResult('unsupported', str(out.value)[:200], p.conds, p.ctx, []))
                    continue
                if out.kind == 'exc':
                    if isinstance(out.value, (SolverFailure,)):
                        res['solverfail'] += 1
                        continue
                    if isinstance(out.value, Skip):
                        continue
                    res['goals'] += 1
                    res['failing'].append(PathResult(
                        'exc', f'{type(out.value).__name__}: {out.value}', p.conds, p.ctx, []))
                    continue
                bad = []
                CUR.path = p
                for g in p.requires + out.value.goals:
                    res['goals'] += 1
                    try:
                        r = prove(g, p.ctx)
                    except (Unsupported, TypeError) as e:
                        r = None
                        if 'time budget' in str(e):
                            raise
                        res['unsupported'].append(str(e)[:200])
                    if r is True:
                        res['proved'] += 1
                    else:
                        bad.append((g, r))
                CUR.path = None
                if bad:
                    res['failing'].append(PathResult('goal', ', '.join(g.name for g, r in bad),
                                                     p.conds, p.ctx, bad))
        except Unsupported as e:
            res['unsupported'].append(str(e)[:200])
            res['failing'].append(PathResult('unsupported', str(e)[:200], [], None, []))
    finally:
        CUR.path = old


# -------------------------------------------------- inputs for a failing path

def holds(conds, env, mp):
    """numerically: does the point satisfy the path conditions (None: unknown)"""
    unknown = False
    for cd in conds:
        if not isinstance(cd[0], str) or cd[0] not in ('>', '>=', '<', '<=', '==', '!='):
            unknown = True
            continue
        try:
            v = evaluate(cd[1], env, mp)
        except Exception:
            unknown = True
            continue
        try:
            if abs(v) < mp.mpf(10) ** -25:
                v = mp.mpf(0)
            if not sx._cmp(cd[0], v):
                return False
        except TypeError:
            return False
    return None if unknown else True


def directed_inputs(ob, pr, seed, want=6, tries=400, seconds=4.0):
    """exact rational argument tuples that follow the failing path"""
    from .norm import _numctx as mp
    t0 = time.time()
    out = []
    if pr.ctx is None:
        return out
    scal = [(n, d) for n, d in ob.args if d.sort != 'seq']
    syms = {n: T.sym(n, 'i' if d.sort == 'i' else 'r') for n, d in scal}
    seqs = [(n, d) for n, d in ob.args if d.sort == 'seq']
    consts = set()
    for cd in pr.conds:
        if isinstance(cd[1], T.E):
            for s in T.subterms(cd[1]):
                if s.op == 'c' and abs(s.args[0]) < 10**6:
                    consts.add(s.args[0])
    dic = sorted(consts)[:40]
    base = []
    try:
        md = pr.ctx.z3env().model(list(syms.values()))
    except Exception:
        md = None
    if md:
        base.append({n: md.get(syms[n]) for n in syms if md.get(syms[n]) is not None})
    for i in range(tries):
        if len(out) >= want or time.time() - t0 > seconds:
            break
        rng = random.Random(f'{seed}|{ob.id}|dir|{i}')
        try:
            env = ob.sample_args(rng, dic)
        except Skip:
            continue
        if base and i < tries // 3:
            m = base[0]
            keep = rng.random()
            for n, v in m.items():
                if i == 0 or rng.random() < 0.75:
                    env[n] = Fraction(v)
            # the customary range of a parameter is left only for a path that
            # nothing inside it follows
            if not in_domain(ob, env, soft=bool(out) or i < tries//6):
                continue
            try:
                for n, d in seqs:
                    env[n] = d.sample(rng, env, dic)
            except Skip:
                continue
        ne = {syms[n]: mp.mpf(Fraction(env[n]).numerator) / Fraction(env[n]).denominator for n in syms}
        h = holds(pr.conds, ne, mp)
        if h is False:
            continue
        out.append(env)
    return out


def in_domain(ob, env, soft=True):
    e2 = Env()
    for n, d in ob.args:
        v = env[n]
        if d.sort == 'seq':
            e2[n] = v
            continue
        try:
            lo, hi = d.bounds(e2)
        except Exception:
            return False
        if lo is not None and (v < lo or (v == lo and not d.lo_in)):
            return False
        if hi is not None and (v > hi or (v == hi and not d.hi_in)):
            return False
        if d.sort == 'i' and Fraction(v).denominator != 1:
            return False
        cl = getattr(d, 'clip', None)
        if cl is not None and not soft:
            if getattr(d, 'soft', False):
                cl = None
            else:
                # for a path that nothing in the customary range follows
                w = 4*max(abs(t) for t in cl if t is not None)
                cl = (None if cl[0] is None else cl[0]/4 if cl[0] > 0 else -w, None if cl[1] is None else w)
        if cl is not None and ((cl[0] is not None and v < cl[0]) or (cl[1] is not None and v > cl[1])):
            return False
        e2[n] = v
    return True
