"""
Symbolic values and the symbolic stand-in for mpmath.

The repository's own functions are executed (their current source, compiled by
CPython) on these values: every operator builds a term, every branch on an
undecided condition forks the path, calls into mpmath are replaced by their
assumed contracts.
"""
from fractions import Fraction
import math
import operator
import types
from . import terms as T
from .terms import E, mk, c, ZERO, ONE, MONE, HALF, TWO, PI
from .norm import Ctx, STATS, _numctx
from . import mono

PINF = mk('k', '+inf')
NINF = mk('k', '-inf')
NAN = mk('k', 'nan')
CPLX = mk('k', 'complex')
SPECIAL = {PINF, NINF, NAN, CPLX}


class Unsupported(BaseException):
    """The construct is outside the verifier's reach."""


class Infeasible(BaseException):
    """The current path's facts are contradictory."""


class SolverFailure(ValueError):
    """An assumed-contract numerical solver did not converge."""


def _num_value(e):
    """numeric value of a constant term, or None"""
    from .numeval import evaluate, NumFail
    if T.free(e):
        return None
    try:
        return evaluate(e, {}, _numctx)
    except NumFail:
        return None
    except Exception:
        return None


class Path:
    def __init__(self, prefix, facts):
        self.prefix = prefix
        self.i = 0
        self.taken = []
        self.alts = []
        self.ctx = Ctx(facts)
        self.nbase = len(facts)
        self.conds = []
        self.bound = []        # bound symbols currently in scope
        self.fresh = {}
        self.events = []
        self.requires = []     # preconditions of contracts used at call sites
        self.univ = []
        self.ndec = 0
        self.linkpairs = []
        self.generic = set()   # variables of differentiation
        self.rootdom = {}
        self.witness = []      # indices introduced by the contract
        self.loops = []        # loops over symbolic sequences being summarised
        self.sorted = {}       # name of a sorted sequence -> (generic element of the source, family)
        self.mono_left, self.mono_memo = 6, {}
        self.local = None      # case split inside the generic element of a family

    def fresh_sym(self, name, sort='r'):
        if self.bound and name != 'd':
            raise Unsupported(f'{name} inside the generic element of a sequence')
        n = self.fresh.get(name, 0)
        self.fresh[name] = n + 1
        return T.sym(f'{name}~{n}' if n else f'{name}~', sort)

    def assume(self, rel, e):
        if e in SPECIAL:
            return
        self.ctx.assume(rel, e)

    def choice(self, tag):
        """nondeterministic boolean"""
        if self.i < len(self.prefix):
            v = self.prefix[self.i]
        else:
            v = False
            self.alts.append(self.taken + [True])
        self.i += 1
        self.taken.append(v)
        self.conds.append((tag, v))
        return v

    def loop_branch(self, rel, e):
        """a condition on the current element inside a loop body: either some
        element satisfies it (then the body must leave the loop by raising,
        see LoopOut.close), or no element does"""
        if not self.loops:
            return None
        L = self.loops[-1]
        if [b for b in self.bound if b in T.free(e)] != [L.idx]:
            return None
        if self.choice(f'some element: {e} {rel} 0'):
            L.abrupt = True
            bound, self.bound = self.bound, []
            w = self.fresh_sym('w', 'i')
            self.bound = bound
            self.assume('>=', T.sub(w, L.it.fam[0]))
            if L.it.fam[1] is not PINF:
                self.assume('<=', T.sub(w, L.it.fam[1]))
            self.assume(rel, T.subst(e, {L.idx: w}))
            return True
        self.none_satisfies(L.it.fam, L.idx, rel, e)
        return False

    def none_satisfies(self, fam, idx, rel, e):
        self.assume(NEG[rel], e)
        for w in self.witness:
            if self.ctx.entails('>=', T.sub(w, fam[0])) is True and \
                    self.ctx.entails('>=', T.sub(fam[1], w)) is True:
                self.assume(NEG[rel], T.subst(e, {idx: w}))

    def decide(self, rel, e):
        if e.op == 'c':
            return _cmp(rel, e.args[0])
        if not T.free(e):
            v = _num_value(e)
            if v is not None:
                if abs(v) > mpm('1e-25'):
                    return _cmp(rel, v)
                # decided by normalisation below (== 0 exactly?)
        r = self.ctx.entails(rel, e)
        if r is not None:
            return r
        if self.mono_left > 0 and not self.bound and self.local is None and mono.transcendental(e):
            g = self.mono_memo.get(e)
            if g is None:
                self.mono_left -= 1
                g = self.mono_memo[e] = mono.sign(self, e) or ''
                if g:
                    self.ctx.assume('>' if g == '+' else '<', e)
            if g:
                return _cmp(rel, 1 if g == '+' else -1)
        if self.generic and rel in ('==', '!=') and not self.generic.isdisjoint(T.free(e)):
            # a variable of differentiation: equalities hold at isolated points only
            self.ctx.assume('!=', e)
            return rel == '!='
        for b in self.bound:
            if b in T.free(e):
                if self.local is None:
                    r = self.loop_branch(rel, e)
                    if r is not None:
                        return r
                    raise Unsupported(f'branch on a bound variable: {e} {rel} 0')
                return self.local.decide(self, rel, e)
        self.ndec += 1
        if self.ndec > 60:
            raise Unsupported('too many undecided branches on one path')
        if self.i < len(self.prefix):
            v = self.prefix[self.i]
        else:
            v = True
            self.alts.append(self.taken + [False])
        self.i += 1
        self.taken.append(v)
        f = (rel, e) if v else (NEG[rel], e)
        self.conds.append(f)
        self.ctx.assume(*f)
        if self.local is not None:
            self.local.globally(*f)
        return v


class Local:
    """one run of a generic element under a choice of its own branches"""

    def __init__(self, prefix, outer):
        self.prefix, self.outer = prefix, outer
        self.taken, self.conds, self.alts = [], [], []
        self.base = None
        self.touched = False

    def decide(self, p, rel, e):
        if self.base is None:
            self.base = p.ctx
            p.ctx = p.ctx.clone()
        n = len(self.taken)
        if n > 8:
            raise Unsupported('too many branches in a generic element')
        if n < len(self.prefix):
            v = self.prefix[n]
        else:
            v = True
            self.alts.append(self.taken + [False])
        self.taken.append(v)
        f = (rel, e) if v else (NEG[rel], e)
        self.conds.append(((rel, e), v))
        p.ctx.assume(*f)
        if p.ctx.feasible() is False:
            raise Infeasible()
        return v

    def globally(self, rel, e):
        self.touched = True
        if self.base is not None:
            self.base.assume(rel, e)
        if self.outer is not None:
            self.outer.globally(rel, e)


def cases(p, body):
    """value of body() for the generic element, branches on the element joined
    into a conditional term"""
    for _ in range(12):
        out, stack, touched = [], [[]], False
        outer = p.local
        while stack:
            loc = Local(stack.pop(), outer)
            p.local = loc
            bound = list(p.bound)
            ctx0 = p.ctx
            try:
                v = body()
                out.append((loc.conds, v))
            except Infeasible:
                if not loc.conds:
                    raise
            finally:
                p.local = outer
                p.bound[:] = bound
                if loc.base is not None:
                    p.ctx = loc.base
                else:
                    p.ctx = ctx0
            touched |= loc.touched
            stack.extend(loc.alts)
            if len(out) > 24:
                raise Unsupported('too many cases in a generic element')
        if len(out) == 1:
            return out[0][1]
        if not touched:
            break
    else:
        raise Unsupported('generic element: cases not stable')
    if not out:
        raise Infeasible()
    return join(out, 0)


def join(rs, k):
    if len(rs) == 1:
        return rs[0][1]
    v0 = rs[0][1]
    if all(isinstance(v, (bool, str)) or v is None for _, v in rs):
        if all(v == v0 and type(v) is type(v0) for _, v in rs):
            return v0
        if not all(isinstance(v, bool) for _, v in rs):
            raise Unsupported('branch on a bound variable decides a Boolean')
    (rel, e), _ = rs[0][0][k]
    a = [r for r in rs if len(r[0]) > k and r[0][k] == ((rel, e), True)]
    b = [r for r in rs if len(r[0]) > k and r[0][k] == ((rel, e), False)]
    if len(a) + len(b) != len(rs):
        raise Unsupported('generic element: cases do not form a tree')
    if not a or not b:
        return join(rs, k + 1)
    return ite(rel, e, join(a, k + 1), join(b, k + 1))


def ite(rel, e, x, y):
    if isinstance(x, (bool, SBool, SAnd)) and isinstance(y, (bool, SBool, SAnd)):
        if x is True and y is False:
            return SBool(rel, e)
        if x is False and y is True:
            return SBool(NEG[rel], e)
        if y is False:
            return SAnd([SBool(rel, e)] + (x.parts if isinstance(x, SAnd) else [x]))
        if x is False:
            return SAnd([SBool(NEG[rel], e)] + (y.parts if isinstance(y, SAnd) else [y]))
        raise Unsupported('branch on a bound variable decides a Boolean')
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return tuple(ite(rel, e, s, t) for s, t in zip(x, y))
    xe, xk = _conv(x)
    ye, yk = _conv(y)
    if xe is None or ye is None:
        raise Unsupported('branches on a bound variable give values of different kinds')
    integer = isinstance(x, (SI, int)) and isinstance(y, (SI, int))
    if xe is ye:
        return x
    if xe in SPECIAL or ye in SPECIAL:
        raise Unsupported('branch on a bound variable gives a special value')
    if rel in ('!=', '<=', '<'):
        rel, xe, ye = NEG[rel], ye, xe
    r = T.fn('ite' + rel, e, xe, ye)
    return SX(r) if not integer else SI(r)


def mpm(s):
    return _numctx.mpf(s)


NEG = {'>': '<=', '>=': '<', '<': '>=', '<=': '>', '==': '!=', '!=': '=='}


def _cmp(rel, v):
    return {'>': v > 0, '>=': v >= 0, '<': v < 0, '<=': v <= 0,
            '==': v == 0, '!=': v != 0}[rel]


class _Cur:
    path = None


CUR = _Cur()


def decide(rel, e):
    return CUR.path.decide(rel, e)


class SBool:
    __slots__ = ('rel', 'e')

    def __init__(self, rel, e):
        self.rel = rel
        self.e = e

    def __bool__(self):
        return decide(self.rel, self.e)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __invert__(self):
        return not bool(self)

    def __and__(self, o):
        return bool(self) and bool(o)

    def __or__(self, o):
        return bool(self) or bool(o)

    def __xor__(self, o):
        return bool(self) != bool(o)

    __rand__ = __and__
    __ror__ = __or__

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __hash__(self):
        return hash((self.rel, self.e))

    def neg(self):
        return SBool(NEG[self.rel], self.e)

    # arithmetic on booleans
    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__


class SAnd:
    def __init__(self, parts):
        self.parts = parts

    def __bool__(self):
        return all(bool(p) for p in self.parts)


class SOr:
    def __init__(self, parts):
        self.parts = parts

    def __bool__(self):
        return any(bool(p) for p in self.parts)


def mkbool(rel, e):
    if e.op == 'c':
        return _cmp(rel, e.args[0])
    return SBool(rel, e)


# ------------------------------------------------------------ arithmetic on E
# with the special values; these may fork

def s_add(a, b):
    if a in SPECIAL or b in SPECIAL:
        if CPLX in (a, b):
            return CPLX
        if NAN in (a, b):
            return NAN
        if a in SPECIAL and b in SPECIAL:
            return a if a is b else NAN
        return a if a in SPECIAL else b
    return T.add(a, b)


def s_neg(a):
    if a in SPECIAL:
        return {PINF: NINF, NINF: PINF}.get(a, a)
    return T.neg(a)


def s_mul(a, b):
    if a in SPECIAL or b in SPECIAL:
        if CPLX in (a, b):
            return CPLX
        if NAN in (a, b):
            return NAN
        if a in SPECIAL and b in SPECIAL:
            return PINF if a is b else NINF
        if b in SPECIAL:
            a, b = b, a
        if decide('>', b):
            return a
        if decide('==', b):
            return NAN
        return s_neg(a)
    return T.mul(a, b)


def s_div(a, b):
    if a in SPECIAL or b in SPECIAL:
        if CPLX in (a, b):
            return CPLX
        if NAN in (a, b):
            return NAN
        if a in SPECIAL and b in SPECIAL:
            return NAN
        if b in SPECIAL:
            return ZERO
        if decide('>', b):
            return a
        if decide('==', b):
            raise ZeroDivisionError
        return s_neg(a)
    if b.op == 'c':
        if b.args[0] == 0:
            raise ZeroDivisionError
        return T.div(a, b)
    if decide('==', b):
        raise ZeroDivisionError
    return T.div(a, b)


def int_sorted(e):
    if e.op == 'c':
        return e.args[0].denominator == 1
    if e.op == 's':
        return e.args[1] == 'i'
    if e.op in ('+', '*'):
        return all(int_sorted(a) for a in e.args)
    if e.op == 'floor':
        return True
    if e.op in ('ite>', 'ite>=', 'ite=='):
        return int_sorted(e.args[1]) and int_sorted(e.args[2])
    if e.op == '^':
        return int_sorted(e.args[0]) and e.args[1].op == 'c' and \
            int_sorted(e.args[1]) and e.args[1].args[0] >= 0
    if e.op == 'at':
        return e.args[0].startswith('i:')
    if e.op == 'sum':
        return int_sorted(e.args[3])
    return False


def s_pow(a, b):
    if a in SPECIAL or b in SPECIAL:
        if CPLX in (a, b):
            return CPLX
        if NAN in (a, b):
            return NAN if b is not ZERO else ONE
        if a in SPECIAL and b in SPECIAL:
            if b is PINF:
                return PINF if a is PINF else NAN
            return ZERO
        if a in SPECIAL:
            if decide('>', b):
                if a is PINF:
                    return PINF
                if b.op == 'c' and b.args[0].denominator == 1:
                    return PINF if b.args[0] % 2 == 0 else NINF
                raise Unsupported('(-inf)**y')
            if decide('==', b):
                return ONE
            return ZERO
        # a ** inf
        one = T.sub(T.fn('abs', a), ONE) if not _nonneg(a) else T.sub(a, ONE)
        if decide('==', one):
            return ONE
        big = decide('>', one)
        return PINF if big == (b is PINF) else ZERO
    if b.op == 'c' and b.args[0].denominator == 1:
        if b.args[0] >= 0:
            return T.pw(a, b)
        if decide('==', a):
            raise ZeroDivisionError
        return T.pw(a, b)
    if decide('>', a):
        return T.pw(a, b)
    if decide('==', a):
        if decide('>', b):
            return ZERO
        if decide('==', b):
            return ONE
        raise ZeroDivisionError
    if int_sorted(b):
        return T.pw(a, b)
    return CPLX


def _nonneg(a):
    return CUR.path.ctx.entails('>=', a) is True


def s_cmp(rel, a, b):
    """a rel b"""
    if a in SPECIAL or b in SPECIAL:
        if CPLX in (a, b):
            raise TypeError('no ordering relation is defined for complex numbers') \
                if rel not in ('==', '!=') else Unsupported('complex ==')
        if NAN in (a, b):
            return rel == '!='
        if a is b:
            return rel in ('==', '<=', '>=')
        if a is PINF or b is NINF:
            return rel in ('>', '>=', '!=')
        return rel in ('<', '<=', '!=')
    return mkbool(rel, T.sub(a, b))


class _Num:
    """Common base of symbolic mpf and symbolic Python int."""
    __slots__ = ('e',)

    def __hash__(self):
        return hash(self.e)

    def __lt__(self, o):
        return _bin_cmp('<', self, o)

    def __le__(self, o):
        return _bin_cmp('<=', self, o)

    def __gt__(self, o):
        return _bin_cmp('>', self, o)

    def __ge__(self, o):
        return _bin_cmp('>=', self, o)

    def __eq__(self, o):
        r = _bin_cmp('==', self, o)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = _bin_cmp('!=', self, o)
        return True if r is NotImplemented else r

    def __bool__(self):
        if self.e in SPECIAL:
            return True
        return decide('!=', self.e)

    def __float__(self):
        raise Unsupported('float() of a symbolic number')

    def __int__(self):
        raise Unsupported('int() of a symbolic number')

    def __complex__(self):
        raise Unsupported('complex()')

    def __repr__(self):
        return f'<{self.e}>'

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


def _conv(o):
    """Other operand -> (E, kind) ; kind 'mpf' | 'int' | 'float' or None"""
    if isinstance(o, SX):
        return o.e, 'mpf'
    if isinstance(o, SI):
        return o.e, 'int'
    if isinstance(o, bool):
        return c(int(o)), 'int'
    if isinstance(o, int):
        return c(o), 'int'
    if isinstance(o, float):
        if math.isinf(o):
            return (PINF if o > 0 else NINF), 'float'
        if math.isnan(o):
            return NAN, 'float'
        return c(Fraction(o)), 'float'
    if isinstance(o, Fraction):
        return c(o), 'frac'
    if isinstance(o, SBool):
        return c(int(bool(o))), 'int'
    if isinstance(o, complex):
        if o.imag == 0:
            return c(Fraction(o.real)), 'float'
        return CPLX, 'mpf'
    return None, None


def _bin_cmp(rel, a, o):
    e, k = _conv(o)
    if e is None:
        return NotImplemented
    return s_cmp(rel, a.e, e)


class SX(_Num):
    """symbolic (or constant) mpf"""
    __slots__ = ()

    def __new__(cls, v=0, **kw):
        if isinstance(v, E):
            o = object.__new__(cls)
            o.e = v
            return o
        e, k = _conv(v)
        if e is None:
            if isinstance(v, str):
                s = v.strip().lower()
                if s in ('inf', '+inf', 'infinity'):
                    e = PINF
                elif s in ('-inf', 'ninf'):
                    e = NINF
                elif s == 'nan':
                    e = NAN
                else:
                    e = c(Fraction(s))
            elif isinstance(v, tuple) and len(v) == 2:
                return SX(s_div(_conv(v[0])[0], _conv(v[1])[0]))
            else:
                raise TypeError(f'cannot create mpf from {v!r}')
        if e is CPLX:
            raise TypeError('cannot create mpf from complex')
        o = object.__new__(cls)
        o.e = e
        return o

    __hash__ = _Num.__hash__

    def __getnewargs__(self):
        return (self.e,)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        if self.e is CPLX:
            raise Unsupported('complex')
        return SX(ZERO)

    def conjugate(self):
        return self

    def _op(self, o, f, swap=False):
        e, k = _conv(o)
        if e is None:
            return NotImplemented
        return SX(f(e, self.e) if swap else f(self.e, e))

    def __add__(self, o):
        return self._op(o, s_add)

    def __radd__(self, o):
        return self._op(o, s_add, True)

    def __sub__(self, o):
        return self._op(o, lambda a, b: s_add(a, s_neg(b)))

    def __rsub__(self, o):
        return self._op(o, lambda a, b: s_add(a, s_neg(b)), True)

    def __mul__(self, o):
        return self._op(o, s_mul)

    def __rmul__(self, o):
        return self._op(o, s_mul, True)

    def __truediv__(self, o):
        return self._op(o, s_div)

    def __rtruediv__(self, o):
        return self._op(o, s_div, True)

    def __pow__(self, o, mod=None):
        return self._op(o, s_pow)

    def __rpow__(self, o):
        return self._op(o, s_pow, True)

    def __floordiv__(self, o):
        return self._op(o, lambda a, b: s_floor(s_div(a, b)))

    def __rfloordiv__(self, o):
        return self._op(o, lambda a, b: s_floor(s_div(a, b)), True)

    def __mod__(self, o):
        return self._op(o, lambda a, b: s_add(a, s_neg(s_mul(b, s_floor(s_div(a, b))))))

    def __rmod__(self, o):
        return self._op(o, lambda a, b: s_add(a, s_neg(s_mul(b, s_floor(s_div(a, b))))), True)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __neg__(self):
        return SX(s_neg(self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return SX(s_abs(self.e))

    def __round__(self, n=0):
        raise Unsupported('round')

    def __trunc__(self):
        return py_int(self)

    def __floor__(self):
        return SI(s_floor(self.e))

    def __ceil__(self):
        return SI(s_ceil(self.e))

    def __int__(self):
        if self.e.op == 'c':
            return int(self.e.args[0])
        raise Unsupported('int()')

    def __float__(self):
        if self.e.op == 'c':
            return float(self.e.args[0])
        raise Unsupported('float()')


class SFloat(SX):
    """exact Python float computed from sequence lengths: (a*n + b)/2^k, which is
    exact in double precision (lengths are below 2^50)"""
    __slots__ = ()

    def _fop(self, o, f, lin, swap=False):
        if isinstance(o, SX) and not isinstance(o, SFloat):
            return SX._op(self, o, f, swap)
        e, k = _conv(o)
        if e is None:
            return NotImplemented
        r = f(e, self.e) if swap else f(self.e, e)
        if lin(e) and exact_float(r):
            return SFloat(r)
        return fl_round(r)

    def __add__(self, o):
        return self._fop(o, s_add, exact_float)

    def __radd__(self, o):
        return self._fop(o, s_add, exact_float, True)

    def __sub__(self, o):
        return self._fop(o, lambda a, b: s_add(a, s_neg(b)), exact_float)

    def __rsub__(self, o):
        return self._fop(o, lambda a, b: s_add(a, s_neg(b)), exact_float, True)

    def __mul__(self, o):
        return self._fop(o, s_mul, _pow2)

    def __rmul__(self, o):
        return self._fop(o, s_mul, _pow2, True)

    def __truediv__(self, o):
        return self._fop(o, s_div, _pow2)

    def __rtruediv__(self, o):
        return self._fop(o, s_div, lambda e: False, True)

    def __pow__(self, o, mod=None):
        return self._fop(o, s_pow, lambda e: False)

    def __rpow__(self, o):
        return self._fop(o, s_pow, lambda e: False, True)

    def __neg__(self):
        return SFloat(s_neg(self.e))

    def __abs__(self):
        r = s_abs(self.e)
        return SFloat(r) if exact_float(r) else SX(r)


def _pow2(e):
    if e.op != 'c' or not e.args[0]:
        return False
    q = abs(e.args[0])
    return (q.numerator & (q.numerator - 1)) == 0 and (q.denominator & (q.denominator - 1)) == 0 \
        and 2**-20 <= q <= 2**20


def exact_float(e):
    """e = sum of (small dyadic constants) x (sequence lengths) + small dyadic constant"""
    if e in SPECIAL:
        return False
    try:
        p = CUR.path.ctx.poly(e)
    except Exception:
        return False
    for m, v in p.items():
        v = Fraction(v)
        if v.denominator & (v.denominator - 1) or v.denominator > 8 or abs(v) > 1000:
            return False
        if m and not (len(m) == 1 and m[0][1] == 1 and m[0][0].op == 's'
                      and (is_length(m[0][0]) or _small_int(m[0][0]))):
            return False
    return True


def is_length(s):
    return s.args[0] in LENGTHS


def _small_int(s):
    """an integer bounded so that its small dyadic multiples are doubles"""
    b = CUR.path.ctx.bounds.get(s)
    return s.args[1] == 'i' and b is not None and b[0] is not None and b[2] is not None \
        and max(abs(b[0]), abs(b[2])) <= 2**40


LENGTHS = set()         # names of the symbols for lengths of argument sequences


class SSign(SX):
    """sign(x) of a number whose sign is not known yet: comparisons with a
    constant are conditions on x; any other use forks on the sign"""
    __slots__ = ('_x', '_v')

    def __new__(cls, x):
        o = object.__new__(cls)
        o._x, o._v = x, None
        return o

    @property
    def e(self):
        if self._v is None:
            x = self._x
            self._v = ONE if decide('>', x) else ZERO if decide('==', x) else MONE
        return self._v

    def _cmp(self, rel, o):
        if self._v is None and isinstance(o, (int, SX, SI)) and not isinstance(o, bool):
            k = c(o) if isinstance(o, int) else o.e
            if k.op == 'c' and k.args[0] in (-1, 0, 1):
                k = int(k.args[0])
                ok = {v for v in (-1, 0, 1) if _cmp(rel, v - k)}
                r = {(): False, (-1,): '<', (0,): '==', (1,): '>', (-1, 0): '<=', (0, 1): '>=', (-1, 1): '!=',
                     (-1, 0, 1): True}[tuple(sorted(ok))]
                return r if isinstance(r, bool) else mkbool(r, self._x)
        return _bin_cmp(rel, self, o)

    def __eq__(self, o):
        r = self._cmp('==', o)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp('!=', o)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp('<', o)

    def __le__(self, o):
        return self._cmp('<=', o)

    def __gt__(self, o):
        return self._cmp('>', o)

    def __ge__(self, o):
        return self._cmp('>=', o)

    def __bool__(self):
        return bool(mkbool('!=', self._x))

    __hash__ = _Num.__hash__


class SI(_Num):
    """symbolic Python int"""
    __slots__ = ()

    def __new__(cls, e):
        if isinstance(e, E) and e.op == 'c' and e.args[0].denominator == 1:
            return int(e.args[0])
        o = object.__new__(cls)
        o.e = e
        return o

    __hash__ = _Num.__hash__

    def __index__(self):
        raise Unsupported('symbolic int used as an index')

    def _op(self, o, f, swap=False):
        if isinstance(o, SX):
            return NotImplemented
        e, k = _conv(o)
        if e is None:
            return NotImplemented
        r = f(e, self.e) if swap else f(self.e, e)
        if k == 'float':
            return fl_round(r)
        if k == 'frac':
            raise Unsupported('int op Fraction')
        return SI(r)

    def __add__(self, o):
        return self._op(o, T.add)

    def __radd__(self, o):
        return self._op(o, T.add, True)

    def __sub__(self, o):
        return self._op(o, T.sub)

    def __rsub__(self, o):
        return self._op(o, T.sub, True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            return SymSeq((ZERO, T.sub(self.e, ONE)), o[0]) if len(o) == 1 else NotImplemented
        return self._op(o, T.mul)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple)):
            if len(o) == 1:
                return SymSeq((ZERO, T.sub(self.e, ONE)), o[0])
            return NotImplemented
        return self._op(o, T.mul, True)

    def _tdiv(self, a, b):
        return fl_round(s_div(a, b))

    def __truediv__(self, o):
        if isinstance(o, SX):
            return NotImplemented
        e, k = _conv(o)
        if e is None:
            return NotImplemented
        return self._tdiv(self.e, e)

    def __rtruediv__(self, o):
        if isinstance(o, SX):
            return NotImplemented
        e, k = _conv(o)
        if e is None:
            return NotImplemented
        return self._tdiv(e, self.e)

    def __floordiv__(self, o):
        return self._op(o, lambda a, b: s_floor(s_div(a, b)))

    def __rfloordiv__(self, o):
        return self._op(o, lambda a, b: s_floor(s_div(a, b)), True)

    def __mod__(self, o):
        return self._op(o, lambda a, b: T.sub(a, T.mul(b, s_floor(s_div(a, b)))))

    def __divmod__(self, o):
        return self // o, self % o

    def __and__(self, o):
        if o == 1 and isinstance(o, int):
            return self % 2
        raise Unsupported('int &')

    def __pow__(self, o, mod=None):
        if isinstance(o, SX):
            return NotImplemented
        e, k = _conv(o)
        if e is None:
            return NotImplemented
        if k == 'float' or (e.op == 'c' and e.args[0] < 0):
            return fl_round(s_pow(self.e, e))
        if not (e.op == 'c') and not decide('>=', e):
            return fl_round(s_pow(self.e, e))
        r = s_pow(self.e, e)
        return SI(r)

    def __rpow__(self, o):
        if isinstance(o, SX):
            return NotImplemented
        e, k = _conv(o)
        if e is None:
            return NotImplemented
        if k == 'float':
            return fl_round(s_pow(e, self.e))
        if not decide('>=', self.e):
            return fl_round(s_pow(e, self.e))
        return SI(s_pow(e, self.e))

    def __neg__(self):
        return SI(T.neg(self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return SI(s_abs(self.e))


def det_key(v, depth=0):
    """a hashable key of a value: equal keys mean indistinguishable values (same
    numbers, or the same code closed over the same values), or None"""
    if depth > 6 or isinstance(v, SSign):
        return None
    if isinstance(v, (SX, SI)):
        e = v.e
        return ('F' if isinstance(v, SFloat) else 'I' if isinstance(v, SI) else 'X',
                str(e) if e in SPECIAL else T.key(CUR.path.ctx.canon(e)))
    if v is None or isinstance(v, (bool, int, float, str)):
        return (type(v).__name__, v)
    if isinstance(v, Fraction):
        return ('q', v)
    if isinstance(v, (list, tuple)):
        ks = tuple(det_key(t, depth + 1) for t in v)
        return None if None in ks else (type(v).__name__,) + ks
    if isinstance(v, types.FunctionType):
        try:
            cells = tuple(det_key(c_.cell_contents, depth + 1) for c_ in (v.__closure__ or ()))
        except ValueError:
            return None
        dfl = det_key(v.__defaults__ or (), depth + 1)
        if None in cells or dfl is None or v.__kwdefaults__:
            return None
        return ('fun', id(v.__code__), id(v.__globals__), cells, dfl)
    if isinstance(v, types.ModuleType):
        return ('mod', id(v))
    return None


def det_memo(key, make):
    """a deterministic computation: same arguments, same result"""
    if key is None:
        return make()
    memo = CUR.path.__dict__.setdefault('det_memo', {})
    if key in memo:
        ok, r = memo[key]
        if not ok:
            raise r
        return r
    try:
        r = make()
    except Exception as e:
        memo[key] = (False, e)
        raise
    memo[key] = (True, r)
    return r


def fl_round(e):
    """Result of Python double arithmetic: exact value plus an unknown
    rounding error.  (A fresh symbol: nothing can be proved about it.)"""
    if e in SPECIAL:
        return SX(e)
    if exact_float(e):
        return SFloat(e)
    d = CUR.path.fresh_sym('fl')
    CUR.path.events.append(('float-arith', e))
    return SX(T.add(e, d))


def s_abs(e):
    if e in SPECIAL:
        return PINF if e in (PINF, NINF) else e
    if e.op == 'c':
        return c(abs(e.args[0]))
    r = CUR.path.ctx.entails('>=', e)
    if r is True:
        return e
    r2 = CUR.path.ctx.entails('<=', e)
    if r2 is True:
        return T.neg(e)
    if any(b in T.free(e) for b in CUR.path.bound):
        return T.fn('abs', e)
    return e if decide('>=', e) else T.neg(e)


def s_floor(e):
    if e in SPECIAL:
        return e
    if e.op == 'c':
        return c(math.floor(e.args[0]))
    if int_sorted(e):
        return e
    v = _num_value(e)
    if v is not None:
        n = int(_numctx.floor(v))
        if 1e-20 < v - n < 1 - 1e-20:
            return c(n)
    return T.fn('floor', e)


def s_ceil(e):
    return s_neg(s_floor(s_neg(e)))


def py_int(x, *a):
    """builtin int()"""
    if a:
        return int(x, *a)
    if isinstance(x, SI):
        return x
    if isinstance(x, SX):
        if x.e is NAN:
            raise ValueError('cannot convert float NaN to integer')
        if x.e in (PINF, NINF):
            raise OverflowError('cannot convert float infinity to integer')
        if x.e is CPLX:
            raise TypeError("int() argument must be a string or a real number, not 'mpc'")
        if int_sorted(x.e):
            return SI(x.e)
        if x.e.op == 'c':
            return int(x.e.args[0])
        if decide('>=', x.e):
            return SI(s_floor(x.e))
        return SI(s_ceil(x.e))
    if isinstance(x, SBool):
        return int(bool(x))
    return int(x)


def py_float(x=0.0):
    if isinstance(x, (SX, SI)):
        return fl_round(x.e)
    return float(x)


# ------------------------------------------------------------- sequences

class SymSeq:
    """A sequence of symbolic length: elements elem(i) for i in lo..hi."""

    def __init__(self, fam, elem, concrete_list=True):
        self.fam = fam            # (lo E, hi E)
        self.elem = elem          # value in terms of the family's index symbol
        self.arg = False          # the caller's own object

    @property
    def n(self):
        return T.add(T.sub(self.fam[1], self.fam[0]), ONE)

    @property
    def idx(self):
        return fam_idx(self.fam)

    def __len__(self):
        raise Unsupported('len() of symbolic sequence')

    def __iter__(self):
        raise Unsupported('iteration over symbolic sequence')

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._slice(i)
        e, k = _conv(i)
        if e is None or k != 'int':
            raise Unsupported('index of symbolic sequence')
        if e.op == 'c' and e.args[0] < 0:
            pos = T.add(self.fam[1], ONE, e)
        else:
            pos = T.add(self.fam[0], e)
        return _subst_val(self.elem, {self.idx: pos})

    def _slice(self, sl):
        """s[a:b] with 0 <= a <= b <= len(s)"""
        if type(self) not in (SymSeq, SRange) or sl.step is not None:
            raise Unsupported('slice of symbolic sequence')
        ent = CUR.path.ctx.entails
        ends = []
        for t, dflt in ((sl.start, ZERO), (sl.stop, self.n)):
            if t is None:
                ends.append(dflt)
                continue
            e, k = _conv(t)
            if e is None or k != 'int':
                raise Unsupported('slice of symbolic sequence')
            ends.append(T.add(self.n, e) if e.op == 'c' and e.args[0] < 0 else e)
        a, b = ends
        if (sl.start is not None and ent('>=', a) is not True) or \
                (sl.stop is not None and ent('>=', T.sub(self.n, b)) is not True) or \
                ent('>=', T.sub(b, a)) is not True:
            raise Unsupported('slice of symbolic sequence')
        fam = (T.add(self.fam[0], a), self.fam[1] if sl.stop is None else T.sub(T.add(self.fam[0], b), ONE))
        if not nonempty(fam):
            return []
        in_family(fam, lambda: True)
        return SymSeq(fam, _subst_val(self.elem, {self.idx: fam_idx(fam)}))

    def __bool__(self):
        return decide('>', self.n)

    def __eq__(self, o):
        raise Unsupported('sequence ==')

    __hash__ = None

    def index(self, v):
        raise Unsupported('seq.index')

    def __contains__(self, v):
        e, k = _conv(self.elem)
        f, k2 = _conv(v)
        if e is None or f is None or e in SPECIAL or f in SPECIAL:
            raise Unsupported('seq contains')
        return seq_any(SymSeq(self.fam, in_family(self.fam, lambda: self.elem == v)))

    def __add__(self, o):
        if type(o) is list and not o:
            return seq_copy(self)
        if type(self) is SymSeq and type(o) is list and not CUR.path.bound:
            return TailSeq(seq_copy(self), list(o))
        raise Unsupported('seq +')

    # sums, lengths and comprehensions (the only uses of a TailSeq) do not depend on the order
    __radd__ = __add__

    def __mul__(self, o):
        raise Unsupported('seq *')

    def copy(self):
        return seq_copy(self)

    def append(self, v):
        if type(self) is not SymSeq or self.arg or CUR.path.bound:
            raise Unsupported('append to symbolic sequence')
        b = SymSeq(self.fam, self.elem)
        self.__class__ = TailSeq
        del self.__dict__['fam'], self.__dict__['elem']
        self.base, self.tail = b, [v]

    def sort(self, **kw):
        raise Unsupported('sort')


def seq_copy(s):
    if type(s) is not SymSeq:
        return s
    return SymSeq(s.fam, s.elem)


class TailSeq(SymSeq):
    """a sequence of symbolic length followed by finitely many elements; only
    sums, lengths and comprehensions are supported"""

    def __init__(self, base, tail):
        self.base, self.tail = base, tail

    def __getattr__(self, name):
        raise Unsupported(f'{name} of an extended symbolic sequence')

    @property
    def n(self):
        return T.add(self.base.n, c(len(self.tail)))

    def append(self, v):
        self.tail.append(v)

    def __bool__(self):
        return True

    def __getitem__(self, i):
        raise Unsupported('index of an extended symbolic sequence')


def _subst_val(v, m):
    if isinstance(v, SX):
        return SX(T.subst(v.e, m))
    if isinstance(v, SI):
        return SI(T.subst(v.e, m))
    if isinstance(v, SBool):
        return SBool(v.rel, T.subst(v.e, m))
    if isinstance(v, tuple):
        return tuple(_subst_val(t, m) for t in v)
    if isinstance(v, list):
        return [_subst_val(t, m) for t in v]
    return v


def fam_idx(fam, depth=0):
    return T.sym(f'i@[{T.key(fam[0])}..{T.key(fam[1])}]' + ("'" * depth), 'i')


def sym_seq(name, n, kind='mpf'):
    """the user's sequence `name` with n elements (E)"""
    fam = (ZERO, T.sub(n, ONE))
    i = fam_idx(fam)
    a = T.at(('i:' if kind == 'int' else '') + name, i)
    r = SymSeq(fam, SI(a) if kind == 'int' else SX(a))
    r.arg = True
    return r


def in_family(fam, body):
    """Execute body() with the family's generic index in scope."""
    p = CUR.path
    idx = fam_idx(fam)
    if idx in p.bound:
        raise Unsupported('nested iteration over the same family')
    if ('fam', fam) not in p.univ:
        p.univ.append(('fam', fam))
        p.assume('>=', T.sub(idx, fam[0]))
        if fam[1] is not PINF:
            p.assume('>=', T.sub(fam[1], idx))
    p.bound.append(idx)
    try:
        return cases(p, body)
    finally:
        p.bound.remove(idx)


def nonempty(fam):
    if fam[1] is PINF:
        return True
    return decide('>=', T.sub(fam[1], fam[0]))


def seq_comp(elt, it, conds=None):
    """[elt(t) for t in it if cond(t)]"""
    if isinstance(it, TailSeq):
        h, t = seq_comp(elt, it.base, conds), seq_comp(elt, it.tail, conds)
        return TailSeq(h, t) if isinstance(h, SymSeq) else h + t
    if isinstance(it, SymSeq):
        if not nonempty(it.fam):
            return []
        if conds is not None:
            def g():
                r = conds(it.elem)
                if isinstance(r, (SBool, SAnd, SOr)):
                    return _generic_truth(r)
                return r
            r = in_family(it.fam, g)
            if r is True:
                pass
            elif r is False:
                return []
            else:
                raise Unsupported('filtered comprehension over a symbolic sequence')
        v = in_family(it.fam, lambda: elt(it.elem))
        return SymSeq(it.fam, v)
    if conds is None:
        return [elt(t) for t in it]
    return [elt(t) for t in it if conds(t)]


def _generic_truth(b):
    """True / False if the condition holds for every / no element, else None"""
    ctx = CUR.path.ctx
    if isinstance(b, (bool, int)):
        return bool(b)
    if isinstance(b, SBool):
        if not T.free(b.e):
            return bool(b)
        return ctx.entails(b.rel, b.e)
    if isinstance(b, SAnd):
        rs = [_generic_truth(p) for p in b.parts]
        if all(r is True for r in rs):
            return True
        if any(r is False for r in rs):
            return False
        return None
    if isinstance(b, SOr):
        rs = [_generic_truth(p) for p in b.parts]
        if any(r is True for r in rs):
            return True
        if all(r is False for r in rs):
            return False
        return None
    raise Unsupported('condition')


def seq_any(seq, neg=False):
    """exists an element satisfying the condition"""
    b = seq.elem
    r = in_family(seq.fam, lambda: _generic_truth(b))
    p = CUR.path
    if r is False:
        return False
    if r is True:
        return bool(SBool('>', seq.n))
    if isinstance(b, SBool) and seq.idx not in T.free(b.e):
        return bool(b) and bool(SBool('>', seq.n))
    ch = p.choice(f'exists[{b.rel if isinstance(b, SBool) else "?"} '
                  f'{b.e if isinstance(b, SBool) else ""}]')
    if not ch:
        # no element satisfies it: universal fact
        for part in (b.parts if isinstance(b, SOr) else [b]):
            if isinstance(part, SBool):
                p.none_satisfies(seq.fam, seq.idx, part.rel, part.e)
    else:
        # a witness
        if isinstance(b, SBool):
            w = p.fresh_sym('w', 'i')
            p.assume('>=', T.sub(w, seq.fam[0]))
            p.assume('<=', T.sub(w, seq.fam[1]))
            p.assume(b.rel, T.subst(b.e, {seq.idx: w}))
    return ch


def seq_all(seq):
    b = seq.elem
    if isinstance(b, SBool):
        return not seq_any(SymSeq(seq.fam, b.neg()))
    if isinstance(b, SAnd):
        return not seq_any(SymSeq(seq.fam, SOr([q.neg() for q in b.parts])))
    if isinstance(b, bool):
        return b or not bool(SBool('>', seq.n))
    raise Unsupported('all()')


def seq_sum(seq, start=None):
    if isinstance(seq, TailSeq):
        r = seq_sum(seq.base)
        for t in seq.tail:
            r = r + t
        return r
    v = seq.elem
    lo, hi = seq.fam
    if isinstance(v, (SX, SI, int, float, Fraction, SBool)):
        if isinstance(v, SBool):
            raise Unsupported('sum of conditions')
        e, k = _conv(v)
        if e in SPECIAL:
            raise Unsupported('sum of infinities')
        empty = CUR.path.ctx.entails('>=', T.sub(hi, lo)) is not True
        if empty and not decide('>=', T.sub(hi, lo)):
            return SX(ZERO) if k != 'int' else 0
        s = T.ssum(lo, hi, seq.idx, unsort(seq, e))
        return SI(s) if k == 'int' else SX(s)
    raise Unsupported('sum')


def unsort(seq, e):
    """body of a sum over all elements of a sorted sequence -> over the source"""
    if not CUR.path.sorted:
        return e
    ats = [s for s in T.subterms(e) if s.op == 'at' and seq.idx in T.free(s)]
    names = {s.args[0] for s in ats}
    if len(names) != 1 or any(s.args[1] is not seq.idx for s in ats):
        return e
    src = CUR.path.sorted.get(names.pop())
    if src is None or src[1] != seq.fam:
        return e
    return T.subst(e, {ats[0]: src[0]})


def py_sum(it, start=0):
    if isinstance(it, SymSeq):
        r = seq_sum(it)
        return r if isinstance(start, int) and start == 0 else start + r
    it = list(it)
    return sum(it, start)


def py_len(x):
    if isinstance(x, SymSeq):
        return SI(x.n)
    return len(x)


def py_any(x):
    if isinstance(x, SymSeq):
        return seq_any(x)
    return any(x)


def py_all(x):
    if isinstance(x, SymSeq):
        return seq_all(x)
    return all(x)


def py_zip(*a, **kw):
    if any(isinstance(t, SymSeq) for t in a):
        syms = [t for t in a if isinstance(t, SymSeq)]
        n0 = syms[0].n
        out = []
        for t in a:
            if not isinstance(t, SymSeq):
                raise Unsupported('zip of symbolic and concrete sequences')
            d = T.sub(t.n, n0)
            if not CUR.path.ctx.prove_eq(t.n, n0):
                raise Unsupported('zip of sequences of different lengths')
            off = T.sub(t.fam[0], syms[0].fam[0])
            if t.fam == syms[0].fam:
                out.append(t.elem)
            else:
                out.append(_subst_val(t.elem, {t.idx: T.add(syms[0].idx, off)}))
        return SymSeq(syms[0].fam, tuple(out))
    return zip(*a, **kw)


def py_enumerate(x, start=0):
    if isinstance(x, SymSeq):
        e, _ = _conv(start)
        return SymSeq(x.fam, (SI(T.add(T.sub(x.idx, x.fam[0]), e)), x.elem))
    return enumerate(x, start)


class SRange(SymSeq):
    def __init__(self, lo, hi):
        fam = (lo, hi)
        super().__init__(fam, SI(fam_idx(fam)))

    @property
    def start(self):
        return SI(self.fam[0])

    @property
    def stop(self):
        return SI(T.add(self.fam[1], ONE))

    step = 1

    def __contains__(self, v):
        e, k = _conv(v)
        if e in SPECIAL:
            return False
        return bool(SBool('>=', T.sub(e, self.fam[0]))) and \
            bool(SBool('<=', T.sub(e, self.fam[1])))

    def __eq__(self, o):
        if isinstance(o, SRange):
            return CUR.path.ctx.prove_eq(self.fam[0], o.fam[0]) and \
                CUR.path.ctx.prove_eq(self.fam[1], o.fam[1])
        return NotImplemented

    __hash__ = None


def py_range(*a):
    if all(isinstance(t, int) for t in a):
        return range(*a)
    es = []
    for t in a:
        e, k = _conv(t)
        if k != 'int':
            raise TypeError("'mpf' object cannot be interpreted as an integer")
        es.append(e)
    if len(es) == 1:
        lo, hi = ZERO, T.sub(es[0], ONE)
    elif len(es) == 2:
        lo, hi = es[0], T.sub(es[1], ONE)
    else:
        if es[2].op == 'c' and es[2].args[0] == 1:
            lo, hi = es[0], T.sub(es[1], ONE)
        else:
            raise Unsupported('range with step')
    ctx = CUR.path.ctx
    lo2, hi2 = ctx.canon(lo), ctx.canon(hi)
    if lo2.op == 'c' and hi2.op == 'c':
        return range(int(lo2.args[0]), int(hi2.args[0]) + 1)
    return SRange(lo2, hi2)


def py_list(x=()):
    if isinstance(x, SymSeq):
        return seq_copy(x)
    return list(x)


def py_tuple(x=()):
    if isinstance(x, SymSeq):
        return x
    return tuple(x)


def py_map(f, *xs):
    if any(isinstance(t, SymSeq) for t in xs):
        if len(xs) == 1:
            return seq_comp(f, xs[0])
        return seq_comp(lambda t: f(*t), py_zip(*xs))
    return map(f, *xs)


class SMPC:
    """mp.mpc: complex values are not modelled"""

    def __new__(cls, *a, **k):
        raise Unsupported('mpc')


def py_isinstance(x, cls):
    if isinstance(cls, tuple):
        return any(py_isinstance(x, t) for t in cls)
    if cls is py_int:
        cls = int
    if cls is py_float:
        cls = float
    if isinstance(x, SI):
        return cls in (int, SI, object) or cls is _Num or \
            getattr(cls, '__name__', '') in ('Integral', 'Number', 'Real', 'Rational')
    if cls is py_list:
        return isinstance(x, (list, SymSeq))
    if cls is py_tuple:
        return isinstance(x, tuple)
    if cls is list and isinstance(x, SymSeq):
        return True
    if cls is SMPC:
        return isinstance(x, SX) and x.e is CPLX
    if not isinstance(cls, type):
        raise Unsupported(f'isinstance with {cls}')
    return isinstance(x, cls)


def py_abs(x):
    if isinstance(x, (SX, SI)):
        return x.__abs__()
    return abs(x)


def py_minmax(name):
    real = {'min': min, 'max': max}[name]

    def f(*a, **kw):
        if len(a) == 1 and isinstance(a[0], SymSeq):
            if kw:
                raise Unsupported(f'{name} with key')
            return seq_extreme(name, a[0])
        if len(a) == 1:
            a = list(a[0])
            if not a:
                if 'default' in kw:
                    return kw['default']
                raise ValueError(f'{name}() arg is an empty sequence')
        if kw:
            return real(a, **kw)
        if any(isinstance(t, (SX, SI)) for t in a):
            r = a[0]
            for t in a[1:]:
                if name == 'max':
                    if t > r:
                        r = t
                else:
                    if t < r:
                        r = t
            return r
        return real(*a)
    f.__name__ = name
    return f


py_min = py_minmax('min')
py_max = py_minmax('max')


def seq_extreme(name, seq):
    v = seq.elem
    e, k = _conv(v)
    if e is None or e in SPECIAL:
        raise Unsupported(name)
    p = CUR.path
    m = mk('seq' + name, seq.fam[0], seq.fam[1], seq.idx, p.ctx.canon(e))
    # bound for the generic element, and attained: facts for a witness
    s = T.sym(f'{name}<{T.key(m)}>')
    rel = '>=' if name == 'min' else '<='
    if len(set(T.subterms(m))) > 40:        # these facts would only slow the solver down
        return SI(s) if k == 'int' else SX(s)
    p.assume(rel, T.sub(e, s))
    w = p.fresh_sym('w' + name, 'i')
    p.assume('>=', T.sub(w, seq.fam[0]))
    p.assume('<=', T.sub(w, seq.fam[1]))
    p.assume('==', T.sub(s, T.subst(e, {seq.idx: w})))
    # facts about the generic element also hold at the witness
    for rel2, f in list(p.ctx.facts):
        if seq.idx in T.free(f):
            p.assume(rel2, T.subst(f, {seq.idx: w}))
    return SI(s) if k == 'int' else SX(s)


def py_sorted(x, **kw):
    if isinstance(x, SymSeq):
        if kw:
            raise Unsupported('sorted with options')
        return seq_sorted(x)
    return sorted(x, **kw)


class SortedSeq(SymSeq):
    """sorted(seq): every element is an element of seq (facts about the generic
    element carry over), neighbours are in order, and a sum over all elements
    is the sum over seq"""

    def __getitem__(self, i):
        r = SymSeq.__getitem__(self, i)
        self.facts(_conv(r)[0])
        return r

    def facts(self, e):
        p = CUR.path
        pos = e.args[1]
        idx, src = self.src.idx, _conv(self.src.elem)[0]
        q = T.at(self.name, idx)
        for rel, f in list(p.ctx.facts):
            if src.op == 'at' and src in set(T.subterms(f)) and \
                    not [s for s in T.subterms(f) if s.op == 'at' and s != src and idx in T.free(s)]:
                g = T.subst(f, {src: e})
                if idx not in T.free(g):
                    p.assume(rel, g)
        for o in self.seen:
            d = T.sub(o.args[1], pos)
            if p.ctx.entails('>=', d) is True:
                p.assume('>=', T.sub(o, e))
            elif p.ctx.entails('<=', d) is True:
                p.assume('<=', T.sub(o, e))
        self.seen.append(e)


def seq_sorted(x):
    e, k = _conv(x.elem)
    if e is None or e in SPECIAL:
        raise Unsupported('sorted')
    name = ('i:' if k == 'int' else '') + f'sorted({T.key(CUR.path.ctx.canon(e))})'
    a = T.at(name, x.idx)
    r = SortedSeq(x.fam, SI(a) if k == 'int' else SX(a))
    r.src, r.name, r.seen = x, name, []
    CUR.path.sorted[name] = (e, x.fam)
    return r


def py_round(x, *a):
    if isinstance(x, (SX, SI)):
        raise Unsupported('round')
    return round(x, *a)


def py_set(x=()):
    if isinstance(x, SymSeq):
        raise Unsupported('set')
    return set(x)


def op_index(x):
    import operator
    if isinstance(x, SI):
        return x
    return operator.index(x)


# ------------------------------------------------------------- loops

class LoopOut:
    """Summary of `for t in seq: body` for a symbolic sequence."""

    def __init__(self, it, before):
        self.it = it
        self.before = before
        self.havoc = {}
        p = CUR.path
        for k, v in before.items():
            if isinstance(v, (SX, int, float, Fraction, SI)) and not isinstance(v, bool):
                s = p.fresh_sym('acc_' + k, 'i' if isinstance(v, (int, SI)) else 'r')
                self.havoc[k] = SI(s) if isinstance(v, (int, SI)) else SX(s)
            elif isinstance(v, list):
                self.havoc[k] = ListAcc(v)
            else:
                self.havoc[k] = v
        idx = fam_idx(it.fam)
        if idx in p.bound:
            raise Unsupported('nested iteration over the same family')
        if not nonempty(it.fam):
            raise Unsupported('loop over an empty symbolic range')
        if ('fam', it.fam) not in p.univ:
            p.univ.append(('fam', it.fam))
            p.assume('>=', T.sub(idx, it.fam[0]))
            if it.fam[1] is not PINF:
                p.assume('>=', T.sub(it.fam[1], idx))
        p.bound.append(idx)
        for v in self.havoc.values():
            if isinstance(v, (SX, SI)) and v.e.op == 's':
                p.bound.append(v.e)
        self.elem = it.elem
        self.idx = idx
        self.abrupt = False
        p.loops.append(self)

    def close(self, after):
        p = CUR.path
        p.loops.remove(self)
        if self.abrupt:
            raise Unsupported('branch on the element of a loop')
        p.bound.remove(self.idx)
        for v in self.havoc.values():
            if isinstance(v, (SX, SI)) and v.e.op == 's':
                p.bound.remove(v.e)
        out = {}
        for k, v0 in self.before.items():
            h = self.havoc[k]
            v1 = after[k]
            if isinstance(h, ListAcc):
                if v1 is not h:
                    raise Unsupported('loop rebinds a list')
                if len(h.items) == 0:
                    out[k] = v0
                elif len(h.items) == 1 and not v0:
                    out[k] = SymSeq(self.it.fam, h.items[0])
                else:
                    raise Unsupported('loop list pattern')
                continue
            if v1 is h:
                out[k] = v0
                continue
            e1, k1 = _conv(v1)
            if e1 is None or not isinstance(h, (SX, SI)):
                raise Unsupported('loop-carried value')
            s = h.e
            # accumulator pattern: s + f(elem)
            d = T.sub(e1, s)
            ctx = p.ctx
            dc = ctx.canon(d)
            if s in T.free(dc):
                f = ctx.canon(T.mul(e1, T.pw(s, T.MONE)))
                if k1 != 'int' and s not in T.free(f) and ctx.entails('>', f) is True:
                    # s * f(elem) with f > 0
                    L = seq_comp(lambda t: SX(T.log(t.e)), SymSeq(self.it.fam, SX(f)))
                    out[k] = v0*(SX(T.exp(_conv(seq_sum(L))[0])) if isinstance(L, SymSeq) else 1)
                    continue
                raise Unsupported('loop recurrence')
            r = SymSeq(self.it.fam, SX(dc) if not (k1 == 'int') else SI(dc))
            out[k] = v0 + seq_sum(r)
        # values assigned in the body but not defined before the loop
        for k, v in after.items():
            if k not in out:
                out[k] = Poison(k)
        return out


class Poison:
    def __init__(self, n):
        self.n = n

    def _bad(self, *a, **k):
        raise Unsupported(f'value of {self.n} after symbolic loop')
    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = _bad
    __truediv__ = __lt__ = __gt__ = __le__ = __ge__ = __call__ = _bad
    __bool__ = __iter__ = __getitem__ = _bad


class ListAcc(list):
    def __init__(self, base):
        super().__init__()
        self.items = []

    def append(self, v):
        self.items.append(v)

    def __iter__(self):
        raise Unsupported('list accumulator read in loop')

    def __len__(self):
        raise Unsupported('list accumulator read in loop')

    def __getitem__(self, i):
        raise Unsupported('list accumulator read in loop')


class PathEnd(BaseException):
    """the path ended at the back edge of a loop whose invariants were checked"""


class Loops:
    """loop invariants: candidates not yet refuted (Houdini)"""
    dropped = {}       # key -> texts of the candidates that are not invariant
    used = {}
    changed = False
    rule_for = False

    @classmethod
    def reset(cls, rule_for=False):
        cls.dropped = {}
        cls.used = {}
        cls.changed = False
        cls.rule_for = rule_for


class WLoop:
    def __init__(self, key, get, test, cands):
        self.key, self.get, self.test, self.cands = key, get, test, cands
        self.state = None
        self.count = 0

    def symbolic(self):
        if self.test is None:
            return True
        t = self.test()
        if isinstance(t, bool):
            return False
        if isinstance(t, SBool):
            return CUR.path.ctx.entails(t.rel, t.e) is not False
        if isinstance(t, (SAnd, SOr, SX, SI)):
            return True
        return False

    def head(self):
        if self.state == 'havoc':
            self.check()
            raise PathEnd()
        if not self.symbolic():
            self.count += 1
            if self.count > 300:
                raise Unsupported('loop unrolled too often')
            return None
        if self.state is None:
            # the first iteration is executed as it is
            self.state = 'peeled'
            return None
        if self.test is not None and not bool(self.test()):
            return None
        return self.enter()

    def enter(self):
        self.old = {}
        for k, g in self.get.items():
            try:
                self.old[k] = g()
            except NameError:
                pass
        self.entry_candidates()
        self.check()
        self.state = 'havoc'
        p = CUR.path
        out = {}
        for k, g in self.get.items():
            try:
                v = g()
            except NameError:
                continue
            if isinstance(v, bool) or not isinstance(v, (SX, SI, int, float, Fraction)):
                raise Unsupported(f'loop changes {k}, which is not a number')
            out[k] = SX(p.fresh_sym('loop_' + k))
        return out

    def entry_candidates(self):
        """comparisons with the values at loop entry"""
        for k in self.old:
            for u in self.old:
                for op, f in (('<=', operator.le), ('>=', operator.ge)):
                    self.cands.append((f'{k} {op} old({u})',
                                       (lambda f=f, k=k, u=u: f(self.get[k](), self.old[u])), False))

    def holds(self, th, neg):
        try:
            v = th()
        except (Infeasible, PathEnd):
            raise
        except BaseException as e:
            if isinstance(e, Unsupported) and 'time budget' in str(e):
                raise
            return None
        if neg:
            v = (not v) if isinstance(v, bool) else v.neg() if isinstance(v, SBool) else None
        return v

    def check(self):
        bad = Loops.dropped.setdefault(self.key, set())
        for txt, th, neg in self.cands:
            if txt in bad:
                continue
            v = self.holds(th, neg)
            r = v if isinstance(v, bool) else CUR.path.ctx.entails(v.rel, v.e) if isinstance(v, SBool) else None
            if r is not True:
                bad.add(txt)
                Loops.changed = True

    def assume(self):
        bad = Loops.dropped.get(self.key, ())
        inv = []
        for txt, th, neg in self.cands:
            if txt in bad:
                continue
            v = self.holds(th, neg)
            if isinstance(v, SBool):
                CUR.path.assume(v.rel, v.e)
                inv.append(txt)
            elif v is False:
                raise Infeasible()
        Loops.used[self.key] = inv
        if CUR.path.ctx.feasible() is False:
            raise Infeasible()


class FLoop(WLoop):
    def __init__(self, key, get, it, cands):
        super().__init__(key, get, None, cands)
        self.it = it
        self.active = Loops.rule_for and isinstance(it, range) and len(it) > 2

    def head(self):
        return self.enter() if self.active else None

    def __iter__(self):
        if not self.active:
            yield from self.it
            return
        p = CUR.path
        if p.choice('loop: one more iteration'):
            k = p.fresh_sym('k', 'i')
            p.assume('>=', T.sub(k, c(self.it[0])))
            p.assume('<=', T.sub(k, c(self.it[-1])))
            yield SI(k)
            self.check()
            raise PathEnd()


class SXHelpers:
    """injected as __sx__ in the executed modules"""
    comp = staticmethod(seq_comp)

    wloop = WLoop
    floop = FLoop

    @staticmethod
    def is_sym(it):
        return isinstance(it, SymSeq)

    loop = LoopOut

    @staticmethod
    def OR(*fs):
        parts = []
        for f in fs:
            v = f()
            if isinstance(v, (SBool, SAnd, SOr)) and CUR.path is not None and CUR.path.bound:
                parts.append(v)
                continue
            if parts:
                if v is True:
                    return True
                if v is False:
                    continue
                parts.append(v)
                continue
            if v:
                return v
            last = v
        if parts:
            return parts[0] if len(parts) == 1 else SOr(parts)
        return last

    @staticmethod
    def AND(*fs):
        parts = []
        last = True
        for f in fs:
            v = f()
            if isinstance(v, (SBool, SAnd, SOr)) and CUR.path is not None and CUR.path.bound:
                parts.append(v)
                continue
            if parts:
                if v is False:
                    return False
                if v is True:
                    continue
                parts.append(v)
                continue
            if not v:
                return v
            last = v
        if parts:
            return parts[0] if len(parts) == 1 else SAnd(parts)
        return last


# ------------------------------------------------------------- exploration

class Outcome:
    def __init__(self, kind, value, path):
        self.kind = kind          # 'ret' | 'exc' | 'unsupported'
        self.value = value
        self.path = path

    @property
    def ctx(self):
        return self.path.ctx


def explore(thunk, facts=(), max_paths=200, deadline=None):
    """Run thunk on every feasible path.  Yields Outcome objects."""
    import time
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        n += 1
        if n > max_paths:
            p = Path([], list(facts))
            yield Outcome('unsupported', 'path limit', p)
            return
        if deadline and time.time() > deadline:
            p = Path([], list(facts))
            yield Outcome('unsupported', 'time limit', p)
            return
        p = Path(prefix, list(facts))
        old = CUR.path
        CUR.path = p
        try:
            try:
                v = thunk()
                out = Outcome('ret', v, p)
            except Unsupported as e:
                out = Outcome('unsupported', str(e), p)
            except (Infeasible, PathEnd):
                out = None
            except RecursionError:
                out = Outcome('unsupported', 'recursion', p)
            except Exception as e:
                out = Outcome('exc', e, p)
            stack.extend(p.alts)
            if out is not None:
                feas = p.ctx.feasible()
                if feas:
                    yield out
        finally:
            CUR.path = old
