"""The symbolic stand-in for the mpmath context `mp` (assumed contracts of
mpmath on exact extended reals)."""
from fractions import Fraction
import types
from . import terms as T, sx
from .terms import E, mk, c, ZERO, ONE, MONE, HALF, TWO, PI
from .sx import (SMPC, TailSeq, SX, SI, SSign, SBool, SymSeq, Unsupported, SolverFailure, Infeasible,
                 CUR, decide, _conv,
                 s_add, s_neg, s_mul, s_div, s_pow, s_abs, s_floor, s_ceil, s_cmp,
                 PINF, NINF, NAN, CPLX, SPECIAL, int_sorted, in_family, seq_sum,
                 fam_idx, seq_comp, nonempty)


def toE(x):
    e, k = _conv(x)
    if e is None:
        if isinstance(x, str):
            return SX(x).e
        raise TypeError(f'cannot create mpf from {x!r}')
    return e


def bad(*es):
    if any(e is CPLX for e in es):
        return CPLX
    if any(e is NAN for e in es):
        return NAN
    return None


def unary(f):
    def g(self, x, **kw):
        e = toE(x)
        b = bad(e)
        if b is not None:
            return SX(b)
        return SX(f(e))
    return g


def l_exp(e):
    if e is PINF:
        return PINF
    if e is NINF:
        return ZERO
    return T.exp(e)


def l_log(e):
    if e is PINF:
        return PINF
    if e is NINF:
        return CPLX
    if decide('>', e):
        return T.log(e)
    if decide('==', e):
        return NINF
    return CPLX


def l_sqrt(e):
    if e is PINF:
        return PINF
    if e is NINF:
        return CPLX
    if decide('>=', e):
        return T.sqrt(e)
    return CPLX


def l_gamma(e):
    if e is PINF:
        return PINF
    if e is NINF:
        return NAN
    if decide('>', e):
        return T.fn('gamma', e)
    if int_sorted(e) or decide('==', e):
        raise ValueError('gamma function pole')
    if decide('==', T.sub(e, s_floor(e))):
        raise ValueError('gamma function pole')
    return T.fn('gamma', e)


def l_loggamma(e):
    if e is PINF:
        return PINF
    if e is NINF:
        return CPLX
    if decide('>', e):
        return T.log(T.fn('gamma', e))
    if decide('==', e):
        raise ValueError('gamma function pole')
    return CPLX


def l_psi(n, e):
    if e is PINF:
        return PINF if n == 0 else ZERO
    if e is NINF:
        return NAN
    if decide('==', e):
        raise ValueError('polygamma pole')
    return T.fn('psi', c(n), e)


def l_erf(e):
    if e is PINF:
        return ONE
    if e is NINF:
        return MONE
    return T.fn('erf', e)


def l_erfinv(e):
    if e in (PINF, NINF):
        raise ValueError('erfinv(x) is defined only for -1 <= x <= 1')
    if decide('==', e):
        return ZERO
    if decide('>', e):
        if decide('<', T.sub(e, ONE)):
            return T.fn('erfinv', e)
        if decide('==', T.sub(e, ONE)):
            return PINF
    else:
        if decide('>', T.add(e, ONE)):
            return T.fn('erfinv', e)
        if decide('==', T.add(e, ONE)):
            return NINF
    raise ValueError('erfinv(x) is defined only for -1 <= x <= 1')


def l_beta(a, b):
    if decide('>', a) and decide('>', b):
        return T.div(T.mul(T.fn('gamma', a), T.fn('gamma', b)), T.fn('gamma', T.add(a, b)))
    if decide('==', a) or decide('==', b):
        return PINF
    return T.div(T.mul(T.fn('gamma', a), T.fn('gamma', b)), T.fn('gamma', T.add(a, b)))


def l_P(z, x):
    """regularised lower incomplete gamma at 0 <= x <= inf"""
    if x is PINF:
        return ONE
    if x is NINF:
        return CPLX
    if decide('==', x):
        return ZERO
    if decide('>', x):
        return T.fn('P', z, x)
    return CPLX


def l_I(x, a, b):
    if x is PINF or x is NINF:
        raise Unsupported('betainc at infinity')
    if decide('<', x) or decide('>', T.sub(x, ONE)):
        # the analytic continuation (if real)
        return T.fn('Ix', x, a, b)
    if decide('==', x):
        return ZERO
    if decide('==', T.sub(x, ONE)):
        return ONE
    return T.fn('I', x, a, b)


class PrecCtx:
    """mp.extradps(...), mp.workprec(...): decorator and context manager with
    the contract 'restores the precision on every exit'."""

    def __call__(self, f):
        import functools

        @functools.wraps(f)
        def g(*a, **k):
            return f(*a, **k)
        g.__wrapped_prec__ = True
        return g

    def __enter__(self):
        return None

    def __exit__(self, *a):
        return False


class SMatrix:
    """small dense matrix"""

    def __init__(self, rows, cols=None):
        if isinstance(rows, int) and not isinstance(rows, bool):
            cols = rows if cols is None else cols
            self.a = [[SX(ZERO) for _ in range(cols)] for _ in range(rows)]
        elif isinstance(rows, SMatrix):
            self.a = [list(r) for r in rows.a]
        else:
            if isinstance(rows, (SI, SymSeq)):
                raise Unsupported('matrix of symbolic size')
            rows = list(rows)
            if rows and isinstance(rows[0], (list, tuple)):
                self.a = [[SX(v) for v in r] for r in rows]
            else:
                self.a = [[SX(v)] for v in rows]

    @property
    def rows(self):
        return len(self.a)

    @property
    def cols(self):
        return len(self.a[0]) if self.a else 0

    def __len__(self):
        if self.cols == 1:
            return self.rows
        if self.rows == 1:
            return self.cols
        return self.rows

    def __iter__(self):
        for r in self.a:
            for v in r:
                yield v

    def __getitem__(self, k):
        if isinstance(k, tuple):
            i, j = k
            if isinstance(i, slice) or isinstance(j, slice):
                ri = range(self.rows)[i] if isinstance(i, slice) else [i]
                rj = range(self.cols)[j] if isinstance(j, slice) else [j]
                return SMatrix([[self.a[x][y] for y in rj] for x in ri])
            return self.a[i][j]
        if self.cols == 1:
            return self.a[k][0]
        if self.rows == 1:
            return self.a[0][k]
        raise IndexError('insufficient indices for matrix')

    def __setitem__(self, k, v):
        if isinstance(k, tuple):
            self.a[k[0]][k[1]] = SX(v)
        elif self.cols == 1:
            self.a[k][0] = SX(v)
        elif self.rows == 1:
            self.a[0][k] = SX(v)
        else:
            raise IndexError('insufficient indices for matrix')

    @property
    def T(self):
        return SMatrix([[self.a[i][j] for i in range(self.rows)]
                        for j in range(self.cols)])

    transpose = T

    def tolist(self):
        return [list(r) for r in self.a]

    def _map2(self, o, f):
        if isinstance(o, SMatrix):
            if (o.rows, o.cols) != (self.rows, self.cols):
                raise ValueError('incompatible dimensions')
            return SMatrix([[f(x, y) for x, y in zip(r, s)] for r, s in zip(self.a, o.a)])
        return SMatrix([[f(x, o) for x in r] for r in self.a])

    def __add__(self, o):
        return self._map2(o, lambda x, y: x + y)

    __radd__ = __add__

    def __sub__(self, o):
        return self._map2(o, lambda x, y: x - y)

    def __neg__(self):
        return SMatrix([[-x for x in r] for r in self.a])

    def __mul__(self, o):
        if isinstance(o, SMatrix):
            if self.cols != o.rows:
                raise ValueError('dimensions not compatible for multiplication')
            return SMatrix([[sum((self.a[i][k] * o.a[k][j] for k in range(self.cols)), SX(ZERO))
                             for j in range(o.cols)] for i in range(self.rows)])
        return self._map2(o, lambda x, y: x * y)

    __matmul__ = __mul__

    def __rmul__(self, o):
        return self._map2(o, lambda x, y: y * x)

    def __truediv__(self, o):
        return self._map2(o, lambda x, y: x / y)

    def det(self):
        if self.rows != self.cols:
            raise ValueError('need n*n matrix')
        return _det(self.a)

    def inverse(self):
        n = self.rows
        d = self.det()
        if n == 1:
            return SMatrix([[1 / self.a[0][0]]])
        out = SMatrix(n, n)
        for i in range(n):
            for j in range(n):
                m = [[self.a[x][y] for y in range(n) if y != i]
                     for x in range(n) if x != j]
                v = _det(m)
                out.a[i][j] = (v if (i + j) % 2 == 0 else -v) / d
        return out

    def __pow__(self, n):
        if n == -1:
            return self.inverse()
        raise Unsupported('matrix power')

    def copy(self):
        return SMatrix(self)


def _det(a):
    n = len(a)
    if n == 1:
        return a[0][0]
    r = SX(ZERO)
    for j in range(n):
        m = [row[:j] + row[j+1:] for row in a[1:]]
        t = a[0][j] * _det(m)
        r = r + t if j % 2 == 0 else r - t
    return r


class SMP:
    mpf = SX

    def __init__(self):
        self.zero = SX(ZERO)
        self.one = SX(ONE)
        self.inf = SX(PINF)
        self.ninf = SX(NINF)
        self.nan = SX(NAN)
        self.pi = SX(PI)
        self.e = SX(T.exp(ONE))
        self.euler = SX(T.EULER)
        self.catalan = SX(mk('k', 'catalan'))
        self.apery = SX(mk('k', 'apery'))
        self.ln2 = SX(T.log(TWO))
        self.ln10 = SX(T.log(c(10)))
        self.prec = 53
        self.dps = 15
        self.matrix = SMatrix

    @property
    def eps(self):
        s = T.sym('eps')
        p = CUR.path
        if p is not None and 'eps' not in p.univ:
            p.univ.append('eps')
            p.assume('>', s)
            p.assume('<', T.sub(s, c(Fraction(1, 1000))))
        return SX(s)

    # ---- precision management
    def extradps(self, *a, **k):
        return PrecCtx()

    extraprec = workprec = workdps = extradps

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        import mpmath
        if hasattr(mpmath.mp, name):
            raise Unsupported(f'mp.{name}')
        raise AttributeError(f"'MPContext' object has no attribute '{name}'")

    def mpmathify(self, x, **k):
        if isinstance(x, SX):
            return x
        return SX(x)

    convert = mpmathify

    mpc = SMPC

    exp = unary(l_exp)
    sqrt = unary(l_sqrt)
    gamma = unary(l_gamma)
    loggamma = unary(l_loggamma)
    erf = unary(l_erf)
    erfinv = unary(l_erfinv)
    erfc = unary(lambda e: s_add(ONE, s_neg(l_erf(e))))
    fabs = unary(s_abs)
    floor = unary(s_floor)
    ceil = unary(s_ceil)
    nint = unary(lambda e: s_floor(s_add(e, HALF)))
    frac = unary(lambda e: s_add(e, s_neg(s_floor(e))))
    expm1 = unary(lambda e: s_add(l_exp(e), MONE))
    log1p = unary(lambda e: l_log(s_add(ONE, e)))

    def log(self, x, b=None):
        r = unary(l_log)(self, x)
        if b is not None:
            return r / self.log(b)
        return r

    ln = log

    def log2(self, x):
        return self.log(x, 2)

    def log10(self, x):
        return self.log(x, 10)

    def sign(self, x):
        e = toE(x)
        b = bad(e)
        if b is not None:
            return SX(b)
        if e is PINF:
            return SX(ONE)
        if e is NINF:
            return SX(MONE)
        if e.op == 'c':
            return SX((e.args[0] > 0) - (e.args[0] < 0))
        ctx = CUR.path.ctx
        for rel, v in (('>', ONE), ('<', MONE), ('==', ZERO)):
            if ctx.entails(rel, e) is True:
                return SX(v)
        return SSign(e)

    def power(self, x, y):
        return SX(s_pow(toE(x), toE(y)))

    def powm1(self, x, y):
        return SX(s_add(s_pow(toE(x), toE(y)), MONE))

    @unary
    def cbrt(e):
        return s_pow(e, c(Fraction(1, 3)))

    def root(self, x, n):
        return SX(s_pow(toE(x), s_div(ONE, toE(n))))

    def square(self, x):
        return SX(toE(x)) ** 2

    def hypot(self, x, y):
        return self.sqrt(SX(toE(x)) ** 2 + SX(toE(y)) ** 2)

    # hyperbolic
    @unary
    def sinh(e):
        if e in SPECIAL:
            return e
        return T.mul(HALF, T.sub(T.exp(e), T.exp(T.neg(e))))

    @unary
    def cosh(e):
        if e in SPECIAL:
            return PINF
        return T.mul(HALF, T.add(T.exp(e), T.exp(T.neg(e))))

    @unary
    def tanh(e):
        if e is PINF:
            return ONE
        if e is NINF:
            return MONE
        return T.div(T.sub(T.exp(e), T.exp(T.neg(e))), T.add(T.exp(e), T.exp(T.neg(e))))

    @unary
    def coth(e):
        if e is PINF:
            return ONE
        if e is NINF:
            return MONE
        return s_div(T.add(T.exp(e), T.exp(T.neg(e))), T.sub(T.exp(e), T.exp(T.neg(e))))

    @unary
    def sech(e):
        if e in SPECIAL:
            return ZERO
        return T.div(TWO, T.add(T.exp(e), T.exp(T.neg(e))))

    @unary
    def csch(e):
        if e in SPECIAL:
            return ZERO
        return s_div(TWO, T.sub(T.exp(e), T.exp(T.neg(e))))

    @unary
    def sigmoid(e):
        if e is PINF:
            return ONE
        if e is NINF:
            return ZERO
        return T.div(ONE, T.add(ONE, T.exp(T.neg(e))))

    @unary
    def atanh(e):
        return s_mul(HALF, s_add(l_log(s_add(ONE, e)), s_neg(l_log(s_add(ONE, s_neg(e))))))

    @unary
    def asinh(e):
        if e in SPECIAL:
            return e
        return T.log(T.add(e, T.sqrt(T.add(T.pw(e, TWO), ONE))))

    # trigonometric
    @unary
    def sin(e):
        if e in SPECIAL:
            return NAN
        return T.fn('sin', e)

    @unary
    def cos(e):
        if e in SPECIAL:
            return NAN
        return T.fn('cos', e)

    @unary
    def tan(e):
        if e in SPECIAL:
            return NAN
        return T.fn('tan', e)

    @unary
    def cot(e):
        if e in SPECIAL:
            return NAN
        if decide('==', e):
            raise ZeroDivisionError
        return T.div(T.fn('cos', e), T.fn('sin', e))

    @unary
    def sec(e):
        return T.pw(T.fn('cos', e), MONE)

    @unary
    def csc(e):
        return T.pw(T.fn('sin', e), MONE)

    @unary
    def atan(e):
        if e is PINF:
            return T.mul(HALF, PI)
        if e is NINF:
            return T.mul(c(Fraction(-1, 2)), PI)
        return T.fn('atan', e)

    def atan2(self, y, x):
        ye, xe = toE(y), toE(x)
        if bad(ye, xe):
            return SX(bad(ye, xe))
        if xe in (PINF, NINF) and ye not in SPECIAL:
            if xe is PINF:
                return SX(ZERO)
            return SX(PI if decide('>=', ye) else T.neg(PI))
        if ye in SPECIAL or xe in SPECIAL:
            raise Unsupported('atan2 at infinity')
        if decide('>', xe):
            return SX(T.fn('atan', T.div(ye, xe)))
        if decide('==', xe):
            if decide('>', ye):
                return SX(T.mul(HALF, PI))
            if decide('==', ye):
                return SX(ZERO)
            return SX(T.mul(c(Fraction(-1, 2)), PI))
        r = T.fn('atan', T.div(ye, xe))
        if decide('>=', ye):
            return SX(T.add(r, PI))
        return SX(T.sub(r, PI))

    @unary
    def asin(e):
        return T.fn('asin', e)

    @unary
    def acos(e):
        return T.sub(T.mul(HALF, PI), T.fn('asin', e))

    @unary
    def sinpi(e):
        return T.fn('sin', T.mul(PI, e))

    @unary
    def cospi(e):
        return T.fn('cos', T.mul(PI, e))

    @unary
    def sincpi(e):
        if e in SPECIAL:
            return ZERO
        if decide('==', e):
            return ONE
        return T.div(T.fn('sin', T.mul(PI, e)), T.mul(PI, e))

    @unary
    def sinc(e):
        if e in SPECIAL:
            return ZERO
        if decide('==', e):
            return ONE
        return T.div(T.fn('sin', e), e)

    # gamma family
    def digamma(self, x):
        return self.psi(0, x)

    def psi(self, m, x):
        if not isinstance(m, int):
            m = toE(m)
            if m.op != 'c':
                raise Unsupported('psi of symbolic order')
            m = int(m.args[0])
        e = toE(x)
        if bad(e):
            return SX(bad(e))
        return SX(l_psi(m, e))

    polygamma = psi

    def harmonic(self, x):
        return self.psi(0, SX(toE(x)) + 1) + self.euler

    def rgamma(self, x):
        e = toE(x)
        if e in SPECIAL:
            return SX({PINF: ZERO}.get(e, NAN))
        if decide('>', e):
            return SX(T.pw(T.fn('gamma', e), MONE))
        if decide('==', e):
            return SX(ZERO)
        return SX(T.pw(T.fn('gamma', e), MONE))

    def factorial(self, x):
        return self.gamma(SX(toE(x)) + 1)

    fac = factorial

    def beta(self, a, b):
        ea, eb = toE(a), toE(b)
        if bad(ea, eb):
            return SX(bad(ea, eb))
        if ea in SPECIAL or eb in SPECIAL:
            raise Unsupported('beta at infinity')
        return SX(l_beta(ea, eb))

    def binomial(self, n, k):
        en, ek = toE(n), toE(k)
        if en in SPECIAL or ek in SPECIAL:
            raise Unsupported('binomial at infinity')
        return SX(l_binomial(en, ek))

    def gammaprod(self, a, b):
        r = SX(ONE)
        for t in a:
            r = r * self.gamma(t)
        for t in b:
            r = r / self.gamma(t)
        return r

    def rf(self, x, n):
        return self.gamma(SX(toE(x)) + n) / self.gamma(x)

    def ff(self, x, n):
        x = SX(toE(x))
        return self.gamma(x + 1) / self.gamma(x - n + 1)

    def zeta(self, s, *a):
        if a:
            raise Unsupported('hurwitz zeta')
        return SX(T.fn('zeta', toE(s)))

    def altzeta(self, s):
        # alternating zeta function: (1 - 2**(1 - s))*zeta(s), log 2 at s = 1
        e = toE(s)
        if e == T.ONE:
            return self.log(2)
        if e.op != 'c':
            raise Unsupported('altzeta at a symbolic argument')
        return (1 - self.power(2, 1 - SX(e)))*self.zeta(SX(e))

    def bernoulli(self, n):
        return SX(T.fn('bernoulli', toE(n)))

    def ncdf(self, x, mu=0, sigma=1):
        a = (SX(toE(x)) - mu) / sigma
        e = a.e
        if e in SPECIAL:
            return SX({PINF: ONE, NINF: ZERO}.get(e, e))
        return SX(T.mul(HALF, T.add(ONE, T.fn('erf', T.div(e, T.sqrt(TWO))))))

    def npdf(self, x, mu=0, sigma=1):
        sigma = SX(toE(sigma))
        a = (SX(toE(x)) - mu) / sigma
        e = a.e
        if e in SPECIAL:
            return SX({PINF: ZERO, NINF: ZERO}.get(e, e))
        return SX(T.div(T.exp(T.mul(c(Fraction(-1, 2)), T.pw(e, TWO))),
                        T.sqrt(T.mul(TWO, PI)))) / sigma

    def gammainc(self, z, a=0, b=None, regularized=False):
        z, a = toE(z), toE(a)
        b = PINF if b is None else toE(b)
        if bad(z, a, b):
            return SX(bad(z, a, b))
        if z in SPECIAL:
            raise Unsupported('gammainc order inf')
        if not decide('>', z):
            raise Unsupported('gammainc of nonpositive order')
        hi = l_P(z, b)
        lo = l_P(z, a)
        r = s_add(hi, s_neg(lo))
        if not regularized:
            r = s_mul(r, T.fn('gamma', z))
        return SX(r)

    def betainc(self, a, b, x1=0, x2=1, regularized=False):
        a, b, x1, x2 = toE(a), toE(b), toE(x1), toE(x2)
        if bad(a, b, x1, x2):
            return SX(bad(a, b, x1, x2))
        if a in SPECIAL or b in SPECIAL:
            raise Unsupported('betainc')
        if not regularized and b is ZERO and x1 is ZERO and decide('>', a) and decide('>=', x2) \
                and decide('<', T.sub(x2, ONE)):
            return SX(T.fn('B0', x2, a))       # integral of t^(a-1)/(1-t) from 0 to x2
        if not (decide('>', a) and decide('>', b)):
            raise Unsupported('betainc of nonpositive parameter')
        r = s_add(l_I(x2, a, b), s_neg(l_I(x1, a, b)))
        if not regularized:
            r = s_mul(r, l_beta(a, b))
        return SX(r)

    def _opaque(name, n):
        def g(self, *a, **kw):
            if kw:
                if kw.get('derivative'):
                    raise Unsupported(name)
            es = [toE(t) for t in a]
            if bad(*es):
                return SX(bad(*es))
            if any(e in SPECIAL for e in es):
                raise Unsupported(f'{name} at infinity')
            return SX(T.fn(name, *es))
        return g

    besselj = _opaque('besselj', 2)
    bessely = _opaque('bessely', 2)
    hyp2f1 = _opaque('hyp2f1', 4)
    hyp1f1 = _opaque('hyp1f1', 3)
    hyp0f1 = _opaque('hyp0f1', 2)
    hyp3f2 = _opaque('hyp3f2', 6)
    _legendre = _opaque('legendre', 2)
    _hermite = _opaque('hermite', 2)

    def legendre(self, n, x):
        k = small_int(n)
        if k is None:
            return self._legendre(n, x)
        p, q = SX(ONE), SX(toE(x))
        for j in range(1, k):
            p, q = q, ((2*j + 1)*SX(toE(x))*q - j*p)/(j + 1)
        return q if k else p

    def hermite(self, n, x):
        k = small_int(n)
        if k is None:
            return self._hermite(n, x)
        p, q = SX(ONE), 2*SX(toE(x))
        for j in range(1, k):
            p, q = q, 2*SX(toE(x))*q - 2*j*p
        return q if k else p

    laguerre = _opaque('laguerre', 3)
    hyperu = _opaque('hyperu', 3)

    def besselk(self, n, x):
        n, x = toE(n), toE(x)
        if bad(n, x):
            return SX(bad(n, x))
        if x is PINF:
            return SX(ZERO)
        if x in SPECIAL or n in SPECIAL:
            raise Unsupported('besselk')
        if decide('==', x):
            return SX(PINF)
        if decide('>', x):
            return SX(T.fn('besselk', n, x))
        return SX(CPLX)

    def besseli(self, n, x):
        n, x = toE(n), toE(x)
        if bad(n, x):
            return SX(bad(n, x))
        if x in SPECIAL or n in SPECIAL:
            raise Unsupported('besseli')
        if decide('==', x):
            if decide('==', n):
                return SX(ONE)
            return SX(ZERO)
        return SX(T.fn('besseli', n, x))

    def hyper(self, a, b, z, **kw):
        return SX(T.fn(f'hyper{len(a)},{len(b)}', *[toE(t) for t in a],
                       *[toE(t) for t in b], toE(z)))

    def e1(self, x):
        return self.expint(1, x)

    def expint(self, n, x):
        n, x = toE(n), toE(x)
        if bad(n, x):
            return SX(bad(n, x))
        if x is PINF:
            return SX(ZERO)
        if x in SPECIAL or n in SPECIAL:
            raise Unsupported('expint')
        if decide('>', x):
            return SX(T.fn('expint', n, x))
        if decide('==', x):
            if decide('>', T.sub(n, ONE)):
                return SX(T.div(ONE, T.sub(n, ONE)))
            return SX(PINF)
        return SX(CPLX)

    def lambertw(self, z, k=0):
        z = toE(z)
        if bad(z):
            return SX(bad(z))
        if z is PINF and k == 0:
            return SX(PINF)
        if z in SPECIAL:
            return SX(CPLX)
        m1e = T.add(z, T.exp(MONE))
        if above_m1e(z):
            CUR.path.assume('>=', m1e)
        if k == 0:
            if decide('>=', m1e):
                return SX(T.fn('lambertw', ZERO, z))
            return SX(CPLX)
        if k == -1:
            if decide('>=', m1e) and decide('<', z):
                return SX(T.fn('lambertw', MONE, z))
            return SX(CPLX)
        return SX(CPLX)

    # sums
    def fsum(self, terms, absolute=False, squared=False):
        if isinstance(terms, SymSeq):
            if isinstance(terms, TailSeq) and (squared or absolute):
                raise Unsupported('fsum options')
            if squared:
                terms = seq_comp(lambda t: t * t, terms)
            elif absolute:
                terms = seq_comp(lambda t: abs(t), terms)
            if isinstance(terms, SymSeq):
                r = seq_sum(terms)
                return SX(toE(r))
        r = SX(ZERO)
        for t in terms:
            t = SX(toE(t))
            if squared:
                t = t * t
            elif absolute:
                t = abs(t)
            r = r + t
        return r

    def fprod(self, factors):
        if isinstance(factors, SymSeq):
            # prod f = exp(sum log f), valid for positive factors
            def g(t):
                e = toE(t)
                if CUR.path.ctx.entails('>', e) is not True:
                    raise Unsupported('product of non-positive generic factors')
                return SX(T.log(e))
            lt = seq_comp(g, factors)
            return self.exp(seq_sum(lt)) if isinstance(lt, SymSeq) else SX(ONE)
        r = SX(ONE)
        for t in factors:
            r = r * SX(toE(t))
        return r

    def fdot(self, a, b=None, **k):
        if isinstance(a, SymSeq) or isinstance(b, SymSeq):
            from .sx import py_zip
            z = py_zip(a, b) if b is not None else a
            return self.fsum(seq_comp(lambda t: t[0] * t[1], z))
        z = zip(a, b) if b is not None else a
        return self.fsum([SX(toE(x)) * y for x, y in z])

    def fadd(self, x, y, **k):
        return SX(toE(x)) + y

    def fsub(self, x, y, **k):
        return SX(toE(x)) - y

    def fmul(self, x, y, **k):
        return SX(toE(x)) * y

    def fdiv(self, x, y, **k):
        return SX(toE(x)) / y

    def fneg(self, x, **k):
        return -SX(toE(x))

    def polyval(self, coeffs, x, derivative=False, asc=None):
        if derivative:
            raise Unsupported('polyval with derivative')
        r = SX(ZERO)
        x = SX(toE(x))
        for t in (list(coeffs)[::-1] if asc else coeffs):
            r = r * x + t
        return r

    # predicates
    def isinf(self, x):
        return toE(x) in (PINF, NINF)

    def isnan(self, x):
        return toE(x) is NAN

    def isfinite(self, x):
        return toE(x) not in SPECIAL

    def isnormal(self, x):
        e = toE(x)
        if e in SPECIAL:
            return False
        return decide('!=', e)

    def isint(self, x, gaussian=False):
        e = toE(x)
        if e in SPECIAL:
            return False
        if int_sorted(e):
            return True
        return decide('==', T.sub(e, s_floor(e)))

    def almosteq(self, a, b, rel_eps=None, abs_eps=None):
        """contract on exact reals: equality up to the tolerances that are not
        multiples of mp.eps (those are rounding allowances, zero here)"""
        if rel_eps is None and abs_eps is None:
            rel_eps = abs_eps = 0
        rel_eps = abs_eps if rel_eps is None else rel_eps
        abs_eps = rel_eps if abs_eps is None else abs_eps
        if bool(s_cmp('==', toE(a), toE(b))):
            return True
        d = abs(SX(toE(a)) - SX(toE(b)))
        for tol, ref in ((abs_eps, None), (rel_eps, (a, b))):
            e = toE(tol)
            if e == T.ZERO or any(t.op == 's' and t.args[0] == 'eps' for t in T.subterms(e)):
                continue
            if ref is None:
                if d <= SX(e):
                    return True
            elif d <= SX(e)*abs(SX(toE(a))) or d <= SX(e)*abs(SX(toE(b))):
                return True
        return False

    def absmax(self, x):
        return abs(SX(toE(x)))

    absmin = absmax

    def nstr(self, x, *a, **k):
        return str(x)

    # numerical procedures (assumed contracts)
    def findroot(self, f, x0, solver=None, tol=None, verbose=False, verify=True, **kw):
        p = CUR.path

        def solve():
            if p.choice('findroot: no convergence'):
                raise SolverFailure('Could not find root within given tolerance.')
            return do_findroot(self, f, x0, solver)
        k = sx.det_key((f, x0, solver, tol, verify, tuple(sorted(kw.items()))))
        return sx.det_memo(None if k is None else ('findroot', k), solve)

    def quad(self, f, *intervals, **kw):
        if len(intervals) != 1:
            raise Unsupported('multidimensional quad')
        pts = [toE(t) for t in intervals[0]]
        r = ZERO
        for a, b in zip(pts[:-1], pts[1:]):
            r = s_add(r, quad1(f, a, b))
        return SX(r)

    def nsum(self, f, *intervals, **kw):
        if len(intervals) != 1:
            raise Unsupported('multidimensional nsum')
        a, b = [toE(t) for t in intervals[0]]
        if a in SPECIAL:
            raise Unsupported('nsum from -inf')
        fam = (CUR.path.ctx.canon(a), b if b is PINF else CUR.path.ctx.canon(b))
        if not nonempty(fam):
            return SX(ZERO)
        idx = fam_idx(fam)
        v = in_family(fam, lambda: f(SX(idx)))
        e = toE(v)
        if e in SPECIAL:
            raise Unsupported('nsum of special values')
        return SX(T.ssum(fam[0], fam[1], idx, e))

    def diff(self, f, x, n=1, **kw):
        if isinstance(x, (tuple, list)):
            raise Unsupported('partial diff')
        xe = toE(x)
        if xe in SPECIAL:
            raise Unsupported('diff at infinity')
        p = CUR.path
        t = p.fresh_sym('d')
        p.assume('==', T.sub(t, xe))
        p.events.append(('difflink', t, xe))
        v = toE(f(SX(t)))
        if v in SPECIAL:
            raise Unsupported('diff of special')
        try:
            for _ in range(n):
                v = T.diff(v, t)
        except T.NoDerivative as e:
            raise Unsupported(f'derivative of {e}')
        return SX(T.subst(v, {t: xe}))

    def det(self, A):
        return (A if isinstance(A, SMatrix) else SMatrix(A)).det()

    def inverse(self, A):
        return (A if isinstance(A, SMatrix) else SMatrix(A)).inverse()

    def lu_solve(self, A, b):
        A = A if isinstance(A, SMatrix) else SMatrix(A)
        b = b if isinstance(b, SMatrix) else SMatrix(b)
        return A.inverse() * b


def above_m1e(z):
    """z >= -1/e, from z = -A*exp(-B) with B >= A (t*exp(-t) <= 1/e)"""
    ctx = CUR.path.ctx
    z = ctx.canon(z)
    fs = list(z.args) if z.op == '*' else [z]
    ex = [f for f in fs if f.op == 'exp']
    if len(ex) != 1:
        return False
    a = T.neg(T.div(z, ex[0]))
    return ctx.entails('>=', T.sub(T.neg(ex[0].args[0]), a)) is True


def small_int(n):
    """n as int if it is a constant degree 0..16"""
    e = toE(n)
    if e in SPECIAL:
        return None
    e = CUR.path.ctx.canon(e)
    if e.op == 'c' and e.args[0].denominator == 1 and 0 <= e.args[0] <= 16:
        return int(e.args[0])
    return None


def l_binomial(n, k):
    if int_sorted(n) and int_sorted(k):
        if decide('<', k):
            return ZERO
        if decide('>=', n):
            if decide('>', T.sub(k, n)):
                return ZERO
    g = lambda t: T.fn('gamma', t)
    return T.div(g(T.add(n, ONE)), T.mul(g(T.add(k, ONE)), g(T.add(T.sub(n, k), ONE))))


def quad1(f, a, b):
    p = CUR.path
    if a not in SPECIAL and b not in SPECIAL:
        ctx = p.ctx
        if ctx.entails('==', T.sub(a, b)) is True:
            return ZERO
    ca = a if a in SPECIAL else p.ctx.canon(a)
    cb = b if b in SPECIAL else p.ctx.canon(b)
    t = T.sym(f't@[{T.key(ca)}..{T.key(cb)}]')
    if t in p.bound:
        raise Unsupported('nested quad over the same interval')
    if ('int', ca, cb) not in p.univ:
        p.univ.append(('int', ca, cb))
        # orientation
        if ca not in SPECIAL and cb not in SPECIAL:
            s = p.ctx.entails('>', T.sub(cb, ca))
            if s is None:
                s = decide('>', T.sub(cb, ca))
            if s:
                p.assume('>', T.sub(t, ca))
                p.assume('<', T.sub(t, cb))
            else:
                p.assume('<', T.sub(t, ca))
                p.assume('>', T.sub(t, cb))
        else:
            if ca not in SPECIAL:
                p.assume('>' if cb is PINF else '<', T.sub(t, ca))
            if cb not in SPECIAL:
                p.assume('<' if ca is NINF else '>', T.sub(t, cb))
    p.bound.append(t)
    try:
        v = toE(f(SX(t)))
    finally:
        p.bound.remove(t)
    if v in SPECIAL:
        raise Unsupported('quad of special')
    return T.integral(ca, cb, t, v)


def do_findroot(self, f, x0, solver):
    try:
        return _findroot(self, f, x0, solver)
    except (ArithmeticError, ValueError, TypeError) as e:
        if isinstance(e, SolverFailure) or 'complex' not in str(e) and isinstance(e, TypeError):
            raise
        # f was evaluated at the root
        raise Infeasible()


def _rootsym(p, k, n):
    r = p.fresh_sym('root')
    s = getattr(p, 'rootdom', {}).get(n)
    if s and s[k]:
        p.assume('>', r)
    if s and s[k] == '01':
        p.assume('<', T.sub(r, ONE))
    return SX(r)


def _findroot(self, f, x0, solver):
    p = CUR.path
    if isinstance(f, (list, tuple)):
        fs = list(f)

        def F(*a):
            return [g(*a) for g in fs]
        n = len(fs)
        n = len(list(x0))
        xs = [_rootsym(p, k, n) for k in range(n)]
        vals = F(*xs)
        for v in vals:
            _zero(v)
        return SMatrix(xs)
    bracket = None
    if isinstance(x0, (list, tuple)):
        x0 = list(x0)
        if solver in ('bisect', 'illinois', 'pegasus', 'anderson', 'ridder'):
            bracket = x0
            n = 1
        else:
            # either several starting points of a 1-d solver or a vector
            n = len(x0)
            import inspect
            try:
                sig = inspect.signature(f)
                npar = len([q for q in sig.parameters.values()
                            if q.kind in (q.POSITIONAL_ONLY, q.POSITIONAL_OR_KEYWORD)
                            and q.default is q.empty])
                var = any(q.kind == q.VAR_POSITIONAL for q in sig.parameters.values())
            except (TypeError, ValueError):
                npar, var = n, False
            if npar == 1 and not var:
                n = 1
    elif isinstance(x0, SMatrix):
        n = len(list(x0))
    else:
        n = 1
    if n == 1:
        r = _rootsym(p, 0, 1)
        if bracket is not None:
            a, b = toE(bracket[0]), toE(bracket[1])
            if a not in SPECIAL and b not in SPECIAL:
                p.assume('>=', T.sub(r.e, a))
                p.assume('<=', T.sub(r.e, b))
        _zero(f(r))
        return r
    xs = [_rootsym(p, k, n) for k in range(n)]
    v = f(*xs)
    if isinstance(v, (list, tuple, SMatrix)):
        for t in v:
            _zero(t)
    else:
        _zero(v)
    return SMatrix(xs)


def _zero(v):
    e = toE(v)
    if e in SPECIAL:
        raise Infeasible()
    if e.op == 'c' and e.args[0] != 0:
        raise Infeasible()
    CUR.path.assume('==', e)
    if CUR.path.ctx.feasible() is False:
        raise Infeasible()
    injective(e)


def pos_(ctx, t):
    return ctx.entails('>', t) is True


def injective(e):
    """f(u) - f(v) == 0 with f strictly monotone on an interval that contains u
    and v: u == v"""
    ctx = CUR.path.ctx
    p = ctx.poly(e)
    for m, v in p.items():
        # log(A) + rest == 0: A = exp(-rest), solved for a symbol that occurs in A only
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'log' and abs(v) == 1:
            A = m[0][0].args[0]
            rest = ctx.to_E({k: q for k, q in p.items() if k != m})
            ss = [t for t in T.free(A) if t.op == 's' and t not in T.free(rest) and t not in CUR.path.bound]
            if len(ss) == 1 and pos_(ctx, A):
                from .norm import solve_linear
                s = solve_linear(ctx.canon(A))
                if s is not None and s[0] is ss[0]:
                    CUR.path.assume('==', T.sub(A, T.exp(rest if v < 0 else T.neg(rest))))
                    return
    if len(p) != 2:
        return
    (m1, c1), (m2, c2) = p.items()
    if c1 + c2 != 0 or len(m1) != 1 or len(m2) != 1 or m1[0][1] != m2[0][1]:
        return
    a, b = m1[0][0], m2[0][0]
    if a.op != b.op:
        return
    pos = lambda t: ctx.entails('>', t) is True
    if a.op == 'psi':
        if a.args[0] is b.args[0] and pos(a.args[1]) and pos(b.args[1]):
            CUR.path.assume('==', T.sub(a.args[1], b.args[1]))
    elif a.op == 'I':
        # strictly increasing on [0, 1]
        if a.args[1:] == b.args[1:]:
            CUR.path.assume('==', T.sub(a.args[0], b.args[0]))
    elif a.op == 'P':
        # P(z, x) strictly increasing in x > 0
        if a.args[0] is b.args[0] and pos(a.args[1]) and pos(b.args[1]):
            CUR.path.assume('==', T.sub(a.args[1], b.args[1]))
    elif a.op in ('erf', 'atan'):
        CUR.path.assume('==', T.sub(a.args[0], b.args[0]))


def make_module(mp):
    m = types.ModuleType('mpmath')
    m.mp = mp
    m.__version__ = real_version()
    m.mpf = SX
    m.matrix = SMatrix
    for name in ('findroot', 'quad', 'nsum', 'diff', 'fsum', 'fprod', 'binomial',
                 'gamma', 'log', 'exp', 'sqrt', 'almosteq', 'power', 'beta', 'pi',
                 'inf', 'nan', 'e', 'euler', 'mpc', 'sin', 'cos', 'erf', 'erfc',
                 'extradps', 'workdps', 'workprec', 'extraprec', 'mpmathify', 'besselj', 'bessely', 'besseli',
                 'besselk', 'loggamma', 'psi', 'digamma', 'factorial', 'expm1', 'log1p', 'gammainc', 'betainc',
                 'isinf', 'isnan', 'isfinite', 'floor', 'ceil', 'sign', 'hyp2f1', 'hyp1f1', 'hyp0f1', 'zeta',
                 'erfinv', 'ncdf', 'npdf', 'legendre', 'hermite', 'lambertw', 'inverse', 'det', 'tan', 'atan',
                 'cosh', 'sinh', 'tanh', 'convert', 'mpi', 'rf', 'ff', 'rgamma', 'powm1', 'cbrt', 'polyval'):
        try:
            setattr(m, name, getattr(mp, name))
        except BaseException:
            pass
    return m


def real_version():
    """version of the mpmath that the repository runs with"""
    import glob
    for p in glob.glob('/opt/venv/lib/python3*/site-packages/mpmath-*.dist-info'):
        return p.rsplit('mpmath-', 1)[1].split('.dist-info')[0]
    return '1.4.1'
