"""Rewrite rules for special functions (the axioms about mpmath's functions
that the verifier trusts; listed in DESIGN.md)."""
from fractions import Fraction
from . import terms as T
from .terms import E, mk, c, key, free, ZERO, ONE, PI
from .norm import (fnrule, patom, pconst, padd, pscale, is_const, cval, F1, F0,
                   FH, UNIT, mono_key)


def lead_neg(p):
    m = min(p, key=mono_key)
    return p[m] < 0


def parity(ctx, e, odd, special=None):
    p = ctx.ratcanon(ctx.poly(e.args[0]))
    if not p and odd:
        return {}
    if is_const(p) and special:
        r = special(cval(p))
        if r is not None:
            return r
    if p and lead_neg(p):
        r = patom(mk(e.op, ctx.to_E(pscale(p, Fraction(-1)))))
        return pscale(r, Fraction(-1)) if odd else r
    return patom(mk(e.op, ctx.to_E(p)))


def _pi_mult(p):
    """p == q*pi -> q"""
    if not p:
        return F0
    if len(p) == 1:
        (m, v), = p.items()
        if len(m) == 1 and m[0][0] is PI and m[0][1] == 1:
            return v
    return None


def _trig_shift(ctx, p):
    """remove multiples of pi: returns (poly, n) with original = poly + n*pi"""
    pm = ((PI, F1),)
    v = p.get(pm, F0)
    n = v.numerator // v.denominator
    if n:
        p = padd(p, {pm: Fraction(-n)})
    return p, n


@fnrule('sin')
def _sin(ctx, e):
    p = ctx.ratcanon(ctx.poly(e.args[0]))
    sgn = 1
    if p and lead_neg(p):
        p = pscale(p, Fraction(-1))
        sgn = -1
    p, n = _trig_shift(ctx, p)
    if n % 2:
        sgn = -sgn
    q = _pi_mult(p)
    if q is not None:
        t = {F0: pconst(0), FH: pconst(1), Fraction(1, 6): pconst(FH),
             Fraction(5, 6): pconst(FH)}.get(q)
        if t is not None:
            return pscale(t, Fraction(sgn))
    pm = ((PI, F1),)
    if p.get(pm) == FH:
        return pscale(_cos(ctx, mk('cos', ctx.to_E(padd(p, {pm: -FH})))), Fraction(sgn))
    # sin(atan u) = u / sqrt(1+u^2)
    if len(p) == 1:
        (m, v), = p.items()
        if v == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'atan':
            u = m[0][0].args[0]
            return pscale(ctx.poly(T.div(u, T.sqrt(T.add(ONE, T.pw(u, T.TWO))))),
                          Fraction(sgn))
    if p and lead_neg(p):
        p = pscale(p, Fraction(-1))
        sgn = -sgn
    return pscale(patom(mk('sin', ctx.to_E(p))), Fraction(sgn))


@fnrule('cos')
def _cos(ctx, e):
    p = ctx.ratcanon(ctx.poly(e.args[0]))
    sgn = 1
    if p and lead_neg(p):
        p = pscale(p, Fraction(-1))
    p, n = _trig_shift(ctx, p)
    if n % 2:
        sgn = -sgn
    q = _pi_mult(p)
    if q is not None:
        t = {F0: pconst(1), FH: pconst(0), Fraction(1, 3): pconst(FH),
             Fraction(2, 3): pconst(-FH)}.get(q)
        if t is not None:
            return pscale(t, Fraction(sgn))
    pm = ((PI, F1),)
    if p.get(pm) == FH:
        # cos(u + pi/2) = -sin(u)
        return pscale(_sin(ctx, mk('sin', ctx.to_E(padd(p, {pm: -FH})))), Fraction(-sgn))
    if len(p) == 1:
        (m, v), = p.items()
        if abs(v) == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'atan':
            u = m[0][0].args[0]
            return pscale(ctx.poly(T.pw(T.add(ONE, T.pw(u, T.TWO)),
                                        c(-FH))), Fraction(sgn))
    if p and lead_neg(p):
        p = pscale(p, Fraction(-1))
    return pscale(patom(mk('cos', ctx.to_E(p))), Fraction(sgn))


@fnrule('tan')
def _tan(ctx, e):
    p = ctx.ratcanon(ctx.poly(e.args[0]))
    if len(p) == 1:
        (m, v), = p.items()
        if abs(v) == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'atan':
            return pscale(ctx.poly(m[0][0].args[0]), v)
    a = ctx.to_E(p)
    return ctx.poly(T.div(mk('sin', a), mk('cos', a)))


@fnrule('atan')
def _atan(ctx, e):
    def special(v):
        if v == 1:
            return {((PI, F1),): Fraction(1, 4)}
        if v == -1:
            return {((PI, F1),): Fraction(-1, 4)}
    a = e.args[0]
    # atan(tan u) = u for |u| < pi/2
    if a.op == 'tan':
        u = a.args[0]
        if ctx.entails('>', T.sub(T.mul(T.HALF, PI), u)) and \
                ctx.entails('>', T.add(T.mul(T.HALF, PI), u)):
            return ctx.poly(u)
    p = ctx.ratcanon(ctx.poly(a))
    # sin(u)/cos(u)
    if len(p) == 1:
        (m, v), = p.items()
        if len(m) == 2 and abs(v) == 1:
            d = {at.op: (at, ex) for at, ex in m}
            if 'sin' in d and 'cos' in d and d['sin'][1] == 1 and d['cos'][1] == -1 \
                    and d['sin'][0].args[0] is d['cos'][0].args[0]:
                u = d['sin'][0].args[0]
                if ctx.entails('>', T.sub(T.mul(T.HALF, PI), u)) and \
                        ctx.entails('>', T.add(T.mul(T.HALF, PI), u)):
                    return pscale(ctx.poly(u), v)
            if 'sin' in d and 'cos' in d and d['sin'][1] == -1 and d['cos'][1] == 1 \
                    and d['sin'][0].args[0] is d['cos'][0].args[0]:
                # cot(u) = tan(pi/2 - u)
                u = T.sub(T.mul(T.HALF, PI), d['sin'][0].args[0])
                if ctx.entails('>', T.sub(T.mul(T.HALF, PI), u)) and \
                        ctx.entails('>', T.add(T.mul(T.HALF, PI), u)):
                    return pscale(ctx.poly(u), v)
        # atan(1/u) : canonical with monomial inverse
        if len(m) >= 1 and ctx.sign_poly(p) in ('+', '-') and \
                (all(ex < 0 for _, ex in m) or any(t.op == '+' and ex < 0 for t, ex in m) or
                 len(m) == 1 and m[0][0].op == 'exp' and m[0][1] == 1 and lead_neg(ctx.poly(m[0][0].args[0]))):
            s = ctx.sign_poly(p)
            inv = ctx.ppow(p, Fraction(-1))
            base = {((PI, F1),): FH if s == '+' else -FH}
            return padd(base, pscale(_atan(ctx, mk('atan', ctx.to_E(inv))), Fraction(-1)))
    return parity(ctx, e, True, special)


@fnrule('asin')
def _asin(ctx, e):
    return parity(ctx, e, True)


@fnrule('erf')
def _erf(ctx, e):
    p = ctx.ratcanon(ctx.poly(e.args[0]))
    if len(p) == 1:
        (m, v), = p.items()
        if abs(v) == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'erfinv':
            return pscale(ctx.poly(m[0][0].args[0]), v)
    return parity(ctx, e, True)


@fnrule('erfinv')
def _erfinv(ctx, e):
    p = ctx.ratcanon(ctx.poly(e.args[0]))
    if len(p) == 1:
        (m, v), = p.items()
        if abs(v) == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'erf':
            return pscale(ctx.poly(m[0][0].args[0]), v)
    return parity(ctx, e, True)


@fnrule('abs')
def _abs(ctx, e):
    p = ctx.ratcanon(ctx.poly(e.args[0]))
    if is_const(p):
        return pconst(abs(cval(p)))
    s = ctx.sign_poly(p)
    if s in ('+', '+0', '0'):
        return p
    if s in ('-', '-0'):
        return pscale(p, Fraction(-1))
    if len(p) == 1:
        (m, v), = p.items()
        r = pconst(abs(v))
        for a, ex in m:
            sa = ctx.sign_atom(a)
            if sa in ('+', '+0') or ex.denominator != 1 or ex % 2 == 0:
                r = ctx.pmul(r, {((a, ex),): F1})
            else:
                r = ctx.pmul(r, {((mk('abs', a), ex),): F1})
        return r
    if lead_neg(p):
        p = pscale(p, Fraction(-1))
    return patom(mk('abs', ctx.to_E(p)))


@fnrule('sign')
def _sign(ctx, e):
    p = ctx.ratcanon(ctx.poly(e.args[0]))
    s = ctx.sign_poly(p)
    if s == '+':
        return pconst(1)
    if s == '-':
        return pconst(-1)
    if s == '0':
        return {}
    if lead_neg(p):
        return pscale(patom(mk('sign', ctx.to_E(pscale(p, Fraction(-1))))), Fraction(-1))
    return patom(mk('sign', ctx.to_E(p)))


@fnrule('floor')
def _floor(ctx, e):
    import math
    p = ctx.ratcanon(ctx.poly(e.args[0]))
    ip = {}
    rest = {}
    for m, v in p.items():
        if m == UNIT:
            n = math.floor(v)
            ip = padd(ip, pconst(n))
            if v - n:
                rest = padd(rest, pconst(v - n))
        elif ctx.is_intsort({m: v}):
            ip[m] = v
        else:
            rest[m] = v
    if not rest or (is_const(rest)):
        return ip
    return padd(ip, patom(mk('floor', ctx.to_E(rest))))


# ---------------------------------------------------------------- gamma family

def shift_arg(ctx, p):
    """p = arg of gamma-like function.  Returns (q, n): p = q + n with q's
    constant part in [0,1) (raised while q cannot be proved positive but p can)."""
    v = p.get(UNIT, F0)
    n = v.numerator // v.denominator
    if is_const(p):
        # constant: bring into (0, 1]
        n = -((-v.numerator) // v.denominator) - 1
        return padd(p, pconst(-n)), n
    if n == 0:
        return p, 0
    if abs(n) > 12:
        return p, 0
    q = padd(p, pconst(-n))
    if n > 0 and ctx.sign_poly(p) == '+':
        k = 0
        while k < n and ctx.sign_poly(padd(q, pconst(k))) != '+':
            k += 1
        return padd(q, pconst(k)), n - k
    return q, n


@fnrule('gamma')
def _gamma(ctx, e):
    p = ctx.ratcanon(ctx.poly(e.args[0]))
    if is_const(p):
        v = cval(p)
        if v.denominator == 1 and v <= 0:
            return patom(mk('gamma', c(v)))
    q, n = shift_arg(ctx, p)
    if is_const(q):
        v = cval(q)
        if v == 1:
            r = pconst(1)
        elif v == FH:
            r = {((PI, FH),): F1}
        else:
            r = patom(mk('gamma', c(v)))
    else:
        r = patom(mk('gamma', ctx.to_E(q)))
    if n > 0:
        for i in range(n):
            r = ctx.pmul(r, padd(q, pconst(i)))
    elif n < 0:
        for i in range(1, -n + 1):
            r = ctx.pmul(r, ctx.ppow(padd(q, pconst(-i)), Fraction(-1)))
    return r


@fnrule('psi')
def _psi(ctx, e):
    pm = ctx.poly(e.args[0])
    p = ctx.ratcanon(ctx.poly(e.args[1]))
    if not is_const(pm):
        return patom(mk('psi', ctx.to_E(pm), ctx.to_E(p)))
    m = int(cval(pm))
    q, n = shift_arg(ctx, p)
    if is_const(q):
        v = cval(q)
        if m == 0 and v == 1:
            r = pscale(patom(T.EULER), Fraction(-1))
        elif m == 0 and v == FH:
            r = padd(pscale(patom(T.EULER), Fraction(-1)),
                     pscale(patom(mk('log', c(2))), Fraction(-2)))
        elif m == 1 and v == 1:
            r = {((PI, Fraction(2)),): Fraction(1, 6)}
        elif m == 1 and v == FH:
            r = {((PI, Fraction(2)),): FH}
        elif m == 2 and v == 1:
            r = pscale(patom(mk('k', 'apery')), Fraction(-2))
        elif m == 2 and v == FH:
            r = pscale(patom(mk('k', 'apery')), Fraction(-14))
        elif m == 3 and v == 1:
            r = {((PI, Fraction(4)),): Fraction(1, 15)}
        elif m == 3 and v == FH:
            r = {((PI, Fraction(4)),): F1}
        else:
            r = patom(mk('psi', c(m), c(v)))
    else:
        r = patom(mk('psi', c(m), ctx.to_E(q)))
    # psi_m(z+1) = psi_m(z) + (-1)^m m! / z^(m+1)
    fact = 1
    for i in range(2, m + 1):
        fact *= i
    coef = Fraction((-1) ** m * fact)
    for i in range(max(n, 0)):
        r = padd(r, pscale(ctx.ppow(padd(q, pconst(i)), Fraction(-(m + 1))), coef))
    for i in range(1, max(-n, 0) + 1):
        r = padd(r, pscale(ctx.ppow(padd(q, pconst(-i)), Fraction(-(m + 1))), -coef))
    return r


@fnrule('zeta')
def _zeta(ctx, e):
    p = ctx.poly(e.args[0])
    if is_const(p):
        v = cval(p)
        t = {2: {((PI, Fraction(2)),): Fraction(1, 6)},
             3: patom(mk('k', 'apery')),
             4: {((PI, Fraction(4)),): Fraction(1, 90)}}.get(v)
        if t:
            return t
    return patom(mk('zeta', ctx.to_E(p)))


@fnrule('P')
def _P(ctx, e):
    a = ctx.ratcanon(ctx.poly(e.args[0]))
    x = ctx.ratcanon(ctx.poly(e.args[1]))
    if not x:
        return {}
    q, n = shift_arg(ctx, a)
    if n < 0:
        q, n = a, 0
    if is_const(q):
        v = cval(q)
        if v == 1:
            # P(1,x) = 1 - exp(-x)
            r = padd(pconst(1), pscale(ctx.exp_poly(pscale(x, Fraction(-1))), Fraction(-1)))
        elif v == FH:
            r = ctx.poly(mk('erf', T.sqrt(ctx.to_E(x))))
        else:
            r = patom(mk('P', ctx.to_E(q), ctx.to_E(x)))
    else:
        r = patom(mk('P', ctx.to_E(q), ctx.to_E(x)))
    if n > 0:
        X = ctx.to_E(x)
        for i in range(n):
            # P(s+1,x) = P(s,x) - x^s e^-x / Gamma(s+1)
            s = ctx.to_E(padd(q, pconst(i)))
            t = T.mul(T.pw(X, s), T.exp(T.neg(X)),
                      T.pw(mk('gamma', T.add(s, ONE)), T.MONE))
            r = padd(r, pscale(ctx.poly(t), Fraction(-1)))
    return r


@fnrule('B0')
def _B0(ctx, e):
    x = ctx.ratcanon(ctx.poly(e.args[0]))
    a = ctx.ratcanon(ctx.poly(e.args[1]))
    if not x:
        return {}
    X = ctx.to_E(x)
    if is_const(a) and cval(a).denominator == 1 and 1 <= cval(a) <= 20:
        # -log(1 - x) - x - x^2/2 - ...
        r = T.neg(T.log(T.sub(ONE, X)))
        for i in range(1, int(cval(a))):
            r = T.sub(r, T.mul(T.pw(X, c(i)), c(Fraction(1, i))))
        return ctx.poly(r)
    return patom(mk('B0', X, ctx.to_E(a)))


@fnrule('I')
def _I(ctx, e):
    x = ctx.ratcanon(ctx.poly(e.args[0]))
    a = ctx.ratcanon(ctx.poly(e.args[1]))
    b = ctx.ratcanon(ctx.poly(e.args[2]))
    if not x:
        return {}
    if is_const(x) and cval(x) == 1:
        return pconst(1)
    X, A, B = ctx.to_E(x), ctx.to_E(a), ctx.to_E(b)
    if is_const(b) and cval(b) == 1:
        return ctx.poly(T.pw(X, A))
    if is_const(a) and cval(a) == 1:
        return ctx.poly(T.sub(ONE, T.pw(T.sub(ONE, X), B)))
    flip = key(A) > key(B)
    y = ctx.ratcanon(padd(pconst(1), pscale(x, Fraction(-1))))
    Y = ctx.to_E(y)
    if A is B:
        flip = key(X) > key(Y)
        if is_const(x) and cval(x) == FH:
            return pconst(FH)
    if flip:
        return padd(pconst(1), pscale(patom(mk('I', Y, B, A)), Fraction(-1)))
    return patom(mk('I', X, A, B))


@fnrule('lambertw')
def _lw(ctx, e):
    z = ctx.ratcanon(ctx.poly(e.args[1]))
    if not z and e.args[0] is ZERO:
        return {}
    return patom(mk('lambertw', e.args[0], ctx.to_E(z)))


def bessel(ctx, e):
    nu = ctx.ratcanon(ctx.poly(e.args[0]))
    x = ctx.to_E(ctx.ratcanon(ctx.poly(e.args[1])))
    if e.op == 'besselk' and nu:
        # K is even in its order
        if lead_neg({m: q for m, q in nu.items() if m != UNIT} or nu):
            nu = pscale(nu, Fraction(-1))
    if e.op == 'besseli' and is_const(nu) and cval(nu).denominator == 1 \
            and cval(nu) < 0:
        nu = pscale(nu, Fraction(-1))
    v = nu.get(UNIT, F0)
    # half-integer orders are elementary
    if is_const(nu) and v.denominator == 2 and abs(v) <= 4:
        X = x
        sq = T.sqrt(T.div(PI, T.mul(T.TWO, X)))
        if e.op == 'besselk':
            v = abs(v)
            n = int(v - FH)
            # K_{n+1/2} = sqrt(pi/2x) e^-x sum (n+k)!/(k!(n-k)!) (2x)^-k
            from math import factorial as f
            t = T.add(*[T.mul(c(Fraction(f(n+k), f(k)*f(n-k))),
                              T.pw(T.mul(T.TWO, X), c(-k))) for k in range(n+1)])
            return ctx.poly(T.mul(sq, T.exp(T.neg(X)), t))
        if abs(v) == FH:
            # I_{1/2}, I_{-1/2}
            sq = T.sqrt(T.div(T.TWO, T.mul(PI, X)))
            t = T.add(T.exp(X), T.mul(c(1 if v < 0 else -1), T.exp(T.neg(X))))
            return ctx.poly(T.mul(T.HALF, sq, t))
    # reduce order via recurrence to the canonical residues
    #   K_{v+1} = K_{v-1} + 2v/x K_v ; I_{v+1} = I_{v-1} - 2v/x I_v
    n = v.numerator // v.denominator
    base = padd(nu, pconst(-n))
    if is_const(base) and not base:
        pass
    if n >= 2 and n <= 6 or (n == 1 and e.op == 'besseli' and is_const(nu) and v.denominator == 2):
        s = Fraction(1) if e.op == 'besselk' else Fraction(-1)
        nm1 = padd(nu, pconst(-1))
        nm2 = padd(nu, pconst(-2))
        t1 = ctx.poly(mk(e.op, ctx.to_E(nm2), x))
        t2 = ctx.poly(mk(e.op, ctx.to_E(nm1), x))
        f = ctx.pmul(pscale(nm1, 2 * s), ctx.ppow(ctx.poly(x), Fraction(-1)))
        return padd(t1, ctx.pmul(f, t2))
    if n < 0 and n >= -6 and (not is_const(nu) or v.denominator == 2 and e.op == 'besseli'):
        s = Fraction(1) if e.op == 'besselk' else Fraction(-1)
        # K_{v-1} = K_{v+1} - 2v/x K_v
        np1 = padd(nu, pconst(1))
        np2 = padd(nu, pconst(2))
        t1 = ctx.poly(mk(e.op, ctx.to_E(np2), x))
        t2 = ctx.poly(mk(e.op, ctx.to_E(np1), x))
        f = ctx.pmul(pscale(np1, 2 * s), ctx.ppow(ctx.poly(x), Fraction(-1)))
        return padd(t1, pscale(ctx.pmul(f, t2), Fraction(-1)))
    return patom(mk(e.op, ctx.to_E(nu), x))


def oscillating(ctx, e):
    """J and Y: half-integer orders are elementary, other orders are reduced"""
    nu = ctx.ratcanon(ctx.poly(e.args[0]))
    x = ctx.to_E(ctx.ratcanon(ctx.poly(e.args[1])))
    v = nu.get(UNIT, F0)
    n = v.numerator // v.denominator
    half = is_const(nu) and v.denominator == 2
    if half and abs(v) == FH:
        sq = T.sqrt(T.div(T.TWO, T.mul(PI, x)))
        f = {('besselj', FH): T.fn('sin', x), ('besselj', -FH): T.fn('cos', x),
             ('bessely', FH): T.neg(T.fn('cos', x)), ('bessely', -FH): T.fn('sin', x)}[e.op, v]
        return ctx.poly(T.mul(sq, f))
    up = (half and 1 <= n <= 6) or (not half and 2 <= n <= 6)
    down = (half and -7 <= n < -1) or (not half and -6 <= n < 0)
    if up or down:
        s = -1 if up else 1
        a, b = padd(nu, pconst(s)), padd(nu, pconst(2*s))
        # f_v = 2 (v -+ 1)/x f_{v-+1} - f_{v-+2}
        f = ctx.pmul(pscale(a, Fraction(2)), ctx.ppow(ctx.poly(x), Fraction(-1)))
        return padd(ctx.pmul(f, ctx.poly(mk(e.op, ctx.to_E(a), x))),
                    pscale(ctx.poly(mk(e.op, ctx.to_E(b), x)), Fraction(-1)))
    return patom(mk(e.op, ctx.to_E(nu), x))


@fnrule('besselj')
def _bj(ctx, e):
    return oscillating(ctx, e)


@fnrule('bessely')
def _by(ctx, e):
    return oscillating(ctx, e)


@fnrule('hermite')
def _herm(ctx, e):
    n = ctx.ratcanon(ctx.poly(e.args[0]))
    x = ctx.to_E(ctx.ratcanon(ctx.poly(e.args[1])))
    k = n.get(UNIT, F0)
    k = k.numerator // k.denominator
    if not is_const(n) and 1 <= k <= 6:
        a, b = padd(n, pconst(-1)), padd(n, pconst(-2))
        X = ctx.poly(x)
        return padd(pscale(ctx.pmul(X, ctx.poly(mk('hermite', ctx.to_E(a), x))), Fraction(2)),
                    pscale(ctx.pmul(a, ctx.poly(mk('hermite', ctx.to_E(b), x))), Fraction(-2)))
    return patom(mk('hermite', ctx.to_E(n), x))


@fnrule('besselk')
def _bk(ctx, e):
    return bessel(ctx, e)


@fnrule('besseli')
def _bi(ctx, e):
    return bessel(ctx, e)


@fnrule('hyp2f1')
def _h21(ctx, e):
    a, b, cc, z = [ctx.canon(t) for t in e.args]
    if z is ZERO or a is ZERO or b is ZERO:
        return pconst(1)
    if key(a) > key(b):
        a, b = b, a
    for u, v in ((a, b), (b, a)):
        r = _terminating(ctx, u, (v,), (cc,), z)
        if r is not None:
            return r
    if cc.op == 'c' and cc.args[0] == Fraction(3, 2):
        for h, o in ((a, b), (b, a)):
            if o.op == 'c' and o.args[0] == FH and ctx.sign(z) == '-' and ctx.sign(T.sub(h, T.HALF)) == '+':
                # integral of (1 + w s^2)^-h over 0..1: an incomplete beta function
                w = T.neg(z)
                q = T.sub(h, T.HALF)
                u = T.mul(w, T.pw(T.add(ONE, w), T.MONE))
                return ctx.poly(T.mul(
                    T.HALF, T.pw(T.sqrt(w), T.MONE), mk('I', u, T.HALF, q), mk('gamma', T.HALF), mk('gamma', q),
                    T.pw(mk('gamma', h), T.MONE)))
    return patom(mk('hyp2f1', a, b, cc, z))


def _terminating(ctx, a, num, den, z):
    """hypergeometric series with a = -n: a polynomial in z"""
    if a.op != 'c' or a.args[0].denominator != 1 or not -8 <= a.args[0] < 0:
        return None
    if any(ctx.entails('>', t) is not True for t in den):
        return None
    n = -int(a.args[0])
    r, t = T.ONE, T.ONE
    for k in range(n):
        t = T.mul(t, c(Fraction(k - n, k + 1)), z, *[T.add(v, c(k)) for v in num],
                  *[T.pw(T.add(v, c(k)), c(-1)) for v in den])
        r = T.add(r, t)
    return ctx.poly(r)


@fnrule('hyp1f1')
def _h11(ctx, e):
    a, b, z = [ctx.canon(t) for t in e.args]
    if z is ZERO or a is ZERO:
        return pconst(1)
    r = _terminating(ctx, a, (), (b,), z)
    if r is not None:
        return r
    return patom(mk('hyp1f1', a, b, z))


@fnrule('laguerre')
def _laguerre(ctx, e):
    n, a, z = [ctx.canon(t) for t in e.args]
    if a is ZERO:
        return ctx.poly(mk('hyp1f1', T.neg(n), T.ONE, z))
    return patom(mk('laguerre', n, a, z))


# ------------------------------------------------------ conditional values

def _ite(name):
    @fnrule(name)
    def rule(ctx, e):
        cnd, a, b = e.args
        r = ctx.entails(name[3:], cnd) if not ctx.no_z3 else None
        if r is not None:
            return ctx.poly(a if r else b)
        A, B = ctx.canon(a), ctx.canon(b)
        if A is B or ctx.is_zero(T.sub(A, B), 2):
            return ctx.poly(B)
        C = ctx.canon(cnd)
        if name == 'ite==':
            # the special value is the value of the general expression
            from .norm import solve_linear
            s = solve_linear(C)
            if s is not None:
                try:
                    if ctx.is_zero(T.subst(T.sub(A, B), {s[0]: s[1]}), 2):
                        return ctx.poly(B)
                except ZeroDivisionError:
                    pass
        return patom(mk(name, C, A, B))
    return rule


for _n in ('ite==', 'ite>', 'ite>='):
    _ite(_n)


# ---------------------------------------------------------------- binders

def reduce_fractions(ctx, p, idx):
    """reduce numerators modulo the index-dependent denominators D (D = lead + rest),
    so that sums of x/(x + s) and 1/(x + s) are expressed in one basis"""
    out, todo, steps = {}, dict(p), 0
    while todo:
        m, v = todo.popitem()
        steps += 1
        if steps > 200:
            return p
        t = _reduce1(ctx, m, idx)
        if t is None:
            out = padd(out, {m: v})
        else:
            todo = padd(todo, pscale(t, v))
    return out


def _reduce1(ctx, m, idx):
    dens = [(a, e) for a, e in m if a.op == '+' and e < 0 and e.denominator == 1 and idx in free(a)]
    if len(dens) != 1:
        return None
    D, e = dens[0]
    pd = ctx.poly_of_sumatom(D)
    cand = [(mono_key(t), t) for t in pd if any(idx in free(a) for a, _ in t)]
    lead = max(cand)[1]
    rest = {t: v for t, v in pd.items() if t != lead}
    have = dict(m)
    dep = [(a, k) for a, k in lead if idx in free(a)]
    q = {}
    for a, k in m:
        q[a] = k
    for a, k in dep:
        if a.op == 'exp':
            # exp atoms of a monomial are merged into one
            ex = [b for b in q if b.op == 'exp']
            if len(ex) != 1 or k != 1 or q[ex[0]] != 1:
                return None
            dif = padd(ctx.poly(ex[0].args[0]), pscale(ctx.poly(a.args[0]), Fraction(-1)))
            if any(idx in free(b) for mm in dif for b, _ in mm):
                return None
        elif k < 0 or have.get(a, 0) < k:
            return None
    inv = ctx.pmul({m: F1}, ctx.inv_mono(lead))          # m/lead
    inv = pscale(inv, 1/pd[lead])
    r = ctx.pmul(inv, patom(D))
    return padd(r, pscale(ctx.pmul(inv, rest), Fraction(-1)))


@fnrule('sum')
def _sum(ctx, e):
    lo, hi, idx, body = e.args
    plo = ctx.poly(lo)
    inf = hi.op == 'k' and hi.args[0] == '+inf'
    if not inf:
        phi = ctx.poly(hi)
        if is_const(plo) and is_const(phi) and cval(phi) - cval(plo) <= 40:
            r = {}
            i = int(cval(plo))
            while i <= cval(phi):
                r = padd(r, ctx.poly(T.subst(body, {idx: c(i)})))
                i += 1
            return r
    pb = ctx.poly(body)
    pb = ctx.ratcanon(pb) if len(pb) > 1 else pb
    pb = reduce_fractions(ctx, pb, idx)
    r = {}
    lo_c = ctx.to_E(plo)
    hi_c = hi if inf else ctx.to_E(phi)
    cnt = None if inf else padd(padd(phi, pscale(plo, Fraction(-1))), pconst(1))
    for m, v in pb.items():
        dep, ind = [], []
        for a, ex in m:
            (dep if idx in free(a) else ind).append((a, ex))
        # an exp atom mixing dependent and independent exponent parts
        nd = []
        extra = pconst(1)
        for a, ex in dep:
            if a.op == 'exp':
                pa = ctx.poly(a.args[0])
                d1 = {mm: vv for mm, vv in pa.items()
                      if any(idx in free(t) for t, _ in mm)}
                d2 = {mm: vv for mm, vv in pa.items() if mm not in d1}
                if d2 and d1:
                    extra = ctx.pmul(extra, patom(mk('exp', ctx.to_E(d2))))
                    nd.append((mk('exp', ctx.to_E(d1)), F1))
                    continue
            nd.append((a, ex))
        dep = nd
        indp = ctx.pmul({tuple(ind): v}, extra)
        if not dep:
            if cnt is None:
                r = padd(r, patom(mk('sum', lo_c, hi_c, idx, ctx.mono_E(m, v))))
            else:
                r = padd(r, ctx.pmul(indp, cnt))
        else:
            dm = tuple(sorted(dep, key=lambda t: key(t[0])))
            s = None if inf else _split_ite(ctx, lo_c, hi_c, idx, dm)
            if s is None and not inf:
                s = _geometric(ctx, lo_c, hi_c, idx, dm)
            if s is None and not inf:
                s = _logs_of_a_progression(ctx, lo_c, hi_c, idx, dm)
            r = padd(r, ctx.pmul(indp, s if s is not None else
                                 patom(mk('sum', lo_c, hi_c, idx, ctx.mono_E(dm)))))
    return r


@fnrule('negone')
def _negone_rule(ctx, e):
    p = ctx.poly(e.args[0])
    return ctx._negone(p) if ctx.is_intsort(p) else patom(mk('negone', ctx.to_E(p)))


def _geometric(ctx, lo, hi, idx, dm):
    """sum of q^i over lo..hi, where q differs from one"""
    q = T.ONE
    for a, ex in dm:
        if a.op == 'exp' and ex == 1:
            lin = ctx.poly(a.args[0])
            if not all(sum(x is idx for x, _ in m) == 1 and
                       all(x is idx and xe == 1 or idx not in free(x) for x, xe in m) for m in lin):
                return None
            q = T.mul(q, T.exp(T.subst(ctx.to_E(lin), {idx: T.ONE})))
        elif a.op == 'negone' and ex == 1 and a.args[0] is idx:
            q = T.neg(q)
        else:
            return None
    D = ctx.canon(T.sub(T.ONE, q))
    if ctx.no_z3 or ctx.entails('!=', D) is not True or ctx.entails('>=', T.sub(hi, lo)) is not True:
        return None
    body = ctx.mono_E(dm)
    end = T.add(hi, T.ONE)
    return ctx.poly(T.mul(T.sub(T.subst(body, {idx: lo}), T.subst(body, {idx: end})), T.pw(D, T.MONE)))


def _logs_of_a_progression(ctx, lo, hi, idx, dm):
    """sum of log(a + i): the logarithm of a quotient of gamma functions"""
    if len(dm) != 1 or dm[0][0].op != 'log' or dm[0][1] != 1:
        return None
    arg = dm[0][0].args[0]
    b = ctx.canon(T.subst(arg, {idx: T.ZERO}))
    if ctx.no_z3 or not ctx.is_zero(T.sub(arg, T.add(idx, b)), 1):
        return None
    first = ctx.canon(T.add(lo, b))
    if ctx.entails('>', first) is not True or \
            ctx.entails('>=', T.add(T.sub(hi, lo), T.ONE)) is not True:
        return None
    return ctx.poly(T.sub(T.log(T.fn('gamma', T.add(T.add(hi, b), T.ONE))), T.log(T.fn('gamma', first))))


def _split_ite(ctx, lo, hi, idx, dm):
    """sum of a term with one exceptional index: the regular sum, corrected at that index"""
    from .norm import solve_linear
    for a, ex in dm:
        if a.op not in ('ite==', 'ite>', 'ite>=') or ex != 1:
            continue
        cnd, A, B = a.args
        pc = ctx.poly(cnd)
        if not all(sum(x is idx for x, _ in m) <= 1 for m in pc):
            continue
        if a.op == 'ite>':          # lin > 0 where lin >= 0 on the range, zero at one end only
            if ctx.is_zero(T.sub(cnd, T.sub(hi, idx)), 1) or ctx.is_zero(T.sub(cnd, T.sub(idx, lo)), 1):
                A, B = B, A
            else:
                continue
        elif a.op == 'ite>=':
            continue
        at = None
        for end in (lo, hi):
            if ctx.is_zero(T.subst(cnd, {idx: end}), 1):
                at = end
        if at is None or ctx.is_zero(T.subst(cnd, {idx: T.add(at, T.ONE)}), 1):
            continue
        d = ctx.poly(T.sub(cnd, T.subst(cnd, {idx: at})))
        if not (len(d) == 1 or is_const(ctx.poly(T.sub(T.subst(cnd, {idx: T.add(idx, T.ONE)}), cnd)))):
            continue
        if ctx.entails('>=', T.sub(hi, lo)) is not True:
            continue
        rest = ctx.mono_E(tuple(t for t in dm if t[0] is not a))
        try:
            ends = T.subst(T.mul(T.sub(A, B), rest), {idx: at})
            return padd(ctx.poly(ends), ctx.poly(mk('sum', lo, hi, idx, T.mul(B, rest))))
        except ZeroDivisionError:
            continue
    return None


@fnrule('int')
def _int(ctx, e):
    lo, hi, v, body = e.args
    B = ctx.canon(body)

    def end(t):
        return t if t.op == 'k' and t.args[0] in ('+inf', '-inf') else ctx.canon(t)
    # antiderivative atoms: integral = AD(hi) - AD(lo)
    var = T.sym('#t')
    B = T.subst(B, {v: var})
    return padd(patom(mk('AD', end(hi), var, B)),
                pscale(patom(mk('AD', end(lo), var, B)), Fraction(-1)))
