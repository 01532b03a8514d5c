"""
Signs by monotonicity: e > 0 for every s > lo when e -> e0 >= 0 as s falls to lo
and de/ds > 0 between lo and s (mean value theorem).  Used where neither
intervals nor the solver decide a condition with transcendental terms.
"""
import random
from fractions import Fraction
import time
from . import terms as T
from .norm import TooBig

TRANS = {'exp', 'log', 'erf', 'atan', 'sin', 'cos', '^', 'gamma', 'psi'}


def transcendental(e, seen=None):
    st = [e]
    n = 0
    while st:
        t = st.pop()
        n += 1
        if n > 120:
            return False
        if t.op in ('int', 'sum', 'at', 'ite', 'floor'):
            return False
        if t.op in TRANS and not (t.op == '^' and t.args[1].op == 'c' and t.args[1].args[0].denominator == 1):
            return True
        st.extend(a for a in t.args if isinstance(a, T.E))
    return False


def _continuous(e, s, lo, e0, free):
    """numerical check that e tends to e0 (a guard, not the argument)"""
    import mpmath
    from .numeval import evaluate
    rng = random.Random(1)
    with mpmath.mp.workdps(40):
        mp = mpmath.mp
        for _ in range(3):
            env = {t: mp.mpf(rng.randint(1, 60))/16 for t in free}
            try:
                b = evaluate(e0, env, mp)
                env[s] = mp.mpf(lo.numerator)/lo.denominator + mp.mpf(10)**-25
                a = evaluate(e, env, mp)
                if not (abs(a - b) <= mp.mpf(10)**-3 * (1 + abs(b))):
                    return False
            except Exception:
                return False
    return True


def _defined(e, ctx):
    """every subterm of e is differentiable under the facts of ctx"""
    st, seen = [e], set()
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == '^':
            b, x = t.args
            if x.op == 'c' and x.args[0].denominator == 1:
                if x.args[0] < 0 and ctx.entails('!=', b) is not True:
                    return False
            elif ctx.entails('>', b) is not True:
                return False
        elif t.op in ('log', 'gamma'):
            if ctx.entails('>', t.args[0]) is not True:
                return False
        elif t.op == 'psi':
            if ctx.entails('>', t.args[1]) is not True:
                return False
        elif t.op not in ('c', 's', 'k', '+', '*', 'exp', 'erf', 'atan', 'sin', 'cos'):
            return False
        st.extend(a for a in t.args if isinstance(a, T.E))
    return True


def sign(p, e):
    """'+' or '-' if proved, else None"""
    ctx = p.ctx
    t0 = time.time()
    vs = [s for s in T.free(e) if s.op == 's']
    if len(vs) > 4:
        return None
    for s in sorted(vs, key=T.key):
        b = ctx.bounds.get(s)
        if not b or b[0] is None or time.time() - t0 > 1.5:
            continue
        for lo, strict in ((b[0], b[1]),) + (((Fraction(0), True),) if b[0] > 0 else ()):
            g = _from(p, ctx, e, s, lo, strict, vs)
            if g:
                return g
    return None


def _from(p, ctx, e, s, lo, strict, vs):
    try:
        e0 = T.subst(e, {s: T.c(lo)})
        d = T.diff(e, s)
        c2 = ctx.clone()
        c2.z3_timeout = 400
        g0 = c2.sign(e0)
        if g0 not in ('+', '-', '0', '+0', '-0'):
            return None
        s2 = p.fresh_sym('ms')
        c2.assume('>', T.sub(s2, T.c(lo)))
        c2.assume('<=', T.sub(s2, s))
        if not _defined(T.subst(e, {s: s2}), c2):
            return None
        g = c2.sign(T.subst(d, {s: s2}))
        if g not in ('+', '-') or g == '+' and g0 in ('-', '-0') or g == '-' and g0 in ('+', '+0'):
            return None
        if not strict and g0 not in ('+', '-'):
            return None
        if not _continuous(e, s, lo, e0, vs):
            return None
        return g
    except (ZeroDivisionError, ValueError, T.NoDerivative, TooBig, RecursionError, OverflowError):
        return None
