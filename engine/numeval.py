"""Numeric evaluation of terms with mpmath (used to search for inputs that
follow a symbolic path, and for the sign of closed constants that are not
close to 0: norm._numsign)."""
from fractions import Fraction
from .terms import E
from . import terms as T


class NumFail(Exception):
    pass


def evaluate(e, env, mp):
    memo = {}

    def ev(e):
        r = memo.get(e)
        if r is None:
            r = _ev(e)
            memo[e] = r
        return r

    def _ev(e):
        op, a = e.op, e.args
        if op == 'c':
            return mp.mpf(a[0].numerator) / a[0].denominator
        if op in ('s', 'at'):
            if e in env:
                return env[e]
            raise NumFail(e)
        if op == 'k':
            if a[0] == '+inf':
                return mp.inf
            if a[0] == '-inf':
                return mp.ninf
            if a[0] in ('nan', 'complex'):
                raise NumFail(a[0])
            return +getattr(mp, a[0])
        if op == '+':
            r = ev(a[0])
            for t in a[1:]:
                r = r + ev(t)
            return r
        if op == '*':
            r = ev(a[0])
            for t in a[1:]:
                r = r * ev(t)
            return r
        if op in ('^', 'rpow', 'bigpow'):
            return ev(a[0]) ** ev(a[1])
        if op in ('exp', 'log', 'sin', 'cos', 'tan', 'atan', 'erf', 'erfinv', 'gamma',
                  'floor', 'sign', 'asin', 'acos', 'zeta'):
            return getattr(mp, op)(ev(a[0]))
        if op == 'abs':
            return abs(ev(a[0]))
        if op == 'psi':
            return mp.psi(int(a[0].args[0]), ev(a[1]))
        if op == 'P':
            return mp.gammainc(ev(a[0]), 0, ev(a[1]), regularized=True)
        if op == 'I':
            return mp.betainc(ev(a[1]), ev(a[2]), 0, ev(a[0]), regularized=True)
        if op == 'B0':
            return mp.re(mp.betainc(ev(a[1]), 0, 0, ev(a[0])))
        if op == 'negone':
            return mp.mpf(-1) ** int(ev(a[0]))
        if op == 'lambertw':
            return mp.re(mp.lambertw(ev(a[1]), int(a[0].args[0])))
        if op in ('besseli', 'besselk', 'besselj', 'bessely', 'hyp2f1', 'hyp1f1'):
            return getattr(mp, op)(*[ev(t) for t in a])
        if op.startswith('ite'):
            t = ev(a[0])
            b = t > 0 if op == 'ite>' else t >= 0 if op == 'ite>=' else t == 0
            return ev(a[1] if b else a[2])
        raise NumFail(op)
    return ev(e)
