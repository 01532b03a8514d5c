"""
Contracts of the internal helpers: root bracketing (loop invariants are found
and checked by the verifier, engine.sx.WLoop), validation helpers.
"""
from fractions import Fraction

from engine.lab import ob, REAL, POS, OPEN, Skip

COMMON = 'distributions._common'


def helper(L, name, nargs):
    """the helper, if it still exists with its signature"""
    import inspect
    f = getattr(L.mod(COMMON), name, None)
    if f is None:
        raise Skip()
    try:
        if len([q for q in inspect.signature(f).parameters.values() if q.default is q.empty]) != nargs:
            raise Skip()
    except (TypeError, ValueError):
        raise Skip()
    return getattr(f, 'real', f)


def monotone(L, a, increasing):
    """a strictly monotone function: unknown in proofs; in concrete runs one of
    a family of functions R -> (0, 1) or R -> R"""
    m = L.m

    def g(x):
        if m.isinf(x):
            v = m.mpf(1 if x > 0 else 0)
        else:
            t = a.s*(x - a.c)
            v = 1/(1 + m.exp(-t))
        return v if increasing else 1 - v
    return g


BARGS = [('lo', REAL()), ('w', POS()), ('c', REAL(clip=(-400, 400))), ('s', POS(clip=('1/64', 20))),
         ('u', OPEN(0, 1, pool=('1/2', '1/1024', '1023/1024', Fraction(1, 2**90), Fraction(1, 2**500))))]


def bracket(prop):
    for ea, eb in (('fin', 'fin'), ('fin', 'inf'), ('ninf', 'fin'), ('ninf', 'inf')):
        for inc in (True, False):
            def body(L, a, ea=ea, eb=eb, inc=inc):
                m = L.m
                fb = helper(L, '_find_bracket', 4)
                f = L.ufun('f', None if L.symbolic else monotone(L, a, inc))
                lo = a.lo if ea == 'fin' else -L.inf
                hi = a.lo + a.w if eb == 'fin' else L.inf
                fa, fz = f(lo), f(hi)
                p = L.unknown('p', lambda: fa + (fz - fa)*a.u)
                if not L.symbolic and (p == fa or p == fz):
                    raise Skip()
                if inc:
                    L.assume(fa < p, p < fz)
                else:
                    L.assume(fa > p, p > fz)
                x0, x1 = fb(f, p, lo, hi)
                if ea == 'fin':
                    L.le('x0 >= a', lo, x0)
                if eb == 'fin':
                    L.le('x1 <= b', x1, hi)
                L.le('x0 <= x1', x0, x1)
                if inc:
                    L.le('func(x0) <= p', f(x0), p)
                    L.le('p <= func(x1)', p, f(x1))
                else:
                    L.le('func(x0) >= p', p, f(x0))
                    L.le('p >= func(x1)', f(x1), p)
            ob(prop, f'_find_bracket.{ea}-{eb}.{"inc" if inc else "dec"}', BARGS, body,
               funcs=['mpsci.distributions._common._find_bracket'], mods=[COMMON], loops=True, budget=40, samples=12)
        for end in ('a', 'b'):
            def body(L, a, ea=ea, eb=eb, end=end):
                fb = helper(L, '_find_bracket', 4)
                f = L.ufun('f', None if L.symbolic else monotone(L, a, a.u < 0.5))
                lo = a.lo if ea == 'fin' else -L.inf
                hi = a.lo + a.w if eb == 'fin' else L.inf
                L.assume(f(lo) != f(hi))
                e = lo if end == 'a' else hi
                x0, x1 = fb(f, f(e), lo, hi)
                L.eq('x0', x0, e)
                L.eq('x1', x1, e)
            ob(prop, f'_find_bracket.{ea}-{eb}.p=func({end})', BARGS, body,
               funcs=['mpsci.distributions._common._find_bracket'], mods=[COMMON], loops=True, samples=6)


def expansion(prop):
    for name, pos in (('_find_bracket_by_expansion_neginf_inf', False), ('_find_bracket_by_expansion_0_inf', True)):
        for inc in (True, False):
            def body(L, a, name=name, pos=pos, inc=inc):
                fb = helper(L, name, 3)
                m = L.m
                if not L.symbolic and pos and a.c < 0:
                    # solutions of every magnitude
                    def g(x):
                        v = m.mpf(1) if m.isinf(x) else a.s*x/(1 + a.s*x)
                        return v if inc else 1 - v
                else:
                    g = None if L.symbolic else monotone(L, a, inc)
                f = L.ufun('f', g)
                p = L.unknown('p', lambda: a.u if not pos else f(m.mpf(0)) + (f(m.inf) - f(m.mpf(0)))*a.u)
                if not L.symbolic and pos and (a.c < 0 and not inc and a.u > 1 - m.mpf(2)**-40 or p == f(m.mpf(0))):
                    raise Skip()
                x0, x1 = fb(f, p, 1 if inc else -1)
                L.le('x0 <= x1', x0, x1)
                if pos:
                    L.lt('0 < x1', m.mpf(0), x1)
                    L.le('0 <= x0', m.mpf(0), x0)
                lo, hi = (f(x0), f(x1)) if inc else (f(x1), f(x0))
                if pos:
                    L.true('lower end', (x0 == 0) or (f(x0) <= p if inc else f(x0) >= p))
                else:
                    L.le('func(low) <= p', f(x0) if inc else p, p if inc else f(x0))
                L.le('p <= func(high)', p if inc else f(x1), f(x1) if inc else p)
            ob(prop, f'{name}.{"inc" if inc else "dec"}', BARGS, body,
               funcs=['mpsci.distributions._common.' + name], mods=[COMMON], loops=True, budget=40, samples=20)


def generate(prop):
    if prop in ('C19', 'C06'):
        bracket(prop)
        expansion(prop)


# ------------------------------------------------- the contracts at call sites

def stubs():
    """{helper: (number of required arguments, function standing for its
    contract)}: what a symbolically executed caller sees instead of the body.
    The bodies are checked against the same contracts above."""
    import functools
    from engine.sx import SX, CUR, SPECIAL
    from engine import terms as T, sx
    from engine.symlab import toe, Goal
    from engine.smp import _zero as zero

    def fresh(name):
        return SX(CUR.path.fresh_sym(name))

    def order(x0, x1, a=None, b=None):
        p = CUR.path
        p.assume('>=', T.sub(x1.e, x0.e))
        if a is not None:
            p.assume('>=', T.sub(x0.e, a))
        if b is not None:
            p.assume('>=', T.sub(b, x1.e))

    def find_bracket(func, p, a, b, nbisect=None):
        p, a, b = SX(p), SX(a), SX(b)
        pa = func(a)
        if p == pa:
            return (a, a)
        pb = func(b)
        if p == pb:
            return (b, b)
        CUR.path.requires.append(Goal('requires of _find_bracket: p between func(a) and func(b)', 'lt', SX(0),
                                      (p - pa)*(pb - p)))
        CUR.path.requires.append(Goal('requires of _find_bracket: a < b', 'lt', a, b))
        x0, x1 = fresh('x0'), fresh('x1')
        order(x0, x1, *(None if t.e in SPECIAL else t.e for t in (a, b)))
        # ensures: the values at the ends enclose p (proved in _find_bracket.*.inc/dec)
        up = CUR.path.ctx.entails('>', (p - pa).e)
        if up is None:
            up = CUR.path.ctx.entails('>', (pb - p).e)
        if up is not None:
            f0, f1 = func(x0), func(x1)
            for lo, hi in ((f0, p), (p, f1)) if up else ((p, f0), (f1, p)):
                d = SX(hi) - SX(lo)
                if d.e not in SPECIAL:
                    CUR.path.assume('>=', d.e)
        return x0, x1

    def neginf_inf(func, p, direction):
        if direction not in (-1, 1):
            raise ValueError('direction must be -1 or 1.')
        x0, x1 = fresh('x0'), fresh('x1')
        order(x0, x1)
        return x0, x1

    def zero_inf(func, p, direction):
        if direction not in (-1, 1):
            raise ValueError('direction must be -1 or 1.')
        x0, x1 = fresh('x0'), fresh('x1')
        order(x0, x1, T.ZERO)
        CUR.path.assume('>', x1.e)
        return x0, x1
    def bisect(func, x0, x1):
        a, b = SX(x0), SX(x1)
        ya = func(a)
        if ya == 0:
            return a
        yb = func(b)
        if yb == 0:
            return b
        if ya*yb > 0:
            raise ValueError('same sign')
        CUR.path.requires.append(Goal('requires of mp_bisect: x0 < x1', 'lt', a, b))
        x = fresh('bis')
        CUR.path.assume('>', T.sub(x.e, a.e))
        CUR.path.assume('>', T.sub(b.e, x.e))
        zero(func(x))
        return x
    def det(name, f):
        @functools.wraps(f)
        def g(*args, **kw):
            k = sx.det_key((args, tuple(sorted(kw.items()))))
            return sx.det_memo(None if k is None else (name, k), lambda: f(*args, **kw))
        return g
    find_bracket, neginf_inf, zero_inf, bisect = [
        det(n, f) for n, f in (('fb', find_bracket), ('ni', neginf_inf), ('zi', zero_inf), ('bis', bisect))]
    return {'_find_bracket': (4, find_bracket, COMMON), '_find_bracket_by_expansion_neginf_inf': (3, neginf_inf, COMMON),
            '_find_bracket_by_expansion_0_inf': (3, zero_inf, COMMON),
            'mp_bisect': (3, bisect, 'fun._inv_reg_inc_beta')}
