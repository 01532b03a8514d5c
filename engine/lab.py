"""
Contracts: obligations, argument domains and the interface ("lab") through
which one contract text is executed in two modes -- symbolically (engine.symlab,
which proves it) and concretely on the real code (engine.conc, which replays
and cross-checks it).  Pure Python: no solver, no mpmath import here.
"""
from fractions import Fraction
import random


class Skip(Exception):
    """the assumptions of the contract do not hold for this input"""


class Env(dict):
    __getattr__ = dict.__getitem__


class Dom:
    """domain of one argument.  lo/hi: None | number | callable(env)"""

    def __init__(self, sort='r', lo=None, hi=None, lo_in=False, hi_in=False, pool=(), name='',
                 span=None, clip=None):
        self.sort, self.lo, self.hi = sort, lo, hi
        self.lo_in, self.hi_in = lo_in, hi_in
        self.pool = tuple(Fraction(p) for p in pool)
        self.span = span
        # sampling only: (lo, hi) range of the concrete cross-checks
        self.clip = clip and tuple(None if t is None else Fraction(t) for t in clip)

    def bounds(self, env):
        lo = self.lo(env) if callable(self.lo) else self.lo
        hi = self.hi(env) if callable(self.hi) else self.hi
        return lo, hi

    # ---- concrete sampling: exact dyadic rationals
    def sample(self, rng, env, dic=()):
        lo, hi = self.bounds(env)
        lo = None if lo is None else Fraction(lo)
        hi = None if hi is None else Fraction(hi)

        cl = self.clip

        def ok(v):
            if cl is not None and ((cl[0] is not None and v < cl[0]) or (cl[1] is not None and v > cl[1])):
                return False
            if lo is not None and (v < lo or (v == lo and not self.lo_in)):
                return False
            if hi is not None and (v > hi or (v == hi and not self.hi_in)):
                return False
            if self.sort == 'i' and v.denominator != 1:
                return False
            return True
        if lo is not None and hi is not None and (lo > hi or (lo == hi and not (self.lo_in and self.hi_in))):
            raise Skip()
        for _ in range(60):
            r = rng.random()
            if self.pool and r < 0.35:
                v = rng.choice(self.pool)
            elif dic and r < 0.45:
                v = Fraction(rng.choice(dic)) + rng.choice((0, 0, 1, -1, Fraction(1, 8), Fraction(-1, 8)))
                if rng.random() < 0.3 and lo is not None:
                    v = lo + v
            elif self.sort == 'i':
                v = self._int(rng, lo, hi)
            else:
                v = self._real(rng, lo, hi)
            if ok(v):
                return v
        raise Skip()

    def _int(self, rng, lo, hi):
        span = self.span or 12
        if lo is None and hi is None:
            return Fraction(rng.randint(-span, span))
        if hi is None:
            lo = -(-lo.numerator // lo.denominator)
            return Fraction(lo + rng.choice((0, 1, 2, rng.randint(0, span), rng.randint(0, 3 * span))))
        if lo is None:
            hi = hi.numerator // hi.denominator
            return Fraction(hi - rng.choice((0, 1, 2, rng.randint(0, span))))
        a = -(-lo.numerator // lo.denominator)
        b = hi.numerator // hi.denominator
        return Fraction(rng.choice((a, b, rng.randint(a, max(a, b)), rng.randint(a, max(a, b)))))

    def _real(self, rng, lo, hi):
        r = rng.random()
        if lo is not None and hi is not None:
            if r < 0.12 and self.lo_in:
                return lo
            if r < 0.2 and self.hi_in:
                return hi
            if r < 0.4:
                u = Fraction(rng.choice((1, 2, 3, 4, 5, 6, 7)), 8)
            elif r < 0.5:
                u = Fraction(1, 2 ** rng.randint(5, 20))
                if rng.random() < 0.5:
                    u = 1 - u
            else:
                u = Fraction(rng.getrandbits(90) | 1, 2 ** 90)
            return lo + (hi - lo) * u
        if r < 0.1 and (self.lo_in and lo is not None or self.hi_in and hi is not None):
            return lo if lo is not None and self.lo_in else (hi if hi is not None else lo)
        if r < 0.35:
            d = Fraction(rng.choice((1, 2, 3, 4, 5, 6, 8, 10, 12, 20)), rng.choice((1, 1, 2, 4)))
        elif r < 0.45:
            d = Fraction(rng.choice((1, 3)), 2 ** rng.randint(3, 12))
        elif r < 0.52:
            d = Fraction(rng.randint(20, 150))
        else:
            d = Fraction(rng.getrandbits(88) | 1, 2 ** 86) * rng.choice((Fraction(1, 4), 1, 1, 2, 4))
        if lo is not None:
            return lo + d
        if hi is not None:
            return hi - d
        return d if rng.random() < 0.55 else -d


class SeqDom:
    """sequence argument; elem: Dom (bounds may depend on env)"""
    sort = 'seq'

    def __init__(self, elem, nmin=1, same_len=None, distinct=False, nmax=5, as_tuple=False):
        self.elem, self.nmin, self.same_len = elem, nmin, same_len
        self.distinct, self.nmax = distinct, nmax

    def sample(self, rng, env, dic=()):
        n = len(env[self.same_len]) if self.same_len else rng.randint(self.nmin, max(self.nmin, self.nmax))
        for _ in range(30):
            v = [self.elem.sample(rng, env, dic) for _ in range(n)]
            if self.distinct and n > 1 and len(set(v)) < 2:
                continue
            return v
        raise Skip()


class FDom(Dom):
    """the same domain, sampled at doubles that use all 53 bits"""

    def __init__(self, dm):
        self.__dict__.update(dm.__dict__)
        self._dm = dm

    def bounds(self, env):
        return self._dm.bounds(env)

    def sample(self, rng, env, dic=()):
        v = self._dm.sample(rng, env, dic)
        lo, hi = self.bounds(env)
        for r in (Fraction(rng.randint(-10**6, 10**6), 10**7), Fraction(rng.randint(-10**6, 10**6), 10**11), 0):
            w = Fraction(float(v * (1 + r)))
            if (lo is None or w > lo) and (hi is None or w < hi):
                return w
        return v


def REAL(**k):
    return Dom(**k)


def POS(**k):
    return Dom(lo=0, **k)


def NONNEG(**k):
    return Dom(lo=0, lo_in=True, **k)


def GT(f, **k):
    return Dom(lo=f, **k)


def GE(f, **k):
    return Dom(lo=f, lo_in=True, **k)


def LT(f, **k):
    return Dom(hi=f, **k)


def LE(f, **k):
    return Dom(hi=f, hi_in=True, **k)


def OPEN(lo, hi, **k):
    return Dom(lo=lo, hi=hi, **k)


def CLOSED(lo, hi, **k):
    return Dom(lo=lo, hi=hi, lo_in=True, hi_in=True, **k)


def INT(lo=None, hi=None, **k):
    return Dom(sort='i', lo=lo, hi=hi, lo_in=True, hi_in=True, **k)


def SEQ(elem, nmin=1, **k):
    return SeqDom(elem, nmin, **k)


class Ob:
    """One obligation (a contract clause of one or more real functions)."""

    def __init__(self, prop, name, args, body, funcs=(), tol=None, samples=None, sym=True,
                 known=None, mods=(), budget=None, note='', conc=True, maxpaths=120, loops=False):
        self.loops = loops
        self.prop, self.name, self.body = prop, name, body
        self.args = list(args)               # [(name, Dom)]
        self.funcs = tuple(funcs)
        self.tol, self.samples, self.sym, self.known = tol, samples, sym, known
        self.mods = tuple(mods)
        self.budget = budget
        self.note = note
        self.conc = conc
        self.maxpaths = maxpaths

    @property
    def id(self):
        return f'{self.prop}:{self.name}'

    def sample_args(self, rng, dic=()):
        env = Env()
        for n, d in self.args:
            env[n] = d.sample(rng, env, dic)
        return env


class Registry:
    def __init__(self):
        self.obs = {}

    def add(self, ob):
        assert ob.id not in self.obs, ob.id
        self.obs[ob.id] = ob
        return ob


REG = Registry()


def ob(prop, name, args, body, **k):
    return REG.add(Ob(prop, name, args, body, **k))


def rng_for(seed, obid, i):
    return random.Random(f'{seed}|{obid}|{i}')
