"""
Normaliser and decision procedures of the verifier.

``Ctx`` holds a set of facts (E rel 0).  It offers
  * sign / entailment queries      (interval reasoning, then Z3)
  * normalisation of terms to sums of products over atoms, using sign facts
    where a law needs them (log of product, power of power, ...)
  * a zero test (prove that a term is identically 0 under the facts)
"""
from fractions import Fraction
from math import gcd as _igcd
import time
import mpmath
from . import terms as T
from .terms import E, mk, c, key, free, ZERO, ONE, MONE, HALF, TWO, PI

import z3

SLOW = [0]        # full checks of linear goals that ran into the time limit (this obligation)
STATS = {'z3_calls': 0, 'z3_time': 0.0, 'zero_tests': 0}
F0 = Fraction(0)
F1 = Fraction(1)
FH = Fraction(1, 2)

UNIT = ()          # the empty monomial


class TooBig(Exception):
    pass


_numctx = mpmath.MPContext()
_numctx.dps = 40
_KNUM = {'pi': _numctx.pi, 'euler': _numctx.euler, 'catalan': _numctx.catalan,
         'apery': _numctx.apery, 'e': _numctx.e}


def const_bounds(name):
    v = +_KNUM[name]
    lo = Fraction(int(_numctx.floor(v * 10**12)), 10**12)
    return lo, lo + Fraction(1, 10**12)


# ---------------------------------------------------------------- polynomials
# poly: dict monomial -> Fraction ; monomial: tuple of (atom, Fraction exp)
# sorted by key(atom).

def size_le(e, n):
    return T.size(e) <= n


def pconst(q):
    return {UNIT: Fraction(q)} if q else {}


def padd(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, v in q.items():
        w = r.get(m, F0) + v
        if w:
            r[m] = w
        else:
            r.pop(m, None)
    return r


def pscale(p, k):
    if not k:
        return {}
    return {m: v * k for m, v in p.items()}


def patom(a, e=F1):
    return {((a, Fraction(e)),): F1}


def is_const(p):
    return not p or (len(p) == 1 and UNIT in p)


def cval(p):
    return p.get(UNIT, F0)


_factor_cache = {}


def factorint(n):
    r = _factor_cache.get(n)
    if r is not None:
        return r
    n0 = n
    out = {}
    d = 2
    while d * d <= n and d < 100000:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    _factor_cache[n0] = out
    return out


def mono_key(m):
    return tuple((key(a), e) for a, e in m)


class Ctx:
    def __init__(self, facts=()):
        self.facts = []            # list of (rel, E)
        self.bounds = {}           # symbol -> [lo, lostrict, hi, histrict]
        self.nonzero = set()
        self._memo = {}
        self._sign = {}
        self._z3 = None
        self._ent = {}
        self.z3_timeout = 1500
        for rel, e in facts:
            self.assume(rel, e)

    def clone(self):
        r = Ctx()
        for rel, e in self.facts:
            r.assume(rel, e)
        return r

    # ------------------------------------------------------------- facts
    def assume(self, rel, e):
        if rel in ('<', '>') and e.op == '+' and len(T.free(e)) > 1 and size_le(e, 12):
            # integers: e > 0 is e - 1 >= 0
            p = self.poly(e)
            if self.is_intsort(p):
                rel, e = ('>=', T.sub(e, ONE)) if rel == '>' else ('<=', T.add(e, ONE))
        self.facts.append((rel, e))
        self._sign.clear()
        self._ent.clear()
        self._memo.clear()
        self._z3 = None
        # single-symbol linear facts give bounds
        lin = self._linear(e)
        if lin is None and rel == '!=' and e.op in '+*' and len(self.facts) < 60:
            # a product is not zero: neither are its factors
            c = self.canon(e)
            for a in (c.args if c.op == '*' else ()):
                if a.op == '^' and a.args[0].op == 's':
                    a = a.args[0]
                if a.op == 's' and (a, F0) not in self.nonzero:
                    self.assume('!=', a)
        if lin is not None:
            s, k, b = lin            # k*s + b rel 0
            v = -b / k
            if rel == '==':
                self._bnd(s, v, False, v, False)
            elif rel == '!=':
                bd = self.bounds.get(s)
                if bd:
                    if bd[0] == v:
                        bd[1] = True
                    if bd[2] == v:
                        bd[3] = True
                self.nonzero.add((s, v))
            else:
                strict = rel in ('<', '>')
                up = (rel in ('<', '<=')) == (k > 0)
                if up:
                    self._bnd(s, None, False, v, strict)
                else:
                    self._bnd(s, v, strict, None, False)

    def _bnd(self, s, lo, ls, hi, hs):
        b = self.bounds.setdefault(s, [None, False, None, False])
        integer = s.args[-1] == 'i' if s.op == 's' else False
        if lo is not None:
            if integer:
                import math
                if ls and lo.denominator == 1:
                    lo = lo + 1
                lo, ls = Fraction(math.ceil(lo)), False
            if b[0] is None or lo > b[0] or (lo == b[0] and ls):
                b[0], b[1] = lo, ls
        if hi is not None:
            if integer:
                import math
                if hs and hi.denominator == 1:
                    hi = hi - 1
                hi, hs = Fraction(math.floor(hi)), False
            if b[2] is None or hi < b[2] or (hi == b[2] and hs):
                b[2], b[3] = hi, hs
        for (s2, v) in self.nonzero:
            if s2 is s:
                if b[0] == v:
                    b[1] = True
                if b[2] == v:
                    b[3] = True

    @staticmethod
    def _isvar(e):
        return e.op == 's' or e.op == 'at'

    def _linear(self, e):
        if self._isvar(e):
            return e, F1, F0
        if e.op == '*' and len(e.args) == 2 and e.args[0].op == 'c' \
                and self._isvar(e.args[1]):
            return e.args[1], e.args[0].args[0], F0
        if e.op == '+' and len(e.args) == 2 and e.args[1].op == 'c':
            r = self._linear(e.args[0])
            if r and r[2] == 0:
                return r[0], r[1], e.args[1].args[0]
        return None

    # ------------------------------------------------------------- intervals
    # interval: (lo, lo_open, hi, hi_open), None = unbounded
    def ival_atom(self, a):
        op = a.op
        if op in ('s', 'at'):
            b = self.bounds.get(a)
            return tuple(b) if b else (None, True, None, True)
        if op == 'k':
            lo, hi = const_bounds(a.args[0])
            return (lo, True, hi, True)
        if op == 'c':
            v = a.args[0]
            return (v, False, v, False)
        if op == 'exp':
            i = self.ival(self.poly(a.args[0]))
            lo, lop = F0, True
            hi, hop = None, True
            if i[0] is not None and i[0] >= 0:
                lo, lop = F1 + i[0], (i[1] if i[0] == 0 else True)
            if i[2] is not None and i[2] <= 0:
                hi, hop = F1, i[3] if i[2] == 0 else True
            return (lo, lop, hi, hop)
        if op == 'log':
            i = self.ival(self.poly(a.args[0]))
            lo, lop, hi, hop = None, True, None, True
            if i[0] is not None and i[0] >= 1:
                lo, lop = F0, i[1] or i[0] > 1
            if i[2] is not None and i[2] <= 1:
                hi, hop = F0, i[3] or i[2] < 1
            return (lo, lop, hi, hop)
        if op == '+':
            return self.ival(self.poly_of_sumatom(a))
        if op == 'erf':
            s = self.sign(a.args[0])
            lo, lop, hi, hop = -F1, True, F1, True
            if s in ('+',):
                lo, lop = F0, True
            elif s in ('+0', '0'):
                lo, lop = F0, False
            if s in ('-',):
                hi, hop = F0, True
            elif s in ('-0', '0'):
                hi, hop = F0, False
            return (lo, lop, hi, hop)
        if op in ('P', 'I'):
            return (F0, False, F1, False)
        if op in ('sin', 'cos'):
            return (-F1, False, F1, False)
        if op == 'atan':
            s = self.sign(a.args[0])
            h = Fraction(15708, 10000)
            lo, lop, hi, hop = -h, True, h, True
            if s in ('+', '+0', '0'):
                lo, lop = F0, s == '+'
            if s in ('-', '-0', '0'):
                hi, hop = F0, s == '-'
            return (lo, lop, hi, hop)
        if op == 'gamma':
            if self.sign(a.args[0]) == '+':
                return (F0, True, None, True)
        if op == 'abs':
            return (F0, False, None, True)
        if op in ('besseli', 'besselk', 'expint', 'zeta_'):
            if self.sign(a.args[-1]) == '+' and (op != 'besseli' or self.sign(T.add(a.args[0], ONE)) in ('+', '+0')):
                return (F0, True, None, True)
        if op == 'psi':
            n = a.args[0]
            if n.op == 'c' and n.args[0] >= 1 and self.sign(a.args[1]) == '+':
                if int(n.args[0]) % 2 == 1:
                    return (F0, True, None, True)
                return (None, True, F0, True)
        if op == 'lambertw':
            if a.args[0].op == 'c' and a.args[0].args[0] == 0:
                s = self.sign(a.args[1])
                if s == '+':
                    return (F0, True, None, True)
                return (-F1, False, None, True)
        if op == 'floor':
            i = self.ival(self.poly(a.args[0]))
            import math
            lo = Fraction(math.floor(i[0])) if i[0] is not None else None
            hi = Fraction(math.floor(i[2])) if i[2] is not None else None
            return (lo, False, hi, False)
        if op == 'sign':
            return (-F1, False, F1, False)
        return (None, True, None, True)

    @staticmethod
    def _imul(x, y):
        # product of intervals
        def mulb(a, ao, b, bo):
            # bounds may be None=inf with sign given separately
            return a * b, ao or bo
        if x[0] is not None and x[0] == 0 and x[2] == 0:
            return x
        if y[0] is not None and y[0] == 0 and y[2] == 0:
            return y

        def sg(i):
            if i[0] is not None and i[0] >= 0:
                return 1
            if i[2] is not None and i[2] <= 0:
                return -1
            return 0
        sx, sy = sg(x), sg(y)
        if sx == 0 or sy == 0:
            if None in (x[0], x[2], y[0], y[2]):
                return (None, True, None, True)
            vals = [(x[0]*y[0], x[1] or y[1]), (x[0]*y[2], x[1] or y[3]),
                    (x[2]*y[0], x[3] or y[1]), (x[2]*y[2], x[3] or y[3])]
            lo = min(v for v, _ in vals)
            hi = max(v for v, _ in vals)
            return (lo, all(o for v, o in vals if v == lo), hi,
                    all(o for v, o in vals if v == hi))

        def flip(i):
            return (None if i[2] is None else -i[2], i[3],
                    None if i[0] is None else -i[0], i[1])
        f = 1
        if sx < 0:
            x = flip(x)
            f = -f
        if sy < 0:
            y = flip(y)
            f = -f
        lo = x[0] * y[0]
        if lo == 0:
            # 0 reached iff a factor reaches 0
            lop = not ((x[0] == 0 and not x[1]) or (y[0] == 0 and not y[1]))
        else:
            lop = x[1] or y[1]
        if (x[2] == 0) or (y[2] == 0):
            hi, hop = F0, False
        elif x[2] is None or y[2] is None:
            hi, hop = None, True
        else:
            hi, hop = x[2] * y[2], x[3] or y[3]
        r = (lo, lop, hi, hop)
        return flip(r) if f < 0 else r

    def _ipow(self, i, e):
        if e == 1:
            return i
        if e.denominator == 1:
            n = int(e)
            if n > 0 and n <= 8:
                if n % 2 == 0:
                    # even power
                    if i[0] is not None and i[0] >= 0:
                        pass
                    elif i[2] is not None and i[2] <= 0:
                        i = (-i[2], i[3], None if i[0] is None else -i[0], i[1])
                    else:
                        m = None if None in (i[0], i[2]) else max(-i[0], i[2])
                        return (F0, False, None if m is None else m**n, False)
                lo = None if i[0] is None else i[0] ** n
                hi = None if i[2] is None else i[2] ** n
                return (lo, i[1], hi, i[3])
            if n < 0:
                if i[0] is not None and i[0] >= 0:
                    j = self._ipow(i, Fraction(-n))
                    hi = None if j[0] == 0 else 1 / j[0]
                    lo = F0 if j[2] is None else (1 / j[2] if j[2] else None)
                    if lo is None:
                        return (None, True, None, True)
                    return (lo, True if j[2] is None else j[3], hi, j[1])
                if i[2] is not None and i[2] <= 0:
                    if n % 2:
                        k = self._ipow((-i[2], i[3], None if i[0] is None
                                        else -i[0], i[1]), Fraction(n))
                        return (None if k[2] is None else -k[2], k[3],
                                None if k[0] is None else -k[0], k[1])
                    return self._ipow((-i[2], i[3], None if i[0] is None
                                       else -i[0], i[1]), Fraction(n))
                return (None, True, None, True)
        # fractional
        if i[0] is not None and i[0] >= 0:
            # positive base assumed
            lo, lop, hi, hop = F0, False, None, True
            if e > 0:
                if i[0] > 0 or i[1]:
                    lop = True
                if i[0] >= 1:
                    lo, lop = F1, i[1] if i[0] == 1 else True
                if i[2] is not None and i[2] <= 1:
                    hi, hop = F1, i[3] if i[2] == 1 else True
            else:
                lop = True
                if i[2] is not None and i[2] <= 1:
                    lo, lop = F1, i[3] if i[2] == 1 else True
                if i[0] >= 1:
                    hi, hop = F1, i[1] if i[0] == 1 else True
            return (lo, lop, hi, hop)
        return (F0, False, None, True)   # fractional powers are nonnegative

    def ival_mono(self, m):
        r = (F1, False, F1, False)
        for a, e in m:
            r = self._imul(r, self._ipow(self.ival_atom(a), e))
            if r[0] is None and r[2] is None:
                break
        return r

    def ival(self, p):
        lo, lop, hi, hop = F0, False, F0, False
        for m, v in p.items():
            i = self.ival_mono(m)
            if v < 0:
                i = (i[2], i[3], i[0], i[1])
            if lo is not None:
                if i[0] is None:
                    lo = None
                else:
                    lo += v * i[0]
                    lop = lop or i[1]
            if hi is not None:
                if i[2] is None:
                    hi = None
                else:
                    hi += v * i[2]
                    hop = hop or i[3]
            if lo is None and hi is None:
                break
        return (lo, lop, hi, hop)

    # ------------------------------------------------------------- signs
    def sign(self, e):
        """'+', '-', '0', '+0' (>=0), '-0' (<=0), '!=' or None"""
        r = self._sign.get(e)
        if r is not None:
            return r if r != '?' else None
        self._sign[e] = '?'
        p = self.poly(e)
        r = self.sign_poly(p)
        self._sign[e] = r if r is not None else '?'
        return r

    @staticmethod
    def _ivsign(i):
        if i[0] is not None and (i[0] > 0 or (i[0] == 0 and i[1])):
            return '+'
        if i[2] is not None and (i[2] < 0 or (i[2] == 0 and i[3])):
            return '-'
        if i[0] == 0 and i[2] == 0:
            return '0'
        if i[0] is not None and i[0] == 0:
            return '+0'
        if i[2] is not None and i[2] == 0:
            return '-0'
        return None

    def sign_poly(self, p, use_z3=True):
        if not p:
            return '0'
        if is_const(p):
            return '+' if cval(p) > 0 else '-'
        pk = ('S',) + tuple(sorted((mono_key(m), v) for m, v in p.items()))
        r = self._sign.get(pk)
        if r is not None:
            return r if r != '?' else None
        s = self._ivsign(self.ival(p))
        if s in ('+', '-', '0'):
            self._sign[pk] = s
            return s
        s = self._numsign(p) or s
        if s in ('+', '-'):
            self._sign[pk] = s
            return s
        if len(p) == 1:
            (m, v), = p.items()
            s2 = 1 if v > 0 else -1
            ok = True
            weak = False
            for a, e in m:
                if e.denominator != 1:
                    t = self.sign_atom(a)
                    if t == '+':
                        continue
                    weak = True
                    continue
                t = self.sign_atom(a)
                if t == '+':
                    continue
                if t == '-':
                    if e % 2 == 1:
                        s2 = -s2
                    continue
                if e % 2 == 0:
                    if t == '!=':
                        continue
                    weak = True
                    continue
                if t == '+0':
                    weak = True
                elif t == '-0':
                    weak = True
                    s2 = -s2
                else:
                    ok = False
                    break
            if ok:
                s = ('+' if s2 > 0 else '-') + ('0' if weak else '')
                if not weak:
                    self._sign[pk] = s
                    return s
        if not use_z3:
            return s
        t = self._monosign(p)
        if t in ('+', '-', '0'):
            self._sign[pk] = t
            return t
        if len(p) > 1:
            # a common factor
            com = None
            for m in p:
                d = dict(m)
                com = d if com is None else {a: min(e, d[a]) if e > 0 else max(e, d[a]) for a, e in com.items()
                                             if a in d and (d[a] > 0) == (e > 0)}
            if com:
                f = tuple(sorted(com.items(), key=lambda t: (key(t[0]), t[1])))
                t = self.sign_poly({f: F1}, False)
                if t in ('+', '-'):
                    q = {}
                    for m, v in p.items():
                        r = tuple((a, e - com.get(a, 0)) for a, e in m if e != com.get(a, 0))
                        q[r] = q.get(r, F0) + v
                    t2 = self.sign_poly(q)
                    if t2 in ('+', '-', '0'):
                        if t == '-':
                            t2 = {'+': '-', '-': '+', '0': '0'}[t2]
                        self._sign[pk] = t2
                        return t2
                    if t2 in ('+0', '-0') and s is None:
                        s = t2 if t == '+' else {'+0': '-0', '-0': '+0'}[t2]
        t = self._logsum_sign(p)
        if t in ('+', '-', '0'):
            self._sign[pk] = t
            return t
        if s is None:
            s = t
        t = self._sumsign(p)
        if t in ('+', '-', '0'):
            self._sign[pk] = t
            return t
        r = self._z3sign(p, s if s is not None else t)
        self._sign[pk] = r if r is not None else '?'
        return r

    _lsdepth = 0

    def _logsum_sign(self, p):
        """sum n_i*log(A_i) + R has the sign of prod A_i^n_i*exp(R) - 1"""
        if len(p) == 2 and self._lsdepth < 2:
            # u*exp(A) - v*exp(B) has the sign of A - B + log(u/v)
            (m1, v1), (m2, v2) = p.items()
            if v1 * v2 < 0 and (m1 or m2) and all(a.op == 'exp' for a, _ in m1 + m2):
                if v1 < 0:
                    m1, v1, m2, v2 = m2, v2, m1, v1
                r = T.add(*([T.mul(T.c(e), a.args[0]) for a, e in m1] +
                            [T.mul(T.c(-e), a.args[0]) for a, e in m2]))
                if v1 != -v2:
                    r = T.add(r, T.log(T.c(-v1 / v2)))
                self._lsdepth += 1
                try:
                    return self.sign_poly(self.ratcanon(self.poly(r)))
                except (TooBig, ZeroDivisionError):
                    return None
                finally:
                    self._lsdepth -= 1
        if self._lsdepth > 1 or len(p) > 5:
            return None
        logs, rest = [], {}
        for m, v in p.items():
            if len(m) == 1 and m[0][0].op == 'log' and m[0][1] == 1:
                logs.append((m[0][0].args[0], v))
            elif any(a.op in ('sum', 'int') for a, _ in m):
                return None
            else:
                rest[m] = v
        if not logs or (len(logs) == 1 and not rest):
            return None
        den = 1
        for _, v in logs:
            den = den * v.denominator
        if den > 4 or any(abs(v * den) > 4 for _, v in logs):
            return None
        self._lsdepth += 1
        try:
            q = T.mul(*[T.pw(a, T.c(v * den)) for a, v in logs])
            if rest:
                q = T.mul(q, T.exp(self.to_E(pscale(rest, Fraction(den)))))
            return self.sign_poly(self.ratcanon(self.poly(T.sub(q, ONE))))
        except (TooBig, ZeroDivisionError):
            return None
        finally:
            self._lsdepth -= 1

    def _monosign(self, p):
        """sign of M*(f(u) - f(v)) with f increasing, and of M*sum of q*log(a), q integers"""
        if not 2 <= len(p) <= 6 or self._mono > 2:
            return None
        ops = [{a.op for a, e in m if e == 1} for m in p]
        op = next((o for o in ('erf', 'log', 'atan', 'asin', 'exp', 'ncdf') if all(o in t for t in ops)), None)
        if op is None:
            # v*R is v*log(b)*R*log(b)^(-1)
            inv = {a for m in p for a, e in m if a.op == 'log' and e == -1 and not free(a)}
            if len(inv) == 1 and sum('log' in t for t in ops) >= 1:
                b, = inv
                q = {}
                for m, v in p.items():
                    if any(a.op == 'log' and e == 1 for a, e in m):
                        q[m] = v
                    else:
                        q[tuple(sorted(m + ((b, 1), (b, -1)), key=lambda t: (key(t[0]), t[1])))] = v
                p, op = q, 'log'
        if op is None or (op != 'log' and len(p) != 2):
            return None
        terms, rest = [], None
        for m, v in p.items():
            fs = [a for a, e in m if a.op == op and e == 1]
            if len(fs) > 1 and op == 'log':
                return None
            found = False
            for f in fs:
                r = tuple(t for t in m if t != (f, 1))
                if rest is None or r == rest:
                    rest, found = r, True
                    terms.append((f, v))
                    break
            if not found:
                return None
        self._mono += 1
        try:
            sr = self.sign_poly({rest: F1}) if rest else '+'
            if sr not in ('+', '-'):
                return None
            if op == 'log':
                d = 1
                for _, v in terms:
                    d = d * v.denominator // _igcd(d, v.denominator)
                q = [(f.args[0], int(v * d)) for f, v in terms]
                g = 0
                for _, n in q:
                    g = _igcd(g, abs(n))
                q = [(a, n // g) for a, n in q]
                if sum(abs(n) for _, n in q) > 8 or any(self.sign(a) != '+' for a, _ in q):
                    return None
                up = T.mul(*([T.pw(a, c(n)) for a, n in q if n > 0] or [ONE]))
                dn = T.mul(*([T.pw(a, c(-n)) for a, n in q if n < 0] or [ONE]))
                t = self.sign(T.sub(up, dn))
            else:
                (f, v), (g, w) = terms
                if v != -w:
                    return None
                t = self.sign(T.sub(f.args[0], g.args[0]))
                if v < 0:
                    t = {'+': '-', '-': '+'}.get(t, t)
            if t not in ('+', '-', '0'):
                return None
            return {'+': '-', '-': '+', '0': '0'}[t] if sr == '-' else t
        except TooBig:
            return None
        finally:
            self._mono -= 1

    _mono = 0

    def _numsign(self, p):
        """sign of a closed constant, if it is not close to 0"""
        for m in p:
            for a, e in m:
                if free(a):
                    return None
        from .numeval import evaluate
        try:
            v = evaluate(self.to_E(p), {}, _numctx)
            if abs(v.imag) > 1e-30 or not abs(v) > 1e-20:
                return None
        except Exception:
            return None
        return '+' if v > 0 else '-'

    _indepth = 0

    def _sumsign(self, p):
        """sign of an expression with sums over one family, from the sign of the
        generic element:  sum_j A_j*sum_i b_j(i) + M  =  sum_i (sum_j A_j*b_j(i) + M/N)"""
        if self._indepth > 1:
            return None
        fam = None
        for m in p:
            for a, e in m:
                if a.op == 'sum':
                    f = a.args[:3]
                    if fam is None:
                        fam = f
                    elif fam != f:
                        return None
        if fam is None or fam[1].op == 'k':
            return None
        lo, hi, idx = fam
        cnt = padd(padd(self.poly(hi), pscale(self.poly(lo), Fraction(-1))), pconst(1))
        self._indepth += 1
        try:
            sn = self.sign_poly(cnt)
            if sn not in ('+', '+0'):
                return None
            el, rest = {}, {}
            for m, v in p.items():
                ss = [(a, e) for a, e in m if a.op == 'sum']
                others = tuple(t for t in m if t[0].op != 'sum')
                if len(ss) == 1 and ss[0][1] == 1:
                    el = padd(el, self.pmul({others: v}, self.poly(ss[0][0].args[3])))
                elif len(ss) == 1 and ss[0][1] == 2 and \
                        self.sign_poly({others: v}) in ('-', '-0'):
                    # -k*S^2 = -2*k*S*sum_i b(i) + k*S^2
                    S = ss[0][0]
                    el = padd(el, self.pmul({others: 2*v}, self.pmul(patom(S), self.poly(S.args[3]))))
                    rest = padd(rest, {m: -v})
                elif not ss or all(e.denominator == 1 for _, e in ss):
                    rest = padd(rest, {m: v})
                else:
                    return None
            if not el:
                return None
            if rest:
                el = padd(el, self.pmul(rest, self.inv_poly(cnt)))
            r = self.sign_poly(self.ratcanon(el))
            if r not in ('+', '-', '+0', '-0', '0'):
                # a known sum  sum_i z(i) = 0  may be added any number of times
                for z in self._zerosums(fam):
                    for k in (1, -1, 2, -2):
                        t = self.sign_poly(self.ratcanon(padd(el, pscale(z, Fraction(k)))))
                        if t in ('+', '-', '+0', '-0', '0'):
                            r = t
                            break
                    if r in ('+', '-', '+0', '-0', '0'):
                        break
        finally:
            self._indepth -= 1
        if r in ('+', '-') and sn == '+0':
            r += '0'
        return r if r in ('+', '-', '0', '+0', '-0') else None

    def _zerosums(self, fam):
        """z(i) for the facts of the form  sum over fam of z(i) == 0"""
        for rel, f in self.facts:
            if rel != '==':
                continue
            z = {}
            for t in (f.args if f.op == '+' else (f,)):
                k, s = Fraction(1), t
                if t.op == '*' and len(t.args) == 2 and t.args[0].op == 'c':
                    k, s = t.args[0].args[0], t.args[1]
                if s.op != 'sum' or s.args[2] is not fam[2] or self.poly(s.args[0]) != self.poly(fam[0]) or \
                        self.poly(s.args[1]) != self.poly(fam[1]):
                    break
                z = padd(z, pscale(self.poly(s.args[3]), Fraction(k)))
            else:
                if z:
                    yield z

    def inv_poly(self, q):
        return self.ppow(q, Fraction(-1))

    def sign_atom(self, a):
        if a.op == '+':
            return self.sign_poly(self.poly_of_sumatom(a))
        k = ('A', a)
        r = self._sign.get(k)
        if r is not None:
            return r if r != '?' else None
        s = self._ivsign(self.ival_atom(a))
        if a.op == 'sin' and s not in ('+', '-', '0') and not self.no_z3 and self.sign(a.args[0]) == '+' and \
                self.sign(T.sub(PI, a.args[0])) == '+':
            s = '+'
        if s not in ('+', '-', '0') and a.op == 'sum':
            s = self._sumsign(patom(a)) or s
        if s not in ('+', '-', '0'):
            s2 = self._z3sign(patom(a), s)
            s = s2 if s2 is not None else s
        self._sign[k] = s if s is not None else '?'
        return s

    def _z3sign(self, p, s0):
        """Refine sign using z3."""
        if self.no_z3:
            return s0
        if s0 != '-0' and self.z3_entails('>', p):
            return '+'
        if s0 != '+0' and self.z3_entails('<', p):
            return '-'
        if s0 is None:
            if self.z3_entails('>=', p):
                s0 = '+0'
            elif self.z3_entails('<=', p):
                s0 = '-0'
        if s0 is None and self.z3_entails('!=', p):
            return '!='
        if s0 in ('+0', '-0') and self.z3_entails('==', p):
            return '0'
        if s0 in ('+0', '-0') and any(r == '!=' for r, _ in self.facts) and self.z3_entails('!=', p):
            return s0[0]
        return s0

    def entails(self, rel, e):
        """True if the facts entail (e rel 0), False if they entail the
        negation, None otherwise."""
        k = (rel, e)
        if k in self._ent:
            return self._ent[k]
        s = self.sign(e)
        r = None
        if s is not None:
            tab = {'>': {'+': True, '-': False, '0': False, '-0': False},
                   '>=': {'+': True, '0': True, '+0': True, '-': False},
                   '<': {'-': True, '+': False, '0': False, '+0': False},
                   '<=': {'-': True, '0': True, '-0': True, '+': False},
                   '==': {'0': True, '+': False, '-': False, '!=': False},
                   '!=': {'0': False, '+': True, '-': True, '!=': True}}
            r = tab[rel].get(s)
        if r is None and rel in ('==', '!='):
            if self.z3_entails('==', self.poly(e)):
                r = (rel == '==')
            elif self.z3_entails('!=', self.poly(e)):
                r = (rel == '!=')
        self._ent[k] = r
        return r

    # ------------------------------------------------------------- z3
    def z3env(self):
        if self._z3 is None:
            env = Z3Env(self)
            old = self.no_z3
            self.no_z3 = True
            try:
                for rel, e in self.facts:
                    env.add_fact(rel, self.poly(e))
            finally:
                self.no_z3 = old
            self._memo.clear()
            self._sign.clear()
            self._ent.clear()
            self._z3 = env
        return self._z3

    def z3_entails(self, rel, p):
        if self.no_z3:
            return False
        pk = (rel,) + tuple(sorted((mono_key(m), v) for m, v in p.items()))
        r = self._ent.get(pk)
        if r is not None:
            return r
        env = self.z3env()
        r = env.entails(rel, p)
        self._ent[pk] = r
        return r

    no_z3 = False

    def feasible(self):
        """False only if the facts are contradictory."""
        for b in self.bounds.values():
            if b[0] is not None and b[2] is not None:
                if b[0] > b[2] or (b[0] == b[2] and (b[1] or b[3])):
                    return False
        return self.z3env().feasible()

    # ------------------------------------------------------------- normaliser
    def poly(self, e):
        r = self._memo.get(e)
        if r is None:
            r = self._poly(e)
            self._memo[e] = r
        return r

    def poly_of_sumatom(self, a):
        k = ('SA', a)
        r = self._memo.get(k)
        if r is None:
            r = {}
            for t in a.args:
                r = padd(r, self._termpoly(t))
            self._memo[k] = r
        return r

    def _termpoly(self, t):
        """t is a canonical monomial E (as built by to_E)."""
        if t.op == 'c':
            return pconst(t.args[0])
        if t.op == '*':
            coef = F1
            m = {}
            for f in t.args:
                if f.op == 'c':
                    coef *= f.args[0]
                elif f.op == '^' and f.args[1].op == 'c':
                    m[f.args[0]] = m.get(f.args[0], F0) + f.args[1].args[0]
                else:
                    m[f] = m.get(f, F0) + 1
            return {self._mkmono(m): coef}
        if t.op == '^' and t.args[1].op == 'c':
            return {((t.args[0], t.args[1].args[0]),): F1}
        return {((t, F1),): F1}

    @staticmethod
    def _mkmono(d):
        return tuple(sorted(((a, e) for a, e in d.items() if e),
                            key=lambda t: key(t[0])))

    @staticmethod
    def mono_E(m, v=F1):
        fs = []
        if v != 1 or not m:
            fs.append(c(v))
        for a, e in m:
            fs.append(a if e == 1 else mk('^', a, c(e)))
        return fs[0] if len(fs) == 1 else mk('*', *fs)

    def to_E(self, p):
        if not p:
            return ZERO
        ms = sorted(p.items(), key=lambda t: mono_key(t[0]))
        ts = [self.mono_E(m, v) for m, v in ms]
        return ts[0] if len(ts) == 1 else mk('+', *ts)

    def canon(self, e):
        return self.to_E(self.ratcanon(self.poly(e)))

    # product of polynomials
    def pmul(self, p, q):
        if not p or not q:
            return {}
        if len(p) * len(q) > 40000:
            raise TooBig()
        r = {}
        for m1, v1 in p.items():
            for m2, v2 in q.items():
                t = self.mmul(m1, m2)
                if type(t) is tuple:
                    w = r.get(t, F0) + v1 * v2
                    if w:
                        r[t] = w
                    else:
                        r.pop(t, None)
                else:
                    for m, v in t.items():
                        w = r.get(m, F0) + v * v1 * v2
                        if w:
                            r[m] = w
                        else:
                            r.pop(m, None)
        return r

    def mmul(self, m1, m2):
        """product of two monomials: a monomial or a poly"""
        if not m1 and not any(a.op == '+' and e >= 1 for a, e in m2):
            return m2
        if not m2 and not any(a.op == '+' and e >= 1 for a, e in m1):
            return m1
        d = dict(m1)
        expA = None
        for a, e in m2:
            if a.op == 'exp':
                expA = a
                continue
            w = d.get(a, F0) + e
            if w:
                d[a] = w
            else:
                d.pop(a, None)
        special = None
        if expA is not None:
            ex = [a for a in d if a.op == 'exp']
            if ex:
                b = ex[0]
                del d[b]
                special = self.exp_poly(padd(self.poly(b.args[0]),
                                             self.poly(expA.args[0])))
            else:
                d[expA] = F1
        out = None
        # sums with positive integer exponents are expanded; rational
        # constants with exponent >= 1 are folded
        for a in list(d):
            e = d[a]
            if a.op == '+' and e.denominator == 1 and e > 0:
                del d[a]
                q = self.ppow_int(self.poly_of_sumatom(a), int(e))
                out = q if out is None else self.pmul(out, q)
            elif a.op == '+' and e > 1:
                n = e.numerator // e.denominator
                d[a] = e - n
                q = self.ppow_int(self.poly_of_sumatom(a), n)
                out = q if out is None else self.pmul(out, q)
            elif a.op == 'c' and not (0 < e < 1):
                n = e.numerator // e.denominator
                if e - n:
                    d[a] = e - n
                else:
                    del d[a]
                q = pconst(a.args[0] ** n)
                out = q if out is None else self.pmul(out, q)
            elif a.op == 'sign' and e == 2:
                del d[a]
            elif a.op == 'abs' and e.denominator == 1 and e % 2 == 0:
                del d[a]
                q = self.ppow_int(self.poly(a.args[0]), int(e))
                out = q if out is None else self.pmul(out, q)
            elif a.op == 'negone':
                # (-1)^k, square is 1
                if e % 2 == 0:
                    del d[a]
                else:
                    d[a] = F1
        base = self._mkmono(d)
        if out is None and special is None:
            return base
        r = {base: F1}
        if special is not None:
            r = self.pmul(r, special)
        if out is not None:
            r = self.pmul(r, out)
        return r

    def ppow_int(self, p, n):
        if n == 0:
            return pconst(1)
        if n == 1:
            return p
        if len(p) > 1 and len(p) ** min(n, 4) > 6000:
            raise TooBig()
        if n > 60:
            raise TooBig()
        h = self.ppow_int(p, n // 2)
        r = self.pmul(h, h)
        if n % 2:
            r = self.pmul(r, p)
        return r

    # order on monomials that is invariant under multiplication
    def mono_cmp(self, m1, m2):
        """sign of m1 - m2 in a translation invariant total order"""
        if m1 == m2:
            return 0
        d1 = {a: e for a, e in m1 if a.op != 'exp'}
        d2 = {a: e for a, e in m2 if a.op != 'exp'}
        for a in sorted(set(d1) | set(d2), key=key):
            x = d1.get(a, F0) - d2.get(a, F0)
            if x:
                return 1 if x > 0 else -1
        e1 = [a for a, e in m1 if a.op == 'exp']
        e2 = [a for a, e in m2 if a.op == 'exp']
        A = self.poly(e1[0].args[0]) if e1 else {}
        B = self.poly(e2[0].args[0]) if e2 else {}
        D = padd(A, pscale(B, F0 - 1))
        if not D:
            return 0
        lead = min(D, key=mono_key)
        return 1 if D[lead] > 0 else -1

    def split(self, p):
        """poly (>=2 terms) = coef * mono * S ; returns (coef, mono(poly), S atom)"""
        # common power of ordinary atoms
        ms = list(p)
        common = None
        for m in ms:
            d = {a: e for a, e in m if a.op != 'exp'}
            if common is None:
                common = dict(d)
            else:
                for a in list(common):
                    if a in d:
                        common[a] = min(common[a], d[a])
                    else:
                        if common[a] > 0:
                            del common[a]
                for a in d:
                    if a not in common and d[a] < 0:
                        common[a] = d[a]
                for a in list(common):
                    if a not in d and common[a] > 0:
                        del common[a]
        # fix: atoms absent in earlier monomials with positive power dropped
        for a in list(common):
            mn = min(dict(m).get(a, F0) for m in ms)
            if mn:
                common[a] = mn
            else:
                del common[a]
        import functools
        mmin = min(ms, key=functools.cmp_to_key(self.mono_cmp))
        ex = [a for a, e in mmin if a.op == 'exp']
        if ex:
            common[ex[0]] = F1
        cm = self._mkmono(common)
        if cm:
            inv = self.inv_mono(cm)
            q = self.pmul(p, inv)
        else:
            q = p
        if len(q) < 2:
            return None, None, q
        coef = abs(q[min(q, key=functools.cmp_to_key(self.mono_cmp))])
        q = pscale(q, 1 / coef)
        # sign canonicalisation
        s = self.sign_poly(q)
        if s in ('-', '-0'):
            q = pscale(q, Fraction(-1))
            coef = -coef
        elif s not in ('+', '+0', '0'):
            mm = min(q, key=functools.cmp_to_key(self.mono_cmp))
            if q[mm] < 0:
                q = pscale(q, Fraction(-1))
                coef = -coef
        S = self.to_E(q)
        return coef, cm, S

    def inv_mono(self, m):
        d = {}
        r = None
        for a, e in m:
            if a.op == 'exp':
                r = self.exp_poly(pscale(self.poly(a.args[0]), Fraction(-1)))
            else:
                d[a] = -e
        q = {UNIT: F1}
        for a, e in d.items():
            t = self.mmul(UNIT, ((a, e),))
            q = self.pmul(q, self._fixmono({((a, e),): F1}))
        if r is not None:
            q = self.pmul(q, r)
        return q

    def _fixmono(self, p):
        """re-run the atom rules (constants with exponents outside (0,1))"""
        out = {}
        for m, v in p.items():
            t = {UNIT: v}
            for a, e in m:
                if a.op == 'c' and not (0 < e < 1):
                    n = e.numerator // e.denominator
                    t = pscale(t, a.args[0] ** n)
                    if e - n:
                        t = self.pmul(t, {((a, e - n),): F1})
                elif a.op == '+' and e > 0 and e.denominator == 1:
                    t = self.pmul(t, self.ppow_int(self.poly_of_sumatom(a), int(e)))
                else:
                    t = self.pmul(t, {((a, e),): F1})
            out = padd(out, t)
        return out

    def _perfect(self, S):
        """(R, k) with S = R**k for a sum R of two or three monomials"""
        key_ = ('PP', S)
        if key_ in self._memo:
            return self._memo[key_]
        p = self.poly_of_sumatom(S)
        res = None
        for k, sizes in ((2, {3: 2, 6: 3}), (3, {4: 2}), (4, {5: 2})):
            if len(p) not in sizes:
                continue
            roots = []
            for m, v in p.items():
                if any(e.denominator != 1 or e < 0 or e % k for _, e in m):
                    continue
                r = self._kth(v, k)
                if r is not None:
                    roots.append((tuple((a, e/k) for a, e in m), r))
            if len(roots) != sizes[len(p)]:
                continue
            import itertools
            for sg in itertools.product((1, -1), repeat=len(roots) - 1) if k % 2 == 0 else ((1,)*(len(roots) - 1),):
                R = {}
                for (m, r), t in zip(roots, (1,) + tuple(sg)):
                    R = padd(R, {m: r*t})
                if len(R) == len(roots) and self.ppow_int(R, k) == p:
                    res = (R, k)
                    break
            if res:
                break
        self._memo[key_] = res
        return res

    @staticmethod
    def _kth(v, k):
        s = 1
        if v < 0:
            if k % 2 == 0:
                return None
            s, v = -1, -v
        out = []
        for n in (v.numerator, v.denominator):
            r = round(n**(1/k)) if n < 10**12 else None
            if r is None or r**k != n:
                return None
            out.append(r)
        return Fraction(s*out[0], out[1])

    def ppow(self, p, q):
        """p ** q for rational q"""
        q = Fraction(q)
        if not p:
            if q > 0:
                return {}
            if q == 0:
                return pconst(1)
            raise ZeroDivisionError('0 to negative power')
        if q.denominator == 1 and q >= 0:
            return self.ppow_int(p, int(q))
        if len(p) == 1:
            (m, v), = p.items()
            return self._mono_pow(m, v, q)
        coef, cm, S = self.split(p)
        if coef is None:
            return self.ppow(S, q)     # collapsed to a monomial
        rt = self._perfect(S)
        if rt is not None:
            R, k = rt
            sg = self.sign_poly(R)
            if q.denominator == 1 or sg == '+' and coef > 0:
                return self.pmul(self.ppow(R, k*q), self._mono_pow(cm, coef, q))
            if k % 2 == 0 and sg == '-' and coef > 0:
                return self.pmul(self.ppow(pscale(R, Fraction(-1)), k*q), self._mono_pow(cm, coef, q))
        if q.denominator == 1:
            r = {((S, q),): coef ** int(q)}
            if cm:
                r = self.pmul(r, self._mono_pow(cm, F1, q))
            return r
        sg = self.sign_poly(self.poly_of_sumatom(S))
        if sg in ('+', '+0') and coef > 0:
            r = self._fixmono({((S, q),): F1})
            return self.pmul(r, self._mono_pow(cm, coef, q))
        sc = self.sign_poly({cm: coef}) if cm else None
        if sc in ('+', '-') and self.sign_poly(p) == '+':
            # both factors are positive, or both are negative
            if sc == '-':
                S = self.to_E(pscale(self.poly_of_sumatom(S), Fraction(-1)))
            g = self.to_E({cm: coef})
            pS = self.poly_of_sumatom(S)
            self._sign[('S',) + tuple(sorted((mono_key(m), v) for m, v in pS.items()))] = '+'
            return self.pmul(self._fixmono({((S, q),): F1}), self._norm_pow(g if sc == '+' else T.neg(g), c(q)))
        # not known to be positive: opaque
        e = self.to_E(p)
        return patom(mk('rpow', e, c(q)))

    def _mono_pow(self, m, v, q):
        if q.denominator == 1:
            n = int(q)
            r = pconst(v ** n)
            for a, e in m:
                if a.op == 'exp':
                    r = self.pmul(r, self.exp_poly(pscale(self.poly(a.args[0]), q * e)))
                else:
                    r = self.pmul(r, self._fixmono({((a, e * q),): F1}))
            return r
        # fractional power
        r = pconst(1)
        opaque = {}
        if v < 0:
            sgn = -1
        else:
            sgn = 1
        for a, e in m:
            if a.op == 'exp':
                r = self.pmul(r, self.exp_poly(pscale(self.poly(a.args[0]), q * e)))
                continue
            if a.op in ('c', 'k') or e.denominator != 1:
                r = self.pmul(r, self._fixmono({((a, e * q),): F1}))
                continue
            s = self.sign_atom(a)
            if s == '+' or (s == '+0' and (q > 0)):
                r = self.pmul(r, self._fixmono({((a, e * q),): F1}))
            elif s == '-' or (s == '-0' and q > 0):
                na = self.poly(T.neg(a))
                nm, = na.keys()
                # (-|a|)^e : pull sign
                if e % 2 == 1:
                    sgn = -sgn
                b = self.negatom(a)
                r = self.pmul(r, self._fixmono({((b, e * q),): F1}))
            elif e % 2 == 0:
                b = mk('abs', a)
                r = self.pmul(r, self._fixmono({((b, e * q),): F1}))
            else:
                opaque[a] = e
        if sgn < 0 or opaque:
            om = self._mkmono(opaque)
            inner = self.mono_E(om, Fraction(sgn))
            r = self.pmul(r, patom(mk('rpow', inner, c(q))))
        av = abs(v)
        r = self.pmul(r, self.rat_pow(av, q))
        return r

    def negatom(self, a):
        """canonical atom for -a where a<0"""
        if a.op == '+':
            return self.to_E(pscale(self.poly_of_sumatom(a), Fraction(-1)))
        return mk('abs', a)

    def rat_pow(self, v, q):
        r = pconst(1)
        for prime, e in list(factorint(v.numerator).items()) + \
                [(pr, -e) for pr, e in factorint(v.denominator).items()]:
            r = self.pmul(r, self._fixmono({((c(prime), Fraction(e) * q),): F1}))
        return r

    # exp / log --------------------------------------------------------------
    def _by_logs(self, p):
        """fractions combined separately in the coefficient of each product of logarithms"""
        if not any(a.op == '+' and e < 0 for m in p for a, e in m):
            return p
        groups = {}
        for m, v in p.items():
            lg = tuple(t for t in m if t[0].op == 'log')
            groups.setdefault(lg, {})[tuple(t for t in m if t[0].op != 'log')] = v
        out = {}
        for lg, q in groups.items():
            q = self.ratcanon(q)
            out = padd(out, self.pmul(q, {lg: F1}) if lg else q)
        return out

    def exp_poly(self, p):
        p = self._by_logs(p)
        rest = {}
        out = None
        for m, v in p.items():
            # term v * log(X): X**v
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'log':
                X = m[0][0].args[0]
                t = self.ppow(self.poly(X), v)
                out = t if out is None else self.pmul(out, t)
            elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'lambertw' \
                    and v.denominator == 1:
                W = m[0][0]
                t = self.ppow(self.pmul(self.poly(W.args[1]),
                                        {((W, Fraction(-1)),): F1}), v)
                out = t if out is None else self.pmul(out, t)
            else:
                rest[m] = v
        if rest:
            t = patom(mk('exp', self.to_E(rest)))
            out = t if out is None else self.pmul(out, t)
        return out if out is not None else pconst(1)

    def log_poly(self, p):
        p = self.ratcanon(p)
        if not p:
            raise ZeroDivisionError('log 0')
        if len(p) == 1:
            (m, v), = p.items()
            return self._log_mono(m, v)
        coef, cm, S = self.split(p)
        if coef is None:
            return self.log_poly(S)
        if coef > 0 and self.sign_poly(self.poly_of_sumatom(S)) in ('+', '+0'):
            r = patom(mk('log', S))
            return padd(r, self._log_mono(cm, coef))
        return patom(mk('log', self.to_E(p)))

    def _log_mono(self, m, v):
        r = {}
        sgn = 1 if v > 0 else -1
        opaque = {}
        for a, e in m:
            if a.op == 'exp':
                r = padd(r, pscale(self.poly(a.args[0]), e))
                continue
            if a.op == 'c':
                r = padd(r, pscale(self._log_rat(a.args[0]), e))
                continue
            s = self.sign_atom(a)
            if s in ('+', '+0') or e.denominator != 1:
                r = padd(r, pscale(patom(mk('log', a)), e))
            elif s in ('-', '-0'):
                if e % 2 == 1:
                    sgn = -sgn
                r = padd(r, pscale(patom(mk('log', self.negatom(a))), e))
            elif e % 2 == 0:
                r = padd(r, pscale(patom(mk('log', mk('abs', a))), e))
            else:
                opaque[a] = e
        if opaque or sgn < 0:
            r = padd(r, patom(mk('log', self.mono_E(self._mkmono(opaque),
                                                    Fraction(sgn)))))
        r = padd(r, self._log_rat(abs(v)))
        return r

    def _log_rat(self, v):
        r = {}
        for prime, e in factorint(v.numerator).items():
            r = padd(r, pscale(patom(mk('log', c(prime))), Fraction(e)))
        for prime, e in factorint(v.denominator).items():
            r = padd(r, pscale(patom(mk('log', c(prime))), Fraction(-e)))
        return r

    # ---------------------------------------------------------- rational form
    def clear(self, p, denom=None):
        """Multiply p by (nonzero) sum atoms until no sum atom has a negative
        exponent, expanding integer powers.  Returns (numerator, den monomial
        dict of sum atoms)."""
        den = {}
        for _ in range(60):
            S = {}
            for m in p:
                for a, e in m:
                    if a.op == '+' and e < 0:
                        S[a] = max(S.get(a, F0), -e)
            if not S:
                break
            # outermost first: pick one not contained in another
            pick = None
            for a in sorted(S, key=key):
                if not any(b is not a and T.contains(b, a) for b in S):
                    pick = a
                    break
            if pick is None:
                pick = sorted(S, key=key)[0]
            e = S[pick]
            n = -((-e.numerator) // e.denominator)   # ceil
            den[pick] = den.get(pick, 0) + n
            mm = ((pick, Fraction(n)),)
            q = {}
            for m, v in p.items():
                t = self.mmul(m, mm)
                if type(t) is tuple:
                    t = {t: F1}
                q = padd(q, pscale(t, v))
                if len(q) > 4000:
                    raise TooBig()
            p = q
        else:
            raise TooBig()
        # trig
        p = self.trig(p)
        return p, den

    def trig(self, p):
        for _ in range(20):
            hit = None
            for m in p:
                for a, e in m:
                    if a.op == 'sin' and e >= 2:
                        hit = (m, a, e)
                        break
                if hit:
                    break
            if not hit:
                return p
            m, a, e = hit
            v = p[m]
            p = dict(p)
            del p[m]
            d = dict(m)
            d[a] = e - 2
            base = {self._mkmono(d): v}
            cosa = mk('cos', a.args[0])
            one_minus = padd(pconst(1), {((cosa, Fraction(2)),): Fraction(-1)})
            p = padd(p, self.pmul(base, one_minus))
        return p

    def ratcanon(self, p):
        """combine fractions when sum atoms occur in denominators"""
        k = ('RC',) + tuple(sorted((mono_key(m), v) for m, v in p.items()))
        r = self._memo.get(k)
        if r is None:
            r = self._ratcanon(p)
            self._memo[k] = r
        return r

    def _ratcanon(self, p):
        if not any(a.op == '+' and e < 0 for m in p for a, e in m):
            return p
        try:
            num, den = self.clear(p)
        except TooBig:
            return p
        if not num:
            return {}
        if len(p) == 1 and len(num) >= 1:
            pass
        # cancel exact factors
        for S in list(den):
            sp = self.poly_of_sumatom(S)
            while den[S] > 0:
                q = self.exact_div(num, sp)
                if q is None:
                    break
                num = q
                den[S] -= 1
        d = {S: Fraction(-n) for S, n in den.items() if n}
        if not d:
            return num
        if len(num) > 1:
            # factor the numerator content so that it may be an atom^1 times..
            pass
        out = {}
        mm = self._mkmono(d)
        for m, v in num.items():
            t = self.mmul(m, mm)
            if type(t) is tuple:
                t = {t: F1}
            out = padd(out, pscale(t, v))
        return out

    def exact_div(self, p, q):
        """p / q exactly, or None (q has >= 2 terms)."""
        import functools
        ck = functools.cmp_to_key(self.mono_cmp)
        try:
            lq = max(q, key=ck)
        except Exception:
            return None
        cq = q[lq]
        inv = self.inv_mono(lq)
        if len(inv) != 1:
            return None
        (im, iv), = inv.items()
        r = dict(p)
        out = {}
        for _ in range(200):
            if not r:
                return out
            lr = max(r, key=ck)
            t = self.mmul(lr, im)
            if type(t) is not tuple:
                return None
            # ordinary atoms must not get negative powers beyond those in r
            dl = dict(lr)
            for a, e in t:
                if a.op != 'exp' and e < 0 and e < min(dl.get(a, F0), F0):
                    return None
            co = r[lr] * iv / cq
            out = padd(out, {t: co})
            try:
                r = padd(r, pscale(self.pmul({t: F1}, q), -co))
            except TooBig:
                return None
            if len(r) > 500:
                return None
        return None

    # ---------------------------------------------------------- main dispatch
    def _poly(self, e):
        op = e.op
        if op == 'c':
            return pconst(e.args[0])
        if op in ('s', 'k'):
            if op == 'k' and e.args[0] == 'e':
                return patom(mk('exp', ONE))
            return patom(e)
        if op == 'at':
            return patom(mk('at', e.args[0], self.canon(e.args[1])))
        if op == '+':
            r = {}
            for a in e.args:
                r = padd(r, self.poly(a))
            return r
        if op == '*':
            r = pconst(1)
            # multiply monomials first
            ps = sorted((self.poly(a) for a in e.args), key=len)
            for q in ps:
                r = self.pmul(r, q)
            return r
        if op == '^':
            return self._norm_pow(e.args[0], e.args[1])
        if op == 'exp':
            return self.exp_poly(self.poly(e.args[0]))
        if op == 'log':
            return self.log_poly(self.poly(e.args[0]))
        h = FN.get(op)
        if h is not None:
            return h(self, e)
        # uninterpreted
        return patom(mk(op, *[self.canon(a) if isinstance(a, E) else a
                              for a in e.args]))

    def _norm_pow(self, b, x):
        px = self.ratcanon(self.poly(x))
        pb = self.poly(b)
        if is_const(px):
            q = cval(px)
            if q.denominator == 1 and q < 0 or q.denominator != 1:
                pb = self.ratcanon(pb)
            try:
                return self.ppow(pb, q)
            except TooBig:
                return patom(mk('bigpow', self.to_E(pb), c(q)))
        pb = self.ratcanon(pb)
        if is_const(pb) and cval(pb) == 1:
            return pconst(1)
        if not pb:
            if self.sign_poly(px) == '+':
                return {}
            return patom(mk('rpow', ZERO, self.to_E(px)))
        s = self.sign_poly(pb)
        if s == '+':
            return self.exp_poly(self.pmul(px, self.log_poly(pb)))
        if s == '-' and self.is_intsort(px):
            k = self._negone(px)
            return self.pmul(k, self.exp_poly(
                self.pmul(px, self.log_poly(pscale(pb, Fraction(-1))))))
        if s == '+0':
            # split not possible; treat as exp(x log b) formally via rpow atom
            pass
        return patom(mk('rpow', self.to_E(pb), self.to_E(px)))

    def is_intsort(self, p):
        for m, v in p.items():
            if v.denominator != 1:
                return False
            for a, e in m:
                if e.denominator != 1 or e < 0:
                    return False
                if not int_atom(a):
                    return False
        return True

    def _negone(self, px):
        """(-1)**px"""
        r = pconst(1)
        for m, v in px.items():
            n = int(v)
            if n % 2 == 0:
                continue
            if m == UNIT:
                r = pscale(r, Fraction(-1))
            else:
                r = self.pmul(r, patom(mk('negone', self.mono_E(m))))
        return r

    # ---------------------------------------------------------- zero test
    def is_zero(self, e, depth=0):
        STATS['zero_tests'] += 1
        try:
            return self.zero_poly(self.poly(e), depth)
        except TooBig:
            return False

    def zero_poly(self, p, depth=0):
        if not p:
            return True
        if is_const(p):
            return False
        try:
            n, _ = self.clear(p)
        except TooBig:
            return False
        if not n:
            return True
        if is_const(n):
            return False
        # rational powers of sums: S^(1/2) etc. are independent atoms.
        # congruence closure over function atoms
        if depth < 3:
            n2 = self.congruence(n, depth)
            if n2 is not None:
                try:
                    n3, _ = self.clear(n2)
                except TooBig:
                    return False
                if not n3:
                    return True
        # clear again through 'exp' atoms with equal exponents: done by canon
        if self.logprod(n):
            return True
        return depth < 3 and self.contiguous(n, depth)

    def contiguous(self, n, depth):
        """incomplete gamma and beta functions whose parameters differ by integers"""
        ats = {a for m in n for a, _ in m if a.op in ('P', 'I', 'B0')}
        if len(ats) < 2 or len(ats) > 6:
            return False

        def step(x, y):
            d = self.poly(T.sub(y, x))
            if not d:
                return 0
            if is_const(d) and cval(d).denominator == 1 and abs(cval(d)) <= 6:
                return int(cval(d))
            return None
        sub = {}
        try:
            todo = sorted(ats, key=key)
            for a in todo:
                for b in todo:
                    if b is a or b.op != a.op or b in sub:
                        continue
                    if a.op == 'P':
                        if not self.is_zero(T.sub(a.args[1], b.args[1]), 2) or self.sign(a.args[1]) != '+':
                            continue
                        d = step(a.args[0], b.args[0])
                        if not d or d < 0:
                            continue
                        s, z = a.args
                        r = b
                        for i in range(d):      # P(s, z) = P(s+1, z) + z^s e^-z / Gamma(s+1)
                            t = T.add(s, c(i))
                            r = T.add(r, T.mul(T.pw(z, t), T.exp(T.neg(z)),
                                               T.pw(mk('gamma', T.add(t, ONE)), MONE)))
                        sub[a] = r
                        break
                    if a.op == 'B0':
                        z, s = a.args
                        if not self.is_zero(T.sub(z, b.args[0]), 2):
                            continue
                        d = step(s, b.args[1])
                        if not d or d < 0:
                            continue
                        r = b
                        for i in range(d):      # B(z; s, 0) = B(z; s+1, 0) + z^s / s
                            t = T.add(s, c(i))
                            r = T.add(r, T.mul(T.pw(z, t), T.pw(t, MONE)))
                        sub[a] = r
                        break
                    z, p, q = b.args
                    for w in ((a.args, ONE), ((T.sub(ONE, a.args[0]), a.args[2], a.args[1]), MONE)):
                        (za, pa, qa), sg = w
                        if not self.is_zero(T.sub(za, z), 2):
                            continue
                        dp, dq = step(pa, p), step(qa, q)
                        if dp is None or dq is None or self.sign(z) != '+' or \
                                self.sign(T.sub(ONE, z)) != '+':
                            continue
                        r = ZERO
                        cp, cq = pa, qa
                        y = T.sub(ONE, z)

                        def term(u, v, side):
                            # I(u, v) - I(u+1, v) resp. I(u, v+1) - I(u, v)
                            g = T.mul(mk('gamma', T.add(u, v)), T.pw(z, u), T.pw(y, v))
                            den = T.mul(mk('gamma', T.add(u, ONE)), mk('gamma', v)) if side == 0 else \
                                T.mul(mk('gamma', u), mk('gamma', T.add(v, ONE)))
                            return T.mul(g, T.pw(den, MONE))
                        while dp > 0:
                            r = T.add(r, term(cp, cq, 0))
                            cp, dp = T.add(cp, ONE), dp - 1
                        while dq > 0:
                            r = T.sub(r, term(cp, cq, 1))
                            cq, dq = T.add(cq, ONE), dq - 1
                        while dp < 0:
                            cp, dp = T.sub(cp, ONE), dp + 1
                            r = T.sub(r, term(cp, cq, 0))
                        while dq < 0:
                            cq, dq = T.sub(cq, ONE), dq + 1
                            r = T.add(r, term(cp, cq, 1))
                        r = T.add(r, b)           # I(za; pa, qa)
                        sub[a] = r if sg is ONE else T.sub(ONE, r)
                        break
                    if a in sub:
                        break
            if not sub:
                return False
            e = T.subst(self.to_E(n), sub)
            return self.zero_poly(self.poly(e), depth + 1)
        except (ZeroDivisionError, TooBig):
            return False

    def logprod(self, n):
        """sum_i v_i log(A_i) == 0, A_i > 0, through prod_i A_i**v_i == 1"""
        groups = {}
        rest = {}
        for m, v in n.items():
            ls = [(a, e) for a, e in m if a.op == 'log']
            if len(ls) == 1 and ls[0][1] == 1:
                groups.setdefault(tuple(t for t in m if t[0].op != 'log'), []).append((ls[0][0].args[0], v))
            else:
                rest[m] = v
        if not groups or rest or sum(len(g) for g in groups.values()) > 16:
            return False
        try:
            for g in groups.values():
                d = 1
                for _, v in g:
                    d = d*v.denominator//_igcd(d, v.denominator)
                w = [(self.poly(A), int(v*d)) for A, v in g]
                if sum(abs(k) for _, k in w) > 12 or any(self.sign_poly(A) != '+' for A, _ in w):
                    return False
                up, lo = pconst(1), pconst(1)
                for A, k in w:
                    if k > 0:
                        up = self.pmul(up, self.ppow_int(A, k))
                    else:
                        lo = self.pmul(lo, self.ppow_int(A, -k))
                if self.clear(padd(up, pscale(lo, Fraction(-1))))[0]:
                    return False
        except (TooBig, ZeroDivisionError):
            return False
        return True

    def sumzero(self, p):
        """sum_i e(i) with e(i) == 0"""
        fam = None
        el = {}
        rest = {}
        for m, v in p.items():
            ss = [(a, e) for a, e in m if a.op == 'sum']
            if not ss:
                rest = padd(rest, {m: v})
                continue
            if len(ss) > 1 or ss[0][1] != 1 or (fam is not None and ss[0][0].args[:3] != fam):
                return False
            fam = ss[0][0].args[:3]
            others = tuple(t for t in m if t[0].op != 'sum')
            el = padd(el, self.pmul({others: v}, self.poly(ss[0][0].args[3])))
        if fam is None or fam[1].op == 'k':
            return False
        if rest:
            cnt = padd(padd(self.poly(fam[1]), pscale(self.poly(fam[0]), Fraction(-1))), pconst(1))
            if self.sign_poly(cnt) != '+':
                return False
            el = padd(el, self.pmul(rest, self.inv_poly(cnt)))
        try:
            return self.zero_poly(el, 1)
        except (TooBig, ZeroDivisionError):
            return False

    def eliminate(self, d):
        """goal modulo the equational hypotheses: each is solved for an atom that
        occurs linearly"""
        try:
            g, _ = self.clear(self.poly(d))
            hs = []
            for rel, e in self.facts:
                if rel == '==':
                    h, _ = self.clear(self.poly(e))
                    if h and len(h) <= 40:
                        hs.append(h)
        except (TooBig, ZeroDivisionError):
            return False
        return self._elim(g, hs, 0)

    def _elim(self, g, hs, depth):
        if not g:
            return True
        if any(a.op == 'sum' for m in g for a, _ in m) and self.sumzero(g):
            return True
        if depth > 2 or not hs or len(g) > 60:
            return False
        gat = {a for m in g for a, _ in m}
        tried = 0
        for k, h in enumerate(hs):
            deg = {}
            for m in h:
                for a, e in m:
                    deg.setdefault(a, set()).add(e)
            for S in sorted(deg, key=lambda a: (a.op != 'sum', key(a))):
                if S not in gat or deg[S] != {F1} or S.op in ('c', 'k', 'exp', '+'):
                    continue
                if any(a is not S and T.contains(a, S) for m in h for a, _ in m):
                    continue
                A = {tuple(t for t in m if t[0] is not S): v for m, v in h.items() if any(a is S for a, _ in m)}
                B = {m: v for m, v in h.items() if not any(a is S for a, _ in m)}
                tried += 1
                if tried > 6:
                    return False
                if self.sign_poly(A) not in ('+', '-', '!='):
                    continue
                try:
                    val = pscale(self.pmul(B, self.ppow(A, Fraction(-1))), Fraction(-1))

                    def sub(p):
                        out = {}
                        for m, v in p.items():
                            t = {tuple(u for u in m if u[0] is not S): v}
                            for a, e in m:
                                if a is S:
                                    t = self.pmul(t, self.ppow(val, e))
                            out = padd(out, t)
                        return self.clear(out)[0]
                    if self._elim(sub(g), [sub(q) for j, q in enumerate(hs) if j != k], depth + 1):
                        return True
                except (TooBig, ZeroDivisionError):
                    continue
        return False

    def congruence(self, p, depth):
        atoms = {}
        for m in p:
            for a, e in m:
                if a.op not in ('c', 's', 'k', '+', 'at'):
                    atoms.setdefault((a.op, len(a.args)), []).append(a)
                elif a.op == '+':
                    atoms.setdefault(('+', 0), []).append(a)
        ren = {}
        for (op, n), lst in atoms.items():
            lst = sorted(set(lst), key=key)
            for i in range(len(lst)):
                if lst[i] in ren:
                    continue
                for j in range(i):
                    if lst[j] in ren:
                        continue
                    A, B = lst[j], lst[i]
                    if op == '+':
                        same = self.is_zero(T.sub(A, B), depth + 1)
                    elif op in T.BINDERS:
                        same = (A.args[2] is B.args[2] and
                                self.is_zero(T.sub(A.args[0], B.args[0]), depth+1)
                                and self.eqinf(A.args[1], B.args[1], depth+1)
                                and self.is_zero(T.sub(A.args[3], B.args[3]), depth+1))
                    else:
                        same = all((x is y) or (isinstance(x, E) and isinstance(y, E)
                                                and self.is_zero(T.sub(x, y), depth + 1))
                                   for x, y in zip(A.args, B.args))
                    if same:
                        ren[B] = A
                        break
        if not ren:
            return None
        r = {}
        for m, v in p.items():
            t = {UNIT: v}
            for a, e in m:
                t = self.pmul(t, {((ren.get(a, a), e),): F1})
            r = padd(r, t)
        return r

    def eqinf(self, a, b, depth):
        if a is b:
            return True
        return self.is_zero(T.sub(a, b), depth)

    def prove_eq(self, a, b):
        """Prove a == b under the facts (after substituting equalities)."""
        d = T.sub(a, b)
        sub = self.equalities()
        ctx = self
        if sub:
            d = apply_subst(d, sub)
            ren = self.same_families(d)
            if ren:
                d = alpha(d, ren)
            ctx = Ctx()
            for rel, e in self.facts:
                e2 = apply_subst(e, sub)
                if ren:
                    e2 = T.subst(alpha(e2, ren), ren)
                if e2 is ZERO and rel in ('==', '>=', '<='):
                    continue
                ctx.assume(rel, e2)
        try:
            if ctx.is_zero(d):
                return True
        except ZeroDivisionError:
            return False
        # equational hypotheses that could not be solved for a symbol:
        # goal = k * hypothesis for a constant k
        try:
            g, _ = ctx.clear(ctx.poly(d))
            for rel, e in ctx.facts:
                if rel == '==':
                    h, _ = ctx.clear(ctx.poly(e))
                    if not h or len(h) != len(g):
                        continue
                    m0 = next(iter(h))
                    if m0 in g:
                        k = g[m0] / h[m0]
                        if not padd(g, pscale(h, -k)):
                            return True
                    # monomial multiples
                    for m1 in g:
                        t = ctx.pmul({m1: F1}, ctx.inv_mono(m0))
                        k = g[m1] / h[m0]
                        if not padd(g, pscale(ctx.pmul(t, h), -k)):
                            return True
        except (TooBig, ZeroDivisionError):
            pass
        if ctx.eliminate(d):
            return True
        if ctx.splitsums(d):
            return True
        if ctx.sign(d) == '0':
            return True
        return False

    def splitsums(self, d):
        """goal with sums of the same terms over different ranges: each sum is
        written F(hi + 1) - F(lo) with F(x + 1) - F(x) the term at x"""
        sums = []
        for s in T.subterms(d):
            if s.op == 'sum' and s.args[1].op != 'k' and s not in sums:
                sums.append(s)
        if len(sums) < 2 or len(sums) > 12:
            return False
        try:
            g, _ = self.clear(self.poly(d))
            sums = sorted({a for m in g for a, _ in m if a.op == 'sum' and a.args[1].op != 'k'}, key=key)
            if len({s.args[:2] for s in sums}) < 2:
                return False
            rep = {}
            groups = []         # [(widest sum, [(sum, body at the index of the widest)])]

            def ge(a, b):
                return self.entails('>=', T.sub(a, b)) is True
            for s in sums:
                if not ge(T.add(s.args[1], c(1)), s.args[0]):
                    return False
                w = None
                for t in sums:
                    if t is s or not (ge(s.args[0], t.args[0]) and ge(t.args[1], s.args[1])):
                        continue
                    if s.args[:2] == t.args[:2] and key(s) < key(t):
                        continue
                    body = T.subst(s.args[3], {s.args[2]: t.args[2]})
                    if self.is_zero(T.sub(body, t.args[3])):
                        w = t
                        break
                rep[s] = w
            n = 0
            ends = {}
            sub = {}

            def F(w, x):
                nonlocal n
                for (w2, y), v in list(ends.items()):
                    if w2 is not w:
                        continue
                    k = self.poly(T.sub(x, y))
                    if is_const(k) and cval(k).denominator == 1 and abs(cval(k)) <= 4:
                        j = int(cval(k))
                        for i in range(abs(j)):
                            at = T.add(y, c(i if j > 0 else -1 - i))
                            t = T.subst(w.args[3], {w.args[2]: at})
                            v = T.add(v, t) if j > 0 else T.sub(v, t)
                        return v
                n += 1
                ends[(w, x)] = v = T.sym(f'F~{n}')
                return v
            for s in sums:
                w = s
                for _ in range(len(sums)):
                    if rep[w] is None:
                        break
                    w = rep[w]
                sub[s] = T.sub(F(w, T.add(s.args[1], c(1))), F(w, s.args[0]))
            return self.is_zero(T.subst(self.to_E(g), sub))
        except (TooBig, ZeroDivisionError):
            return False

    def same_families(self, d):
        """{index: index} of the sums in d over the same range written differently"""
        fams = {}
        ren = {}
        seen = set()
        todo = [d]
        while todo:
            e = todo.pop()
            if e in seen:
                continue
            seen.add(e)
            if e.op == 'sum':
                lo, hi, idx = e.args[:3]
                k = (self.canon(lo), self.canon(hi), idx.args[0].endswith("'"))
                if fams.setdefault(k, idx) is not idx:
                    ren[idx] = fams[k]
            todo += [t for t in e.args if isinstance(t, E)]
        return ren

    def equalities(self):
        """list of substitutions [(sym, E)] from == facts"""
        out = []
        weak = {}
        both = []
        for rel, e in self.facts:
            if rel not in ('>=', '<='):
                continue
            try:
                q = self.poly(e)
            except (TooBig, ZeroDivisionError):
                continue
            if len(q) > 8:
                continue
            if rel == '<=':
                q = pscale(q, Fraction(-1))
            if frozenset(pscale(q, Fraction(-1)).items()) in weak:
                both.append(e)
            weak[frozenset(q.items())] = e
        for e in [e for rel, e in self.facts if rel == '=='] + both:
            e = apply_subst(e, out)
            if e is ZERO:
                continue
            s = solve_linear(e)
            if s is not None:
                out.append(s)
        return out


def alpha(e, ren, memo=None):
    """rename bound indices"""
    memo = {} if memo is None else memo
    if not isinstance(e, E) or e.op in ('c', 's', 'k'):
        return e
    r = memo.get(e)
    if r is None:
        args = [alpha(t, ren, memo) for t in e.args]
        if e.op == 'sum' and e.args[2] in ren:
            args[2] = ren[e.args[2]]
            args[3] = T.subst(args[3], {e.args[2]: args[2]})
        r = memo[e] = T.rebuild(e, tuple(args))
    return r


def apply_subst(e, sub):
    for s, r in sub:
        e = T.subst(e, {s: r})
    return e


def solve_linear(e):
    """e == 0 : find (sym, expr) with sym linear with constant coefficient
    and not occurring elsewhere.  Prefers symbols not marked as primary."""
    terms = e.args if e.op == '+' else (e,)
    cands = []
    for i, t in enumerate(terms):
        k, s = F1, t
        if t.op == '*' and len(t.args) == 2 and t.args[0].op == 'c':
            k, s = t.args[0].args[0], t.args[1]
        if s.op in ('s', 'at'):
            others = [u for j, u in enumerate(terms) if j != i]
            if any(T.contains(u, s) for u in others):
                continue
            cands.append((s, T.mul(c(-1 / k), T.add(*others) if others else ZERO)))
    if not cands:
        return None
    # prefer solution that is a constant, otherwise the first candidate
    for s, r in cands:
        if r.op == 'c':
            return s, r
    return cands[0]


# ---------------------------------------------------------------- Z3 backend

class Z3Env:
    def __init__(self, ctx):
        self.ctx = ctx
        self.vars = {}
        self.asserts = []
        self.solver = self          # self.solver.add(...) collects assertions
        self.inv = {}
        self.done = set()
        self.exps = []
        self.logs = []
        self._feas = None
        self.linear = []            # the facts that are linear in plain symbols


    def add(self, *fs):
        self.asserts.extend(fs)

    def check(self, extra=(), only=None):
        s = z3.Solver()
        s.set('timeout', self.ctx.z3_timeout if SLOW[0] < 4 or only is not None else self.ctx.z3_timeout // 8)
        s.set('random_seed', 1)
        s.add(*(self.asserts if only is None else only))
        s.add(*extra)
        self.last = s
        return s.check()

    def var(self, a):
        v = self.vars.get(a)
        if v is not None:
            return v
        n = f'v{len(self.vars)}'
        ctx = self.ctx
        if int_atom(a):
            iv = z3.Int(n)
            v = z3.ToReal(iv)
        else:
            v = z3.Real(n)
        self.vars[a] = v
        A = self.solver.add
        op = a.op
        if op == 'k':
            lo, hi = const_bounds(a.args[0])
            A(v > self.q(lo), v < self.q(hi))
        elif op == 'exp':
            t = self.poly(ctx.poly(a.args[0]))
            A(v > 0, (v > 1) == (t > 0), (v == 1) == (t == 0), v >= 1 + t)
            for t2, v2 in self.exps[:6]:
                A((t < t2) == (v < v2), (t == t2) == (v == v2))
            self.exps.append((t, v))
        elif op == 'log':
            t = self.poly(ctx.poly(a.args[0]))
            A(z3.Implies(t > 0, z3.And((v > 0) == (t > 1), (v == 0) == (t == 1),
                                       v <= t - 1)))
            for t2, v2 in self.logs[:6]:
                A(z3.Implies(z3.And(t > 0, t2 > 0),
                             z3.And((t < t2) == (v < v2), (t == t2) == (v == v2))))
            self.logs.append((t, v))
        elif op == '+':
            A(v == self.poly(ctx.poly_of_sumatom(a)))
        elif op == 'erf':
            t = self.poly(ctx.poly(a.args[0]))
            A(v > -1, v < 1, (v > 0) == (t > 0), (v == 0) == (t == 0))
        elif op == 'P':
            s = self.poly(ctx.poly(a.args[0]))
            t = self.poly(ctx.poly(a.args[1]))
            A(z3.Implies(s > 0, z3.And(v >= 0, v < 1, (v > 0) == (t > 0))))
        elif op == 'I':
            t = self.poly(ctx.poly(a.args[0]))
            A(v >= 0, v <= 1, (v > 0) == (t > 0), (v < 1) == (t < 1))
        elif op in ('sin', 'cos'):
            A(v >= -1, v <= 1)
            t = self.poly(ctx.poly(a.args[0]))
            h = self.var(PI) / 2
            if op == 'sin':
                A(z3.Implies(z3.And(t > 0, t < 2*h), v > 0), z3.Implies(z3.And(t < 0, t > -2*h), v < 0),
                  z3.Implies(t == 0, v == 0))
            else:
                A(z3.Implies(z3.And(t > -h, t < h), v > 0), z3.Implies(z3.And(t > h, t < 3*h), v < 0),
                  z3.Implies(t == 0, v == 1))
        elif op == 'atan':
            t = self.poly(ctx.poly(a.args[0]))
            h = self.var(PI) / 2
            A(v > -h, v < h, (v > 0) == (t > 0), (v == 0) == (t == 0))
        elif op == 'gamma':
            t = self.poly(ctx.poly(a.args[0]))
            A(z3.Implies(t > 0, v > 0))
            # log-convexity: Gamma(2m - u) Gamma(u) > Gamma(m)^2
            ga = self.__dict__.setdefault('gammas', [])
            for b, tb, vb in ga:
                for x, tx, vx, y, ty, vy in ((a, t, v, b, tb, vb), (b, tb, vb, a, t, v)):
                    r = ctx.canon(T.sub(T.mul(T.TWO, y.args[0]), x.args[0]))
                    if r.op == 'c' and r.args[0] == 0:
                        A(z3.Implies(z3.And(2*ty > -1, ty != 0), tx*vx > ty*ty*vy*vy))
                    if r.op == 'c' and r.args[0] in (1, 2):
                        A(z3.Implies(z3.And(tx > 0, ty > 0, tx != ty), vx > vy*vy))
            if len(ga) < 12:
                ga.append((a, t, v))
        elif op == 'hyp1f1':
            p, q, t = (self.poly(ctx.poly(g)) for g in a.args)
            A(z3.Implies(z3.And(q > 0, z3.Or(z3.And(p >= 0, t >= 0), z3.And(q >= p, t <= 0))), v > 0))
        elif op in ('besseli', 'besselk'):
            t = self.poly(ctx.poly(a.args[1]))
            q = t > 0
            if op == 'besseli':
                q = z3.And(q, self.poly(ctx.poly(a.args[0])) >= -1)
            A(z3.Implies(q, v > 0))
        elif op == 'psi':
            n0 = a.args[0]
            t = self.poly(ctx.poly(a.args[1]))
            if n0.op == 'c' and n0.args[0] >= 1:
                if int(n0.args[0]) % 2:
                    A(z3.Implies(t > 0, v > 0))
                else:
                    A(z3.Implies(t > 0, v < 0))
        elif op == 'abs':
            t = self.poly(ctx.poly(a.args[0]))
            A(v == z3.If(t >= 0, t, -t))
        elif op == 'sign':
            t = self.poly(ctx.poly(a.args[0]))
            A(v == z3.If(t > 0, z3.RealVal(1), z3.If(t < 0, z3.RealVal(-1), z3.RealVal(0))))
        elif op == 'floor':
            t = self.poly(ctx.poly(a.args[0]))
            A(v <= t, t < v + 1)
        elif op == 'lambertw':
            t = self.poly(ctx.poly(a.args[1]))
            if a.args[0].op == 'c' and a.args[0].args[0] == 0:
                A(v >= -1, z3.Implies(t > 0, v > 0), z3.Implies(t == 0, v == 0))
            else:
                A(v <= -1)
        elif op == 'erfinv':
            t = self.poly(ctx.poly(a.args[0]))
            A((v > 0) == (t > 0), (v == 0) == (t == 0))
        elif op == 'negone':
            A(z3.Or(v == 1, v == -1))
        return v

    @staticmethod
    def q(v):
        return z3.RealVal(f'{v.numerator}/{v.denominator}') if v.denominator != 1 \
            else z3.RealVal(v.numerator)

    def power(self, a, e):
        if e.denominator == 1:
            n = int(e)
            v = self.var(a)
            if n > 0:
                if n > 12:
                    return self.opq(a, e)
                r = v
                for _ in range(n - 1):
                    r = r * v
                return r
            k = (a, n)
            w = self.inv.get(k)
            if w is None:
                w = z3.Real(f'i{len(self.inv)}')
                self.inv[k] = w
                b = self.power(a, Fraction(-n))
                # a is nonzero wherever the inverse is used
                self.solver.add(w * b == 1)
                self.solver.add(v != 0)
                if n % 2 == 0:
                    self.solver.add(w > 0)
                else:
                    self.solver.add((w > 0) == (v > 0))
            return w
        # fractional
        k = (a, e)
        w = self.inv.get(k)
        if w is None:
            w = z3.Real(f'r{len(self.inv)}')
            self.inv[k] = w
            v = self.var(a)
            A = self.solver.add
            if e > 0:
                A(w >= 0, v >= 0, (w > 0) == (v > 0), (w > 1) == (v > 1),
                  (w == 1) == (v == 1))
                if e == FH:
                    A(w * w == v)
                if e < 1:
                    A(z3.Implies(v >= 1, w <= v), z3.Implies(v <= 1, w >= v))
                else:
                    A(z3.Implies(v >= 1, w >= v), z3.Implies(v <= 1, w <= v))
            else:
                A(w > 0, v > 0, (w > 1) == (v < 1), (w == 1) == (v == 1))
                if e == -FH:
                    A(w * w * v == 1)
        return w

    def opq(self, a, e):
        k = (a, e)
        w = self.inv.get(k)
        if w is None:
            w = z3.Real(f'o{len(self.inv)}')
            self.inv[k] = w
            if int(e) % 2 == 0:
                self.solver.add(w >= 0)
            else:
                self.solver.add((w > 0) == (self.var(a) > 0))
        return w

    def poly(self, p):
        r = None
        for m, v in sorted(p.items(), key=lambda t: mono_key(t[0])):
            t = self.q(v) if (v != 1 or not m) else None
            for a, e in m:
                f = self.power(a, e)
                t = f if t is None else t * f
            r = t if r is None else r + t
        return r if r is not None else z3.RealVal(0)

    def rel(self, rel, p):
        t = self.poly(p)
        return {'>': t > 0, '>=': t >= 0, '<': t < 0, '<=': t <= 0,
                '==': t == 0, '!=': t != 0}[rel]

    @staticmethod
    def islinear(p):
        return all(len(m) <= 1 and all(a.op == 's' and k == 1 for a, k in m) for m in p)

    def add_fact(self, rel, p):
        f = self.rel(rel, p)
        self.solver.add(f)
        if self.islinear(p):
            self.linear.append(f)

    def entails(self, rel, p):
        STATS['z3_calls'] += 1
        t0 = time.time()
        try:
            f = self.rel(rel, p)
            lin = self.islinear(p)
            if lin and len(self.linear) < len(self.asserts):
                r = self.check([z3.Not(f)], self.linear)
                if r == z3.unsat:
                    STATS['z3_time'] += time.time() - t0
                    return True
            t1 = time.time()
            r = self.check([z3.Not(f)])
            if lin and r == z3.unknown and time.time() - t1 > 1:
                SLOW[0] += 1
        except z3.Z3Exception:
            r = None
        STATS['z3_time'] += time.time() - t0
        return r == z3.unsat

    def feasible(self):
        STATS['z3_calls'] += 1
        t0 = time.time()
        r = self.check()
        STATS['z3_time'] += time.time() - t0
        return r != z3.unsat

    def model(self, syms):
        """values (Fractions) for the given symbols, or None"""
        r = self.check()
        if r != z3.sat:
            return None
        m = self.last.model()
        out = {}
        for s in syms:
            v = self.vars.get(s)
            if v is None:
                continue
            x = m.eval(v, model_completion=True)
            try:
                if z3.is_algebraic_value(x):
                    x = x.approx(20)
                out[s] = Fraction(x.numerator_as_long(), x.denominator_as_long())
            except Exception:
                pass
        return out


FN = {}


def int_atom(a):
    if a.op == 's':
        return a.args[1] == 'i'
    if a.op == 'at':
        return a.args[0].startswith('i:')
    if a.op == 'sum':
        return _int_sorted(a.args[3])
    return a.op == 'floor'


def _int_sorted(e):
    if e.op == 'c':
        return e.args[0].denominator == 1
    if e.op in ('+', '*'):
        return all(_int_sorted(t) for t in e.args)
    return int_atom(e)


def fnrule(name):
    def deco(f):
        FN[name] = f
        return f
    return deco


from . import rules  # noqa: E402,F401  (registers function rules)
