"""
Term language of the verifier: hash-consed expression DAG over the reals.

An ``E`` is one of
   ('c', Fraction)            rational constant
   ('s', name, sort)          symbol, sort 'r' (real) or 'i' (integer)
   ('k', name)                mathematical constant (pi, euler, ...)
   ('+', e1, e2, ...)         sum
   ('*', e1, e2, ...)         product
   ('^', base, exponent)
   (fn, args...)              function application
   ('sum', fam, body)         sum over an index family (see below)
   ('int', var, lo, hi, body) definite integral, var a bound symbol
"""
from fractions import Fraction

_table = {}


class E:
    __slots__ = ('op', 'args', '_key', '_free', '__weakref__')

    def __repr__(self):
        return key(self)


def mk(op, *args):
    k = (op,) + tuple(id(a) if isinstance(a, E) else ('v', a) for a in args)
    e = _table.get(k)
    if e is None:
        e = E.__new__(E)
        e.op = op
        e.args = args
        e._key = None
        e._free = None
        _table[k] = e
    return e


def key(e):
    if e._key is None:
        op = e.op
        if op == 'c':
            s = str(e.args[0])
        elif op == 's':
            s = e.args[0]
        elif op == 'k':
            s = e.args[0]
        elif op in ('+', '*'):
            s = '(' + op.join(key(a) for a in e.args) + ')'
        elif op == '^':
            s = key(e.args[0]) + '^' + '(' + key(e.args[1]) + ')'
        else:
            s = op + '(' + ','.join(key(a) if isinstance(a, E) else str(a)
                                    for a in e.args) + ')'
        if len(s) > 400:
            import hashlib
            s = s[:300] + '..#' + hashlib.md5(s.encode()).hexdigest()
        e._key = s
    return e._key


def c(v):
    if not isinstance(v, Fraction):
        v = Fraction(v)
    return mk('c', v)


ZERO = c(0)
ONE = c(1)
MONE = c(-1)
HALF = c(Fraction(1, 2))
TWO = c(2)


def sym(name, sort='r'):
    return mk('s', name, sort)


def const(name):
    return mk('k', name)


PI = const('pi')
EULER = const('euler')


def is_c(e, v=None):
    return e.op == 'c' and (v is None or e.args[0] == v)


def add(*es):
    acc = Fraction(0)
    out = []
    for e in es:
        if e.op == '+':
            for a in e.args:
                if a.op == 'c':
                    acc += a.args[0]
                else:
                    out.append(a)
        elif e.op == 'c':
            acc += e.args[0]
        else:
            out.append(e)
    if acc != 0 or not out:
        out.append(c(acc))
    if len(out) == 1:
        return out[0]
    return mk('+', *out)


def mul(*es):
    acc = Fraction(1)
    out = []
    for e in es:
        if e.op == '*':
            for a in e.args:
                if a.op == 'c':
                    acc *= a.args[0]
                else:
                    out.append(a)
        elif e.op == 'c':
            acc *= e.args[0]
        else:
            out.append(e)
    if acc == 0:
        return ZERO
    if acc != 1 or not out:
        out.insert(0, c(acc))
    if len(out) == 1:
        return out[0]
    return mk('*', *out)


def neg(e):
    return mul(MONE, e)


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def pw(b, x):
    if x.op == 'c':
        q = x.args[0]
        if q == 0:
            return ONE
        if q == 1:
            return b
        if b.op == 'c' and q.denominator == 1 and abs(q) < 2000:
            if b.args[0] != 0 or q > 0:
                return c(b.args[0] ** int(q))
        if b.op == '^' and b.args[1].op == 'c' and q.denominator == 1 \
                and b.args[1].args[0].denominator == 1:
            return pw(b.args[0], c(q * b.args[1].args[0]))
    return mk('^', b, x)


def div(a, b):
    if b.op == 'c' and b.args[0] != 0:
        return mul(c(1 / b.args[0]), a)
    if a is b:
        return ONE
    return mul(a, pw(b, MONE))


def fn(name, *args):
    return mk(name, *args)


def exp(a):
    if is_c(a, 0):
        return ONE
    if a.op == 'log':
        return a.args[0]
    return fn('exp', a)


def log(a):
    if is_c(a, 1):
        return ZERO
    if a.op == 'exp':
        return a.args[0]
    return fn('log', a)


def sqrt(a):
    return pw(a, HALF)


# --------------------------------------------------------------------------
# Families.  A family is a sequence index set.  ('seq', name, n) : indices of
# the user's sequence(s) of common length n; ('range', lo, hi): integers
# lo..hi inclusive (hi may be '+inf').  A 'sum' node is
#      mk('sum', famkind, famname, lo, hi, idxsym, body)
# with idx symbol bound in body.  For 'seq' families elements x[i] are
# mk('at', 'x', idxsym).
# --------------------------------------------------------------------------

def at(seqname, idx):
    return mk('at', seqname, idx)


def ssum(lo, hi, idx, body):
    return mk('sum', lo, hi, idx, body)


def integral(lo, hi, var, body):
    return mk('int', lo, hi, var, body)


BINDERS = ('sum', 'int')


def free(e):
    """Free symbols of e (as a frozenset of E)."""
    if e._free is None:
        if e.op == 's':
            f = frozenset((e,))
        elif e.op in ('c', 'k'):
            f = frozenset()
        elif e.op in BINDERS:
            lo, hi, idx, body = e.args
            f = (free(lo) | free(hi) | (free(body) - {idx}))
        else:
            f = frozenset()
            for a in e.args:
                if isinstance(a, E):
                    f |= free(a)
        e._free = f
    return e._free


def subst(e, m, memo=None):
    """Substitute nodes (dict E -> E); occurrences of a bound symbol inside its
    binder are left alone and capture is avoided by renaming."""
    if memo is None:
        memo = {}
    r = m.get(e)
    if r is not None:
        return r
    r = memo.get(e)
    if r is not None:
        return r
    if e.op in ('c', 's', 'k'):
        r = e
    elif e.op in BINDERS:
        lo, hi, idx, body = e.args
        m2 = {k: v for k, v in m.items() if idx not in free(k)}
        if any(idx in free(v) for v in m2.values()):
            idx2 = sym(idx.args[0] + "'", idx.args[-1])
            body = subst(body, {idx: idx2})
            idx = idx2
        same = len(m2) == len(m)
        new = (subst(lo, m, memo), subst(hi, m, memo), idx,
               subst(body, m2, memo if same and idx is e.args[2] else None))
        r = rebuild(e, new)
    else:
        new = tuple(subst(a, m, memo) if isinstance(a, E) else a
                    for a in e.args)
        r = rebuild(e, new)
    memo[e] = r
    return r


def rebuild(e, new):
    if all(x is y for x, y in zip(new, e.args)):
        return e
    if e.op == '+':
        return add(*new)
    if e.op == '*':
        return mul(*new)
    if e.op == '^':
        return pw(*new)
    if e.op == 'exp':
        return exp(*new)
    if e.op == 'log':
        return log(*new)
    return mk(e.op, *new)


def contains(e, s, memo=None):
    if e is s:
        return True
    if e.op in ('c', 's', 'k'):
        return False
    if e.op in BINDERS and e.args[2] in free(s):
        return contains(e.args[0], s) or contains(e.args[1], s)
    return any(isinstance(a, E) and contains(a, s) for a in e.args)


def size(e, seen=None):
    if seen is None:
        seen = set()
    if e in seen:
        return 0
    seen.add(e)
    return 1 + sum(size(a, seen) for a in e.args if isinstance(a, E))


def subterms(e, seen=None):
    if seen is None:
        seen = set()
    if e in seen:
        return
    seen.add(e)
    yield e
    for a in e.args:
        if isinstance(a, E):
            yield from subterms(a, seen)


# --------------------------------------------------------------------------
# Symbolic differentiation
# --------------------------------------------------------------------------

class NoDerivative(Exception):
    pass


def diff(e, x, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(e)
    if r is None:
        r = _diff(e, x, memo)
        memo[e] = r
    return r


def _diff(e, x, memo):
    if e is x:
        return ONE
    if x not in free(e):
        return ZERO
    op = e.op
    a = e.args

    def d(t):
        return diff(t, x, memo)
    if op == '+':
        return add(*[d(t) for t in a])
    if op == '*':
        out = []
        for i, t in enumerate(a):
            dt = d(t)
            if dt is not ZERO:
                out.append(mul(*(a[:i] + (dt,) + a[i+1:])))
        return add(*out)
    if op == '^':
        b, p = a
        if x not in free(p):
            return mul(p, pw(b, sub(p, ONE)), d(b))
        if x not in free(b):
            return mul(e, log(b), d(p))
        return mul(e, add(mul(d(p), log(b)), mul(p, d(b), pw(b, MONE))))
    if op == 'exp':
        return mul(e, d(a[0]))
    if op == 'log':
        return mul(d(a[0]), pw(a[0], MONE))
    if op == 'sin':
        return mul(fn('cos', a[0]), d(a[0]))
    if op == 'cos':
        return mul(MONE, fn('sin', a[0]), d(a[0]))
    if op == 'tan':
        return mul(pw(fn('cos', a[0]), c(-2)), d(a[0]))
    if op == 'atan':
        return mul(pw(add(ONE, pw(a[0], TWO)), MONE), d(a[0]))
    if op == 'asin':
        return mul(pw(sub(ONE, pw(a[0], TWO)), c(Fraction(-1, 2))), d(a[0]))
    if op == 'acos':
        return mul(MONE, pw(sub(ONE, pw(a[0], TWO)), c(Fraction(-1, 2))), d(a[0]))
    if op == 'erf':
        return mul(TWO, pw(PI, c(Fraction(-1, 2))),
                   exp(neg(pw(a[0], TWO))), d(a[0]))
    if op == 'erfinv':
        # y = erfinv(u): dy/du = sqrt(pi)/2 exp(y^2)
        return mul(HALF, sqrt(PI), exp(pw(e, TWO)), d(a[0]))
    if op == 'gamma':
        return mul(e, fn('psi', ZERO, a[0]), d(a[0]))
    if op in ('ite>', 'ite>=', 'ite=='):
        if x in free(a[0]):
            raise NoDerivative(op)
        return fn(op, a[0], d(a[1]), d(a[2]))
    if op == 'psi':
        if x in free(a[0]):
            raise NoDerivative(op)
        return mul(fn('psi', add(a[0], ONE), a[1]), d(a[1]))
    if op == 'B0':                     # integral of t^(a-1)/(1-t) from 0 to x
        if x in free(a[1]):
            return _pd(e, x, d)
        return mul(pw(a[0], sub(a[1], ONE)), pw(sub(ONE, a[0]), MONE), d(a[0]))
    if op == 'P':                      # lower regularised incomplete gamma
        if x in free(a[0]):
            return _pd(e, x, d)
        return mul(pw(a[1], sub(a[0], ONE)), exp(neg(a[1])),
                   pw(fn('gamma', a[0]), MONE), d(a[1]))
    if op == 'I':                      # regularised incomplete beta (x, a, b)
        z, p, q = a
        if x in free(p) or x in free(q):
            return _pd(e, x, d)
        return mul(pw(z, sub(p, ONE)), pw(sub(ONE, z), sub(q, ONE)),
                   fn('gamma', add(p, q)), pw(fn('gamma', p), MONE),
                   pw(fn('gamma', q), MONE), d(z))
    if op == 'besseli':
        if x in free(a[0]):
            return _pd(e, x, d)
        return mul(HALF, add(fn('besseli', sub(a[0], ONE), a[1]),
                             fn('besseli', add(a[0], ONE), a[1])), d(a[1]))
    if op == 'besselk':
        if x in free(a[0]):
            return _pd(e, x, d)
        return mul(c(Fraction(-1, 2)), add(fn('besselk', sub(a[0], ONE), a[1]),
                             fn('besselk', add(a[0], ONE), a[1])), d(a[1]))
    if op == 'hyp2f1' and x not in free(a[0]) and x not in free(a[1]) and x not in free(a[2]):
        for u, v in ((a[0], a[1]), (a[1], a[0])):
            if sub(a[2], u) is ONE:     # z F' = u ((1 - z)^-v - F) for 2F1(u, v; u+1; z)
                return mul(u, sub(pw(sub(ONE, a[3]), neg(v)), e), pw(a[3], MONE), d(a[3]))
    if op == 'lambertw':
        w = e
        return mul(w, pw(a[1], MONE), pw(add(ONE, w), MONE), d(a[1]))
    if op == 'abs':
        return mul(fn('sign', a[0]), d(a[0]))
    if op == 'sum':
        lo, hi, idx, body = a
        if x in free(lo) or x in free(hi):
            raise NoDerivative(op)
        return ssum(lo, hi, idx, d(body))
    if op == 'int':
        lo, hi, v, body = a
        out = []
        if x in free(hi):
            out.append(mul(subst(body, {v: hi}), d(hi)))
        if x in free(lo):
            out.append(mul(MONE, subst(body, {v: lo}), d(lo)))
        if x in (free(body) - {v}):
            out.append(integral(lo, hi, v, diff(body, x)))
        return add(*out)
    return _pd(e, x, d)


def _pd(e, x, d):
    """Generic chain rule: partial derivatives as formal function symbols."""
    out = []
    for i, t in enumerate(e.args):
        if isinstance(t, E) and x in free(t):
            dt = d(t)
            if dt is not ZERO:
                out.append(mul(_formal(e, i), dt))
    return add(*out)


def _formal(e, i):
    if e.op.startswith('D['):
        inside, base = e.op[2:].split(']', 1)
        idx = sorted([int(t) for t in inside.split(',')] + [i])
        name = 'D[' + ','.join(map(str, idx)) + ']' + base
    else:
        name = f'D[{i}]{e.op}'
    return mk(name, *e.args)
