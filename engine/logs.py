"""
Inequalities between positive terms through their logarithms: u < v iff
log u < log v.  Facts u - v rel 0 with u, v > 0 are added as facts about the
logarithms, and a goal E*Q + R rel 0 (E a transcendental factor, Q of known
sign) is taken to log E rel log(-R/Q).  A fallback, used for goals only.
"""
import time
from fractions import Fraction
from . import terms as T
from .norm import Ctx, TooBig, mono_key

F1 = Fraction(1)
FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}
ERR = (ZeroDivisionError, ValueError, TooBig, RecursionError, OverflowError)


def _pw(a, e):
    """is a**e transcendental?"""
    if a.op in ('exp', '^'):
        return True
    return a.op == 'k' and a.args[0] == 'e'


def _trans(m):
    return any(_pw(a, e) or e.denominator != 1 for a, e in m)


def neg(p):
    return {m: -v for m, v in p.items()}


def images(ctx, rel, p, every=False):
    """log(u) rel log(v) for the splits p = u - v with u, v > 0"""
    out = []
    if len(p) < 2 or len(p) > 8:
        return out
    for m in sorted(p, key=mono_key):
        if not every and not _trans(m):
            continue
        cm = {m: p[m]}
        rest = {k: v for k, v in p.items() if k != m}
        s1 = ctx.sign_poly(cm)
        if s1 not in ('+', '-'):
            continue
        s2 = ctx.sign_poly(rest)
        if s1 == '+' and s2 == '-':
            out.append((rel, ctx.to_E(cm), ctx.to_E(neg(rest))))
        elif s1 == '-' and s2 == '+':
            out.append((FLIP[rel], ctx.to_E(neg(cm)), ctx.to_E(rest)))
    return out


def squares(ctx, rel, p):
    """u**2 - v**2 rel 0 for p = u - v, u, v >= 0, v a monomial with a square root"""
    out = []
    if not 1 <= len(p) <= 8:
        return out
    for m in sorted(p, key=mono_key):
        if not any(e.denominator == 2 for _, e in m):
            continue
        cm = {m: p[m]}
        rest = {k: v for k, v in p.items() if k != m}
        s1, s2 = ctx.sign_poly(cm), ctx.sign_poly(rest)
        if s1 in ('+', '+0') and s2 in ('-', '-0', '0'):
            rl = rel
        elif s1 in ('-', '-0') and s2 in ('+', '+0', '0'):
            rl = FLIP[rel]
        else:
            continue
        sq = dict(ctx.pmul(cm, cm))
        for k, v in ctx.pmul(rest, rest).items():
            sq[k] = sq.get(k, 0) - v
        out.append((rl, ctx.to_E({k: v for k, v in sq.items() if v})))
    return out


def common(ctx, p):
    """p divided by its common monomial factor of known strict sign, and the sign"""
    com = None
    for m in p:
        d = dict(m)
        if com is None:
            com = d
        else:
            com = {a: min(e, d[a]) if e > 0 else max(e, d[a]) for a, e in com.items()
                   if a in d and (d[a] > 0) == (e > 0)}
    # every negative power, too
    neg_ = {}
    for m in p:
        for a, e in m:
            if e < 0:
                neg_[a] = min(neg_.get(a, 0), e)
    com = dict(com or {})
    for a, e in neg_.items():
        if com.get(a, 0) >= 0:
            com[a] = e
        else:
            com[a] = e
    if not com:
        return p, '+'
    f = tuple(sorted(((a, e) for a, e in com.items() if e != 0), key=lambda t: (T.key(t[0]), t[1])))
    s = ctx.sign_poly({f: F1})
    if s not in ('+', '-'):
        return p, '+'
    return ctx.pmul(p, {tuple((a, -e) for a, e in f): F1}), s


def goal_forms(ctx, rel, p):
    """equivalent goals (rel, E)"""
    out = []
    p, s = common(ctx, p)
    if s == '-':
        rel = FLIP[rel]
    out.append((rel, ctx.to_E(p)))
    if len(p) > 1 and all(len(m) == 1 and m[0][0].op == 'log' and m[0][1] == 1 and v.denominator == 1 and abs(v) <= 8
                          for m, v in p.items()):
        # sum of n*log(a): the product of a**n against 1
        e = T.ONE
        for m, v in sorted(p.items(), key=lambda t: mono_key(t[0])):
            a = m[0][0].args[0]
            if ctx.entails('>', a) is not True:
                break
            e = T.mul(e, T.pw(a, T.c(v)))
        else:
            q, s = common(ctx, ctx.ratcanon(ctx.poly(T.sub(e, T.ONE))))
            out.insert(0, (rel if s == '+' else FLIP[rel], ctx.to_E(q)))
    trs = {}
    for m in p:
        k = tuple((a, e) for a, e in m if _pw(a, e) or e.denominator != 1)
        if k:
            trs.setdefault(k, {})[tuple((a, e) for a, e in m if not (_pw(a, e) or e.denominator != 1))] = p[m]
    for k, q in trs.items():
        rest = {m: v for m, v in p.items() if tuple((a, e) for a, e in m if _pw(a, e) or e.denominator != 1) != k}
        if not rest:
            continue
        s1 = ctx.sign_poly(q)
        s2 = ctx.sign_poly(rest)
        if s1 not in ('+', '-') or s2 not in ('+', '-'):
            continue
        full = ctx.to_E({k: F1})
        Q = ctx.to_E(q)
        if s1 == '+' and s2 == '-':
            out.append((rel, T.sub(T.log(T.mul(full, Q)), T.log(ctx.to_E(neg(rest))))))
        elif s1 == '-' and s2 == '+':
            out.append((FLIP[rel], T.sub(T.log(T.mul(full, ctx.to_E(neg(q)))), T.log(ctx.to_E(rest)))))
    if not trs:
        for rl, u, v in images(ctx, rel, p, True):
            out.append((rl, T.sub(T.log(u), T.log(v))))
    return out


def shift(ctx, e):
    """x = l + t where a fact bounds x - l below or above by a sign; equalities substituted"""
    for frel, fe in list(ctx.facts):
        if frel != '==':
            continue
        lin = ctx._linear(fe)
        if lin is not None:
            s, k, b = lin
            sub = {s: T.c(-b/k)}
            c2 = Ctx()
            for r, f in ctx.facts:
                g = T.subst(f, sub)
                if T.free(g):
                    c2.assume(r, g)
            ctx, e = c2, T.subst(e, sub)
    for frel, fe in ctx.facts:
        if frel not in ('<', '<=', '>', '>='):
            continue
        try:
            p = ctx.poly(fe)
        except ERR:
            continue
        if len(p) != 2 or any(len(m) != 1 or m[0][1] != 1 or m[0][0].op != 's' or m[0][0].args[1] != 'r' for m in p):
            continue
        if sorted(p.values()) != [-1, 1]:
            continue
        x = [m for m in p if p[m] == 1][0][0][0]
        l = [m for m in p if p[m] == -1][0][0][0]
        if 'x' not in x.args[0] and 'z' not in x.args[0]:
            x, l = l, x
        t = T.sym('t_' + x.args[0])
        sub = {x: T.add(l, t)}
        c2 = Ctx()
        for r, f in ctx.facts:
            g = T.subst(f, sub)
            if T.free(g):
                c2.assume(r, Ctx().canon(g) if len(T.free(g)) <= 2 else g)
        return c2, T.subst(e, sub)
    return ctx.clone(), e


def entails(ctx, rel, e, seconds=6.0):
    t0 = time.time()
    try:
        if not ctx.feasible():
            return True
        ctx = ctx.clone()
        seen = set()
        for sh in (False, True):
            if sh:
                ctx, e = shift(ctx, e)
                if not ctx.feasible():
                    return True
            for lg in (False, True):
                c2 = ctx.clone()
                n = 0
                if lg:
                    for frel, fe in list(ctx.facts):
                        if frel == '!=' or time.time() - t0 > seconds/2:
                            continue
                        p = ctx.poly(fe)
                        if any(a.op == 'log' for m in p for a, _ in m):
                            # logarithms of products are expanded here, with the signs known
                            c2.assume(frel, ctx.to_E(p))
                            n += 1
                        p, s = common(ctx, p)
                        if s == '-':
                            frel = FLIP[frel]
                        for rl, u, v in images(ctx, frel, p, any(_trans(m) for m in p)):
                            c2.assume(rl, T.sub(T.log(u), T.log(v)))
                            n += 1
                        for rl, g in squares(ctx, frel, p):
                            c2.assume(rl, g)
                            n += 1
                forms = goal_forms(c2, rel, c2.poly(e))
                for rl, g in forms:
                    if time.time() - t0 > seconds:
                        return None
                    if (n, rl, g) in seen:
                        continue
                    seen.add((n, rl, g))
                    if c2.entails(rl, g) is True:
                        return True
    except ERR:
        return None
    return None
