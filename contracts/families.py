"""
Obligation generators: each listed property, instantiated for every
distribution from its specification functions (contracts.dists).
"""
import copy
import json
import os
from fractions import Fraction
from engine.lab import REG
from engine.lab import (ob, Dom, REAL, POS, NONNEG, GT, GE, LT, LE, OPEN, CLOSED, INT, SEQ, FDom, Env, Skip)
from .dists import DISTS

API = json.load(open(os.path.join(os.path.dirname(__file__), 'api.json')))
XFUN = ('pdf', 'logpdf', 'pmf', 'logpmf', 'cdf', 'logcdf', 'sf', 'logsf')
UNIVARIATE = list(DISTS)


class FM:
    """exact-rational stand-in for m, used only to sample points of a support"""
    inf = None
    ninf = None
    pi = Fraction(355, 113) - Fraction(1, 3000000)

    @staticmethod
    def mpf(x):
        return Fraction(x)


class XDom(Dom):
    """a point of (or outside) the support; symbolic facts come from the body"""

    def __init__(self, d, where='in', **k):
        sort = 'i' if d.kind == 'disc' else 'r'
        super().__init__(sort=sort, **k)
        self.d, self.where = d, where

    def bounds(self, env):
        return None, None

    def sample(self, rng, env, dic=()):
        lo, hi = self.d.spec['support'](FM, *[env[n] for n in self.d.pn])
        w = self.where
        if w == 'in':
            r = Dom(self.sort, lo, hi, self.d.kind == 'disc', self.d.kind == 'disc', pool=self.pool)
        elif w == 'below':
            if lo is None:
                raise Skip()
            r = Dom(self.sort, None, lo - (1 if self.sort == 'i' else 0), hi_in=self.sort == 'i')
        elif w == 'above':
            if hi is None:
                raise Skip()
            r = Dom(self.sort, hi + (1 if self.sort == 'i' else 0), None, lo_in=self.sort == 'i')
        else:
            q = rng.random()
            if q < 0.7:
                r = Dom(self.sort, lo, hi, True, True)
            else:
                r = Dom(self.sort, None, None)
        return r.sample(rng, env, dic)


def isfin(m, v):
    return v is not None and not m.isinf(v) if not isinstance(v, int) else True


def supp(L, d, ps):
    """(lo, hi) with None for infinite ends"""
    lo, hi = d.spec['support'](L.m, *ps)
    f = lambda v: None if v is None or (not isinstance(v, int) and L.cond(L.m.isinf(v))) else v
    return f(lo), f(hi)


def pvals(d, a):
    return [a[n] for n in d.pn]


def modname(d):
    return 'distributions.' + d.name


def M(L, d):
    return L.mod(modname(d))


def has(d, f):
    return f in API[d.name]


def fn(d, f):
    return f'mpsci.distributions.{d.name}.{f}'


def call(mod, d, f, *args):
    """call a parameter function with the distribution's parameters"""
    return getattr(mod, f)(*args)


def pcall(mod, d, f, ps, lead=()):
    if d.name == 'pareto' and f == 'var':
        b, l, s = ps
        return mod.var(b, loc=l, scale=s)
    return getattr(mod, f)(*lead, *ps)


def clipped(args, lo=Fraction(1, 8), hi=30):
    """parameters with positive domains: sampling range of the cross-checks"""
    out = []
    for n, dm in args:
        if isinstance(dm, Dom) and not isinstance(dm, XDom) and dm.sort == 'r' and dm.lo == 0 and dm.hi is None \
                and dm.clip is None:
            dm = copy.copy(dm)
            dm.clip = (lo, hi)
            dm.soft = True
        out.append((n, dm))
    return out


def add(prop, d, label, args, body, funcs, **k):
    if prop == 'C06' or any(f in d.slow for f in funcs) or prop == 'C09' and 'median' in label:
        args = clipped(args)
    ob(prop, f'{d.name}.{label}', args, body, funcs=[fn(d, f) for f in funcs], mods=[modname(d)], **k)


def inside(L, d, x, ps, closed=False):
    lo, hi = supp(L, d, ps)
    if lo is not None:
        L.assume(x >= lo if (closed or d.kind == 'disc') else x > lo)
    if hi is not None:
        L.assume(x <= hi if (closed or d.kind == 'disc') else x < hi)
    return lo, hi


def dens(d):
    return ('pmf', 'logpmf') if d.kind == 'disc' else ('pdf', 'logpdf')


SLOW = dict(samples=4)


def opts(d, *fs):
    k = {}
    if any(f in d.slow for f in fs):
        k['samples'] = 5
        k['tol'] = '1e-12'
    for f in fs:
        if f in d.tol:
            k['tol'] = d.tol[f]
    return k


def spec_density(d, L, x, ps):
    if d.get('pdf'):
        return d.get('pdf')(L.m, x, *ps)
    return L.m.exp(d.get('logpmf' if d.kind == 'disc' else 'logpdf')(L.m, x, *ps))


# ------------------------------------------------------------------ C02

def c02(d):
    pf, lf = dens(d)
    fs = [f for f in XFUN if has(d, f)]
    want = {'below': dict(pdf=0, pmf=0, logpdf='-inf', logpmf='-inf', cdf=0, sf=1, logcdf='-inf', logsf=0),
            'above': dict(pdf=0, pmf=0, logpdf='-inf', logpmf='-inf', cdf=1, sf=0, logcdf=0, logsf='-inf')}

    def val(L, v):
        return -L.inf if v == '-inf' else L.m.mpf(v)
    X = [('x', REAL())] if d.kind == 'cont' else [('x', INT())]
    for side in ('below', 'above'):
        try:
            lo, hi = d.spec['support'](FM, *[Fraction(1)] * len(d.pn))
        except Exception:
            lo = hi = 0
        if d.name == 'vonmises':
            continue            # a circular distribution: the density is periodic
        if d.name not in ('genextreme', 'genpareto', 'tukeylambda'):
            if (lo if side == 'below' else hi) is None:
                continue
        for f in fs:
            def body(L, a, side=side, f=f):
                ps = pvals(d, a)
                lo, hi = supp(L, d, ps)
                if side == 'below':
                    if lo is None:
                        raise Skip()
                    L.assume(a.x < lo)
                else:
                    if hi is None:
                        raise Skip()
                    L.assume(a.x > hi)
                L.eq(f, getattr(M(L, d), f)(a.x, *ps), val(L, want[side][f]))
            add('C02', d, f'{f}.{side}', d.params + [('x', XDom(d, side))], body, [f])
    if d.kind == 'cont':
        for f in fs:
            if f not in ('cdf', 'sf', 'logcdf', 'logsf'):
                continue

            def body(L, a, f=f):
                ps = pvals(d, a)
                L.eq(f + '(-inf)', getattr(M(L, d), f)(-L.inf, *ps), val(L, want['below'][f]))
                L.eq(f + '(+inf)', getattr(M(L, d), f)(L.inf, *ps), val(L, want['above'][f]))
            add('C02', d, f'{f}.inf', d.params, body, [f], samples=6)
    if has(d, 'support'):
        def body(L, a):
            ps = pvals(d, a)
            s = M(L, d).support(*ps)
            lo, hi = d.spec['support'](L.m, *ps)
            if d.kind == 'disc':
                if hi is None:
                    it = iter(s)
                    L.eq('first', next(it), lo)
                    L.eq('second', next(it), lo + 1)
                else:
                    L.eq('support', seq_ends(L, s), [lo, hi, hi - lo + 1])
            else:
                L.eq('lower', s[0], lo)
                L.eq('upper', s[1], hi)
        add('C02', d, 'support', d.params, body, ['support'])


def seq_ends(L, s):
    if L.symbolic and L.isseq(s):
        from engine.sx import SI
        return [s[0], s[-1], SI(s.n)]
    return [s[0], s[-1], len(s)]


# ------------------------------------------------------------------ C03

def c03(d):
    if has(d, 'cdf') and has(d, 'sf'):
        def body(L, a):
            ps = pvals(d, a)
            mod = M(L, d)
            L.eq('cdf+sf', mod.cdf(a.x, *ps) + mod.sf(a.x, *ps), L.m.mpf(1))
        add('C03', d, 'cdf+sf', d.params + [('x', XDom(d, 'any'))], body, ['cdf', 'sf'],
            **opts(d, 'cdf', 'sf'))
    for lf, f in (('logcdf', 'cdf'), ('logsf', 'sf')):
        if has(d, lf):
            def body(L, a, lf=lf, f=f):
                ps = pvals(d, a)
                mod = M(L, d)
                inside(L, d, a.x, ps)
                L.eq(lf, L.m.exp(getattr(mod, lf)(a.x, *ps)), getattr(mod, f)(a.x, *ps))
            add('C03', d, lf, d.params + [('x', XDom(d, 'in'))], body, [lf, f])
    if has(d, 'interval_prob'):
        def body(L, a):
            ps = pvals(d, a)
            mod = M(L, d)
            L.eq('interval_prob', mod.interval_prob(a.x, a.x + a.w, *ps),
                 mod.cdf(a.x + a.w, *ps) - mod.cdf(a.x, *ps))
        add('C03', d, 'interval_prob', d.params + [('x', XDom(d, 'any')), ('w', NONNEG())], body,
            ['interval_prob', 'cdf'])

        def body2(L, a):
            ps = pvals(d, a)
            mod = M(L, d)
            L.raises('x1>x2', ValueError, lambda: mod.interval_prob(a.x + a.w, a.x, *ps))
        add('C03', d, 'interval_prob.order', d.params + [('x', XDom(d, 'any')), ('w', POS())], body2,
            ['interval_prob'])


# ------------------------------------------------------------------ C04

def c04(d):
    pf, lf = dens(d)
    sp = d.get('logpmf' if d.kind == 'disc' else 'logpdf')
    for f in (pf, lf):
        if not has(d, f) or not (sp or (f == 'pdf' and d.get('pdf'))):
            continue

        def body(L, a, f=f, closed=False):
            ps = pvals(d, a)
            inside(L, d, a.x, ps)
            v = getattr(M(L, d), f)(a.x, *ps)
            s = spec_density(d, L, a.x, ps)
            if f.startswith('log'):
                L.eq('exp(' + f + ')', L.m.exp(v), s)
            else:
                L.eq(f, v, s)
        add('C04', d, f, d.params + [('x', XDom(d, 'in'))], body, [f], **opts(d, f))
        if d.kind == 'cont' and sp:
            for end, ok in (('lo', d.lo_in), ('hi', d.hi_in)):
                try:
                    v = d.spec['support'](FM, *[Fraction(1)] * len(d.pn))[end == 'hi']
                except Exception:
                    v = None
                if not ok or v is None:
                    continue

                def body(L, a, f=f, end=end):
                    ps = pvals(d, a)
                    x = d.spec['support'](L.m, *ps)[end == 'hi']
                    v = getattr(M(L, d), f)(x, *ps)
                    s = sp(L.m, x, *ps)
                    if f.startswith('log'):
                        L.eq(f, v, s)
                    else:
                        L.eq(f, v, L.m.exp(s))
                add('C04', d, f'{f}@{end}', d.params, body, [f], samples=10)
    if d.name in ('genextreme', 'genpareto'):
        # the density at the upper end of the support, xi < 0
        for nm, q in (('xi<-1', (-2, 1)), ('xi=-1', (-1, 1)), ('xi>-1', (-1, 2))):
            def body(L, a, q=q):
                m, mu, s = L.m, a.mu, a.sigma
                if not L.symbolic:          # a bound that is exact at every precision
                    mu, s = m.floor(mu), 1 + m.floor(s)
                xi = m.mpf(q[0])/q[1]
                want = m.inf if q == (-2, 1) else 1/s if q == (-1, 1) else m.mpf(0)
                wl = m.inf if q == (-2, 1) else -m.log(s) if q == (-1, 1) else -m.inf
                L.eq('pdf', M(L, d).pdf(mu - s/xi, xi, mu, s), want)
                L.eq('logpdf', M(L, d).logpdf(mu - s/xi, xi, mu, s), wl)
            add('C04', d, 'upper-end.' + nm, d.params[1:], body, ['pdf', 'logpdf'], samples=10)
    if has(d, pf) and has(d, lf):
        def body(L, a):
            ps = pvals(d, a)
            inside(L, d, a.x, ps)
            mod = M(L, d)
            L.eq('consistent', L.m.exp(getattr(mod, lf)(a.x, *ps)), getattr(mod, pf)(a.x, *ps))
            L.le('nonneg', L.m.mpf(0), getattr(mod, pf)(a.x, *ps))
        add('C04', d, 'log-consistent', d.params + [('x', XDom(d, 'in'))], body, [pf, lf], **opts(d, pf, lf))


# ------------------------------------------------------------------ C05

def c05(d):
    if not has(d, 'cdf'):
        return
    pf, lf = dens(d)
    if d.get('cdf'):
        def body(L, a):
            ps = pvals(d, a)
            inside(L, d, a.x, ps)
            L.eq('cdf=F', M(L, d).cdf(a.x, *ps), d.get('cdf')(L.m, a.x, *ps))
        add('C05', d, 'cdf', d.params + [('x', XDom(d, 'in'))], body, ['cdf'], **opts(d, 'cdf'))
        if has(d, 'sf'):
            def body(L, a):
                ps = pvals(d, a)
                inside(L, d, a.x, ps)
                L.eq('sf=1-F', M(L, d).sf(a.x, *ps), 1 - d.get('cdf')(L.m, a.x, *ps))
            add('C05', d, 'sf', d.params + [('x', XDom(d, 'in'))], body, ['sf'], **opts(d, 'sf'))
    if d.kind == 'cont':
        if d.get('cdf') and d.get('logpdf'):
            def body(L, a):
                ps = pvals(d, a)
                inside(L, d, a.x, ps)
                if d.name in ('slash', 'studentt'):
                    L.assume(a.x != 0)
                L.eq("F'=f", L.deriv(lambda x: d.get('cdf')(L.m, x, *ps), a.x),
                     spec_density(d, L, a.x, ps), tol='1e-12')
            add('C05', d, "lemma.F'=f", d.params + [('x', XDom(d, 'in'))], body, [], samples=3)
        if has(d, pf):
            def body(L, a):
                ps = pvals(d, a)
                inside(L, d, a.x, ps)
                mod = M(L, d)
                if d.name == 'cauchy' and L.symbolic and a.x == a.loc:
                    # the code treats the point x = loc separately; there cdf = F (C05:cauchy.cdf, on
                    # both sides) and F has no branches
                    from engine import terms as T
                    from engine.sx import SX
                    F = d.get('cdf')(L.m, a.x, *ps)
                    L.eq("F'=pdf", SX(T.diff(F.e, a.x.e)), mod.pdf(a.x, *ps))
                    return
                L.eq("cdf'=pdf", L.deriv(lambda x: mod.cdf(x, *ps), a.x), mod.pdf(a.x, *ps), tol='1e-10')
            add('C05', d, "cdf'=pdf", d.params + [('x', XDom(d, 'in'))], body, ['cdf', 'pdf'],
                samples=3 if 'cdf' in d.slow else 6)

        def body(L, a):
            ps = pvals(d, a)
            lo, hi = supp(L, d, ps)
            mod = M(L, d)
            if lo is not None:
                L.eq('cdf(lo)=0', mod.cdf(lo, *ps), L.m.mpf(0))
            if hi is not None:
                L.eq('cdf(hi)=1', mod.cdf(hi, *ps), L.m.mpf(1))
            if lo is None and hi is None:
                raise Skip()
        try:
            e = d.spec['support'](FM, *[Fraction(1)] * len(d.pn))
        except Exception:
            e = (0, 0)
        if e != (None, None):
            add('C05', d, 'cdf.ends', d.params, body, ['cdf'], samples=8)

        def body(L, a):
            ps = pvals(d, a)
            inside(L, d, a.x, ps)
            mod = M(L, d)
            c = mod.cdf(a.x, *ps)
            if L.symbolic and d.get('cdf') and "C05:%s.lemma.F'=f" % d.name in REG.obs:
                from engine.sx import CUR, SX, SPECIAL
                ctx = CUR.path.ctx
                if isinstance(c, SX) and c.e not in SPECIAL and not (
                        ctx.entails('>=', c.e) is True and ctx.entails('<=', (c - 1).e) is True):
                    # F is a probability: it rises (F' = f, a lemma of its own) from 0 to 1
                    w = d.get('cdf')(L.m, a.x, *ps)
                    if isinstance(w, SX) and w.e not in SPECIAL:
                        L.eq('cdf = P(X <= x)', c, w)
                        return
            L.le('0<=cdf', L.m.mpf(0), c)
            L.le('cdf<=1', c, L.m.mpf(1))
        add('C05', d, 'cdf.range', d.params + [('x', XDom(d, 'in'))], body, ['cdf'], **opts(d, 'cdf'))
    else:
        def body(L, a):
            ps = pvals(d, a)
            lo, hi = inside(L, d, a.x, ps)
            mod = M(L, d)
            if lo is not None and a.x == lo:
                pass        # a path of its own
            L.eq('cdf(k)-cdf(k-1)', mod.cdf(a.x, *ps) - mod.cdf(a.x - 1, *ps), mod.pmf(a.x, *ps))
        add('C05', d, 'cdf-diff', d.params + [('x', XDom(d, 'in'))], body, ['cdf', 'pmf'], **opts(d, 'cdf'))
        if has(d, 'sf'):
            def body(L, a):
                ps = pvals(d, a)
                lo, hi = inside(L, d, a.x, ps)
                mod = M(L, d)
                if lo is not None and a.x == lo:
                    pass        # a path of its own
                L.eq('sf(k-1)-sf(k)', mod.sf(a.x - 1, *ps) - mod.sf(a.x, *ps), mod.pmf(a.x, *ps))
            add('C05', d, 'sf-diff', d.params + [('x', XDom(d, 'in'))], body, ['sf', 'pmf'], **opts(d, 'sf'))

        def body(L, a):
            ps = pvals(d, a)
            lo, hi = supp(L, d, ps)
            mod = M(L, d)
            L.eq('cdf(lo-1)', mod.cdf(lo - 1, *ps), L.m.mpf(0))
            L.eq('cdf(lo)', mod.cdf(lo, *ps), mod.pmf(lo, *ps))
            if hi is not None:
                L.eq('cdf(hi)', mod.cdf(hi, *ps), L.m.mpf(1))
        add('C05', d, 'cdf.ends', d.params, body, ['cdf', 'pmf'], samples=10)


# ------------------------------------------------------------------ C06

def c06(d):
    P = ('p', OPEN(0, 1, pool=('1/2', '1/4', '3/4', '1/1024', '1023/1024')))
    if d.kind == 'disc':
        for f, g in (('invcdf', 'cdf'), ('invsf', 'sf')):
            if has(d, f):
                def body(L, a, f=f, g=g):
                    ps = pvals(d, a)
                    mod = M(L, d)
                    k = getattr(mod, f)(a.p, *ps)
                    G = getattr(mod, g)
                    if g == 'cdf':
                        L.le('cdf(k)>=p', a.p, G(k, *ps))
                        L.lt('cdf(k-1)<p', G(k - 1, *ps), a.p)
                    else:
                        L.le('sf(k)<=p', G(k, *ps), a.p)
                        L.lt('sf(k-1)>p', a.p, G(k - 1, *ps))
                add('C06', d, f, d.params + [P], body, [f, g])

                def body(L, a, f=f):
                    ps = pvals(d, a)
                    hi = d.spec['support'](L.m, *ps)[1]
                    L.eq('upper end', getattr(M(L, d), f)(L.m.mpf(1 if f == 'invcdf' else 0), *ps),
                         L.inf if hi is None else hi)
                add('C06', d, f'{f}.ends', d.params, body, [f], samples=4)
        return
    for f, g in (('invcdf', 'cdf'), ('invsf', 'sf')):
        if not has(d, f):
            continue

        def body(L, a, f=f, g=g):
            ps = pvals(d, a)
            mod = M(L, d)
            x = getattr(mod, f)(a.p, *ps)
            L.eq(f'{g}({f}(p))', getattr(mod, g)(x, *ps), a.p)
        k = dict(samples=8)
        add('C06', d, f'{g}({f})', d.params + [P], body, [f, g], **k)

        def body(L, a, f=f, g=g):
            ps = pvals(d, a)
            mod = M(L, d)
            x = getattr(mod, f)(a.p, *ps)
            lo, hi = supp(L, d, ps)
            if lo is not None:
                L.le('>=lo', lo, x)
            if hi is not None:
                L.le('<=hi', x, hi)
            if lo is None and hi is None:
                L.true('finite', L.m.isfinite(x))
        add('C06', d, f'{f}.in-support', d.params + [P], body, [f], samples=4)
        if d.get('cdf'):
            def body(L, a, f=f, g=g):
                ps = pvals(d, a)
                mod = M(L, d)
                x = getattr(mod, f)(a.p, *ps)
                if d.name == 'studentt' and x == 0:
                    x = L.m.zero
                elif d.name == 'studentt':
                    L.assume(x != 0)
                F = d.get('cdf')(L.m, x, *ps)
                L.eq(f'F({f}(p))', F if g == 'cdf' else 1 - F, a.p)
            add('C06', d, f'F({f})', d.params + [P], body, [f], samples=8)

        def body(L, a, f=f):
            ps = pvals(d, a)
            mod = M(L, d)
            lo, hi = d.spec['support'](L.m, *ps)
            e0, e1 = (lo, hi) if f == 'invcdf' else (hi, lo)
            L.eq(f'{f}(0)', getattr(mod, f)(L.m.mpf(0), *ps), e0)
            L.eq(f'{f}(1)', getattr(mod, f)(L.m.mpf(1), *ps), e1)
        add('C06', d, f'{f}.ends', d.params, body, [f], samples=8)
    if d.get('quantile'):
        def body(L, a):
            ps = pvals(d, a)
            mod = M(L, d)
            q = d.get('quantile')(L.m, a.p, *ps)
            L.eq('invcdf=Q', mod.invcdf(a.p, *ps), q)
            L.eq('invsf=Q(1-p)', mod.invsf(a.p, *ps), d.get('quantile')(L.m, 1 - a.p, *ps))
        add('C06', d, 'quantile', d.params + [P], body, ['invcdf', 'invsf'])


# ------------------------------------------------------------------ C07

def neg_dom(dm):
    """domains of invalid values of a parameter"""
    out = []
    if dm.lo is not None:
        out.append(('too-small', Dom(dm.sort, None, dm.lo, hi_in=not dm.lo_in,
                                     **({} if dm.sort == 'r' else {}))))
        if dm.sort == 'i':
            lo = dm.lo
            out[-1] = ('too-small', Dom('i', None, (lambda e, f=lo: f(e) - 1) if callable(lo) else lo - 1,
                                        hi_in=True))
    if dm.hi is not None:
        if dm.sort == 'i':
            hi = dm.hi
            out.append(('too-large', Dom('i', (lambda e, f=hi: f(e) + 1) if callable(hi) else hi + 1, None,
                                         lo_in=True)))
        else:
            out.append(('too-large', Dom('r', dm.hi, None, lo_in=not dm.hi_in)))
    return out


LEAD = {'pdf': 'x', 'logpdf': 'x', 'pmf': 'x', 'logpmf': 'x', 'cdf': 'x', 'sf': 'x', 'logcdf': 'x', 'logsf': 'x',
        'invcdf': 'p', 'invsf': 'p'}
PFUN = ('support', 'mean', 'var', 'skewness', 'kurtosis', 'mode', 'median', 'entropy')
# modules without any parameter validation (not claimed)
C07_NOVAL = {'ncf', 'nct', 'ncx2', 'vonmises'}
# (distribution, parameter) -> invalid domains, where the code documents a
# weaker constraint than the domain on which the other contracts are stated
C07_OVER = {
    ('logseries', 'p'): [('p-too-small', {'p': LT(0)}), ('p-too-large', {'p': GT(1)})],
    ('negative_binomial', 'p'): [('p-too-small', {'p': LT(0)}), ('p-too-large', {'p': GT(1)})],
    ('trunc_discrete_exp', 'n'): [('n-negative', {'n': INT(None, -1)})],
    ('hypergeometric', 'ntotal'): [('ntotal-negative', {'ntotal': INT(None, -1), 'ngood': INT(0, 5), 'nsample': INT(0, 5)})],
    ('genhyperbolic', 'a'): [('a-too-small', {'a': LE(0), 'b': REAL()})],
    ('negative_hypergeometric', 'ntotal'): [('ntotal-negative', {'ntotal': INT(None, -1), 'ngood': INT(0, 5),
                                                                 'untilnbad': INT(0, 5)})],
    ('negative_hypergeometric', 'ngood'): [
        ('ngood-too-small', {'ngood': INT(None, -1)}),
        ('ngood-too-large', {'ngood': INT(lambda e: e.ntotal + 1, None), 'untilnbad': INT(0, 5)})],
    ('genhyperbolic', 'b'): [('b-too-small', {'b': LT(lambda e: -e.a)}), ('b-too-large', {'b': GT(lambda e: e.a)})],
}
C07_SKIP = set()


def c07(d):
    mod_args = API[d.name]
    if d.name in C07_NOVAL:
        return
    for f in mod_args:
        lead = None
        if f in LEAD:
            lead = LEAD[f]
        elif f in PFUN:
            lead = ''
        elif f == 'noncentral_moment':
            lead = 'n'
        else:
            continue
        if (d.name, f) in C07_SKIP:
            continue
        cases = []
        for i, (pn, dm) in enumerate(d.params):
            if (d.name, pn) in C07_OVER:
                cases += C07_OVER[d.name, pn]
                continue
            for lab, nd in neg_dom(dm):
                cases.append((f'{pn}-{lab}', {pn: nd}))
        for lab, ov in d.bad:
            cases.append((lab, ov))
        for lab, ov in cases:
            if (d.name, f, lab) in C07_SKIP:
                continue
            args = [(n, ov.get(n, dm)) for n, dm in d.params]
            if lead == 'x':
                args.append(('x', REAL() if d.kind == 'cont' else INT()))
            elif lead == 'p':
                args.append(('p', CLOSED(0, 1)))
            elif lead == 'n':
                args.append(('nn', INT(1, 4)))

            def body(L, a, f=f, lead=lead):
                ps = pvals(d, a)
                mod = M(L, d)
                ld = {'x': lambda: (a.x,), 'p': lambda: (a.p,), '': lambda: (), 'n': lambda: (2,)}[lead]()
                L.raises('ValueError', ValueError, lambda: pcall(mod, d, f, ps, ld))
            add('C07', d, f'{f}.{lab}', args, body, [f], samples=5)
        if lead == 'p':
            for lab, nd in (('p<0', LT(0)), ('p>1', GT(1))):
                if (d.name, f, lab) in C07_SKIP:
                    continue

                def body(L, a, f=f):
                    ps = pvals(d, a)
                    mod = M(L, d)
                    L.raises('ValueError', ValueError, lambda: pcall(mod, d, f, ps, (a.p,)))
                add('C07', d, f'{f}.{lab}', d.params + [('p', nd)], body, [f], samples=5)


# ------------------------------------------------------------- C08 / C09

def nonfinite(L, name, v):
    if L.symbolic:
        from engine.sx import SX, SPECIAL
        L.true(name + ' infinite or undefined', isinstance(v, SX) and v.e in SPECIAL)
    else:
        L.true(name + ' infinite or undefined', bool(L.m.isinf(v) or L.m.isnan(v)))


def cmp_spec(L, name, v, s):
    if isinstance(s, str):
        nonfinite(L, name, v)
    else:
        L.eq(name, v, s)


def c08(d):
    for f in ('mean', 'var', 'skewness', 'kurtosis', 'circmean', 'circvar'):
        if has(d, f) and d.get(f):
            def body(L, a, f=f):
                ps = pvals(d, a)
                if d.name == 'betabinomial' and f in ('skewness', 'kurtosis'):
                    L.assume(a.n >= 1)
                if d.name == 'nct':
                    L.assume(a.df > (1 if f == 'mean' else 2))
                if L.symbolic and f in ('skewness', 'kurtosis') and d.get('var') and not d.get('degenerate'):
                    from engine import sx
                    w = d.get('var')(L.m, *ps)
                    if not isinstance(w, str) and getattr(w, 'e', None) not in sx.SPECIAL and \
                            isinstance(w, sx.SX):
                        # a law that is not concentrated in one point has a positive variance
                        L.assume(w > 0)
                cmp_spec(L, f, pcall(M(L, d), d, f, ps), d.get(f)(L.m, *ps))
            add('C08', d, f, d.params, body, [f], **opts(d, f))
    if has(d, 'noncentral_moment') and d.get('noncentral_moment'):
        for n in (1, 2, 3, 4):
            def body(L, a, n=n):
                ps = pvals(d, a)
                cmp_spec(L, f'moment{n}', M(L, d).noncentral_moment(n, *ps),
                         d.get('noncentral_moment')(L.m, n, *ps))
            add('C08', d, f'noncentral_moment{n}', d.params, body, ['noncentral_moment'],
                **opts(d, 'noncentral_moment'))
        def body(L, a):
            ps = pvals(d, a)
            cmp_spec(L, 'moment-n', M(L, d).noncentral_moment(a.order, *ps),
                     d.get('noncentral_moment')(L.m, a.order, *ps))
        add('C08', d, 'noncentral_moment-n', d.params + [('order', INT(1, 2**40, clip=(1, 12)))], body,
            ['noncentral_moment'], **dict(dict(samples=20), **opts(d, 'noncentral_moment')))
    if has(d, 'noncentral_moment'):
        def body(L, a):
            ps = pvals(d, a)
            mod = M(L, d)
            if d.name == 'nct':
                L.assume(a.df > 2)
            L.eq('moment0', mod.noncentral_moment(0, *ps), L.m.mpf(1))
            m1 = mod.noncentral_moment(1, *ps)
            if has(d, 'mean'):
                mu = mod.mean(*ps)
                if not L.symbolic and not L.m.isfinite(mu):
                    raise Skip()
                if L.symbolic:
                    from engine.sx import SPECIAL
                    if mu.e in SPECIAL or m1.e in SPECIAL:
                        raise Skip()
                L.eq('mean=m1', mu, m1)
                if has(d, 'var'):
                    v = pcall(mod, d, 'var', ps)
                    m2 = mod.noncentral_moment(2, *ps)
                    if L.symbolic:
                        if v.e in SPECIAL or m2.e in SPECIAL:
                            raise Skip()
                    elif not L.m.isfinite(v):
                        raise Skip()
                    L.eq('var=m2-m1^2', v, m2 - m1**2)
        k = opts(d, 'noncentral_moment')
        add('C08', d, 'moment-relations', d.params, body, ['noncentral_moment', 'mean', 'var'], **k)
    if has(d, 'var') and d.name not in ('cauchy', 'gauss_kuzmin'):
        def body(L, a):
            ps = pvals(d, a)
            if d.name == 'nct':
                L.assume(a.df > 2)
            v = pcall(M(L, d), d, 'var', ps)
            if L.symbolic:
                from engine.sx import SPECIAL, SX
                if not isinstance(v, SX):
                    v = SX(v)
                if v.e in SPECIAL:
                    raise Skip()
                if d.get('var'):
                    from engine.sx import CUR
                    w = d.get('var')(L.m, *ps)
                    if not isinstance(w, str) and CUR.path.ctx.entails('>=', v.e) is not True:
                        # the variance of the law (a second central moment) is not negative
                        L.eq('var = E (X - EX)^2', v, w)
                        return
            elif not L.m.isfinite(v):
                raise Skip()
            L.le('var>=0', L.m.mpf(0), v)
        add('C08', d, 'var>=0', d.params, body, ['var'], **opts(d, 'var'))


def c09(d):
    pf, lf = dens(d)
    for f in ('mode', 'median', 'entropy'):
        if has(d, f) and d.get(f):
            def body(L, a, f=f):
                ps = pvals(d, a)
                cmp_spec(L, f, pcall(M(L, d), d, f, ps), d.get(f)(L.m, *ps))
            add('C09', d, f, d.params, body, [f], **opts(d, f))
    if has(d, 'median') and has(d, 'cdf') and d.kind == 'cont':
        def body(L, a):
            ps = pvals(d, a)
            mod = M(L, d)
            L.eq('cdf(median)', mod.cdf(mod.median(*ps), *ps), L.m.mpf(1)/2)
        add('C09', d, 'cdf(median)', d.params, body, ['median', 'cdf'])
    if has(d, 'mode') and has(d, pf):
        def body(L, a):
            ps = pvals(d, a)
            mo = M(L, d).mode(*ps)
            lo, hi = supp(L, d, ps)
            if lo is not None:
                L.le('mode>=lo', lo, mo)
            if hi is not None:
                L.le('mode<=hi', mo, hi)
            if lo is None and hi is None:
                L.true('finite', L.m.isfinite(mo))
        add('C09', d, 'mode-in-support', d.params, body, ['mode'], **opts(d, 'mode'))

        def body(L, a):
            ps = pvals(d, a)
            mod = M(L, d)
            mo = mod.mode(*ps)
            lo, hi = inside(L, d, a.x, ps)
            f = getattr(mod, pf)
            if L.symbolic:
                # the density rises up to the mode and falls after it
                try:
                    pm = f(mo, *ps)
                except ZeroDivisionError:
                    raise Skip()
                from engine.sx import PINF
                if getattr(pm, 'e', None) is PINF:
                    raise Skip()
                if d.kind == 'cont':
                    L.assume(a.x != mo)
                    D = L.dlog(lambda x: f(x, *ps), a.x)
                    if a.x < mo:
                        L.le('rising before the mode', L.m.mpf(0), D)
                    else:
                        L.le('falling after the mode', D, L.m.mpf(0))
                else:
                    if hi is not None:
                        L.assume(a.x + 1 <= hi)
                    u, v = f(a.x + 1, *ps), f(a.x, *ps)
                    if d.name != 'gauss_kuzmin':
                        try:
                            u, v = L.quot(u, v), L.m.mpf(1)
                        except ZeroDivisionError:
                            pass
                    if a.x + 1 <= mo:
                        L.le('rising before the mode', v, u)
                    else:
                        L.le('falling after the mode', u, v)
                return
            try:
                pm = f(mo, *ps)
            except ZeroDivisionError:
                raise Skip()
            if L.m.isinf(pm) or L.m.isnan(pm):
                raise Skip()
            tol = L.m.mpf(10)**(-L.m.dps//3)
            px = f(a.x, *ps)
            if lo is not None and mo == lo and d.kind == 'cont' and pm == 0:
                raise Skip()
            L.true('pdf(x)<=pdf(mode)', px <= pm*(1 + tol))
            if d.kind == 'disc':
                for k in (mo - 1, mo + 1):
                    if (lo is None or k >= lo) and (hi is None or k <= hi):
                        L.true('neighbours', f(k, *ps) <= pm*(1 + tol))
        pars = d.params
        if d.name == 'genextreme':
            # 1 + xi*(mode - mu)/sigma = (1 + xi)**-xi cancels completely for large xi
            pars = [(n, Dom(pool=dm.pool, clip=(-6, 6)) if n == 'xi' else dm) for n, dm in pars]
        add('C09', d, 'mode-max', pars + [('x', XDom(d, 'in'))], body, ['mode', pf],
            **dict(dict(samples=30), **opts(d, pf)))


# ------------------------------------------------------------------ C12

def c12(d):
    if not d.ls:
        return
    shape = d.params[:-2]
    ln, sn = d.pn[-2], d.pn[-1]
    for f in API[d.name]:
        if f in ('pdf', 'logpdf', 'cdf', 'sf', 'logcdf', 'logsf', 'invcdf', 'invsf', 'mean', 'mode', 'median',
                 'var', 'entropy', 'skewness', 'kurtosis'):
            lead = LEAD.get(f, '')
            args = list(shape) + [('z', REAL())] if lead == 'x' else list(shape)
            if lead == 'p':
                args = list(shape) + [('p', OPEN(0, 1, pool=('1/2',)))]
            args = args + [(ln, d.params[-2][1]), (sn, d.params[-1][1])]

            def body(L, a, f=f, lead=lead):
                m = L.m
                mod = M(L, d)
                sh = [a[n] for n, _ in shape]
                l, s = a[ln], a[sn]
                if lead == 'x':
                    if f in ('pdf', 'logpdf'):
                        # the density at the ends of the support: C04
                        for e in supp(L, d, [*sh, m.mpf(0), m.mpf(1)]):
                            if e is not None:
                                L.assume(a.z != e)
                    v = getattr(mod, f)(l + s*a.z, *sh, l, s)
                    w = getattr(mod, f)(a.z, *sh, m.mpf(0), m.mpf(1))
                    if f == 'pdf':
                        w = w/s
                    elif f == 'logpdf':
                        w = w - m.log(s)
                elif lead == 'p':
                    v = getattr(mod, f)(a.p, *sh, l, s)
                    w = l + s*getattr(mod, f)(a.p, *sh, m.mpf(0), m.mpf(1))
                else:
                    v = pcall(mod, d, f, [*sh, l, s])
                    w = pcall(mod, d, f, [*sh, m.mpf(0), m.mpf(1)])
                    if f in ('mean', 'mode', 'median'):
                        w = l + s*w
                    elif f == 'var':
                        w = s**2*w
                    elif f == 'entropy':
                        w = w + m.log(s)
                L.eq(f, v, w)
            k = opts(d, f)
            if lead == 'p':
                k['samples'] = 6
            add('C12', d, f, args, body, [f], **k)


# modules whose location and scale are optional (documented defaults 0 and 1)
STANDARD = ('cauchy', 'genexpon', 'genextreme', 'genhyperbolic', 'geninvgauss', 'genpareto', 'half_logistic',
            'hypsecant', 'invgamma', 'invgauss', 'laplace', 'levy', 'logistic', 'lognormal', 'maxwell', 'nakagami',
            'normal', 'pareto', 'power_normal', 'tukeylambda', 'uniform')
STANDARD_ONLY = {'exponweib': (('scale', 1),), 'vonmises': (('mu', 0),), 'benini': (('scale', 1),),
                 'weibull_min': (('loc', 0), ('scale', 1)), 'weibull_max': (('loc', 0), ('scale', 1))}


def c12_standard(d):
    """the parameters that may be omitted stand for the standard distribution"""
    if d.name in STANDARD:
        dv = tuple(zip(d.pn[-2:], (0, 1)))
    elif d.name in STANDARD_ONLY:
        dv = STANDARD_ONLY[d.name]
    else:
        return
    only = {'benini': ('noncentral_moment',), 'weibull_min': ('noncentral_moment',),
            'weibull_max': ('noncentral_moment',)}.get(d.name)
    for f in API[d.name]:
        if f in ('mle', 'mom', 'nll', 'nll_grad', 'nll_hess', 'nll_hessian', 'nll_invhess', 'interval_prob') \
                or only and f not in only:
            continue
        sig = API[d.name][f]
        if [n for n, v in dv] != [n for n in sig if n in dict(dv)]:
            continue
        lead = LEAD.get(f, 'n' if f == 'noncentral_moment' else '')
        std = dict(dv)
        shape = [(n, dm) for n, dm in d.params if n not in std]
        if d.name == 'vonmises':
            if sig.index('mu') != len(sig) - 1:
                continue
        args = list(shape)
        if lead == 'x':
            args.append(('x', REAL()))
        elif lead == 'p':
            args.append(('p', OPEN(0, 1, pool=('1/2',))))

        def body(L, a, f=f, lead=lead, shape=shape, std=std):
            m = L.m
            mod = M(L, d)
            ld = {'x': (a.get('x'),), 'p': (a.get('p'),), 'n': (2,), '': ()}[lead]
            F = getattr(mod, f)
            sh = [a[n] for n, _ in shape]
            names = list(std)
            try:
                w = F(*ld, *sh, **{n: m.mpf(v) for n, v in std.items()})
            except (ZeroDivisionError, ValueError):
                if L.symbolic:
                    raise
                raise Skip()                # the other contracts judge this
            L.eq(f, F(*ld, *sh), w)
            if len(names) == 2:
                L.eq(f + ' (second omitted)', F(*ld, *sh, **{names[0]: m.mpf(std[names[0]])}), w)
        k = opts(d, f)
        k.update(samples=min(k.get('samples') or 3, 3), budget=8)
        add('C12', d, f + '.standard', args, body, [f], **k)


# ------------------------------------------------------------------ C13

def as_float(L, v):
    return L.to_float(v)


RAISED = (ArithmeticError, ValueError, TypeError, RuntimeError)


def c13(d):
    """integer-valued arguments given as int, as mpf and as float"""
    def idom(dm):
        lo = dm.lo
        hi = dm.hi
        return Dom('i', (1 if lo == 0 and not dm.lo_in else lo) if not callable(lo) else
                   (lambda e: lo(e) if dm.lo_in else lo(e) + 1), hi if not callable(hi) else
                   (lambda e: hi(e) if dm.hi_in else hi(e) - 1),
                   lo_in=True, hi_in=dm.hi_in or callable(hi), span=9)
    if any(dm.hi == 1 for n, dm in d.params):
        conv = {n: (dm if dm.hi == 1 else idom(dm)) for n, dm in d.params}
    else:
        conv = {n: idom(dm) for n, dm in d.params}
    for f in API[d.name]:
        if f in LEAD:
            lead = LEAD[f]
        elif f in PFUN and f != 'support':
            lead = ''
        elif f == 'noncentral_moment':
            lead = 'n'
        else:
            continue
        args = [(n, conv[n]) for n, dm in d.params]
        if lead == 'x':
            args.append(('x', XDom13(d)))
        if lead == 'p':
            args.append(('p', OPEN(0, 1, pool=('1/2', '1/4'))))

        def body(L, a, f=f, lead=lead):
            mod = M(L, d)
            m = L.m
            if lead == 'x':
                ps0 = pvals(d, a)
                lo, hi = supp(L, d, ps0 if d.kind == 'disc' else [m.mpf(t) for t in ps0])
                if lo is not None:
                    L.assume(a.x > lo if d.kind == 'cont' else a.x >= lo)
                if hi is not None:
                    L.assume(a.x < hi if d.kind == 'cont' else a.x <= hi)
            ps = pvals(d, a)
            ld = {'x': (a.get('x'),), 'p': (a.get('p'),), '': (), 'n': (2,)}[lead]
            try:
                v = pcall(mod, d, f, ps, ld)
            except RAISED as e:
                v = ('raised', type(e).__name__)
            intp = {n for n, dm in d.params if dm.sort == 'i'}
            qs = [t if n in intp else m.mpf(t) for n, t in zip(d.pn, ps)]
            ql = tuple(m.mpf(t) if not (d.kind == 'disc' and lead == 'x') and lead != 'n' else t for t in ld)
            try:
                w = pcall(mod, d, f, qs, ql)
            except RAISED as e:
                w = ('raised', type(e).__name__)
            L.eq(f + ' int=mpf', v, w)
        k = opts(d, f)
        if lead == 'p':
            k['samples'] = 4
        elif 'samples' not in k:
            k['samples'] = 8
        add('C13', d, f, args, body, [f], **k)
        c13_float(d, f, lead)


def c13_float(d, f, lead):
    """real arguments given as floats: any doubles, against the mpf of the same numbers"""
    real = {n for n, dm in d.params if dm.sort != 'i'}
    xreal = lead == 'p' or lead == 'x' and d.kind != 'disc'
    if not real and not xreal:
        return
    args = [(n, FDom(dm) if n in real else dm) for n, dm in d.params]
    if lead == 'x':
        args.append(('x', FDom(XDom(d)) if xreal else XDom(d)))
    if lead == 'p':
        args.append(('p', FDom(OPEN(0, 1))))

    def body(L, a):
        mod = M(L, d)
        m = L.m
        ps = [L.to_float(a[n]) if n in real else a[n] for n in d.pn]
        qs = [m.mpf(t) if n in real else t for n, t in zip(d.pn, ps)]
        if lead == 'n':
            ld = lm = (2,)
        elif lead:
            ld = (L.to_float(a[lead]) if xreal else a[lead],)
            lm = tuple(m.mpf(t) if xreal else t for t in ld)
            if lead == 'x':
                inside(L, d, lm[0], qs)
        else:
            ld = lm = ()

        def run(p, q):
            try:
                return pcall(mod, d, f, p, q)
            except RAISED as e:
                return ('raised', type(e).__name__)
        L.eq(f + ' float=mpf', run(ps, ld), run(qs, lm))
    k = opts(d, f)
    k.setdefault('samples', 4)
    add('C13', d, f + '.float', args, body, [f], **k)


class XDom13(XDom):
    def __init__(self, d):
        Dom.__init__(self, sort='i')
        self.d = d

    def bounds(self, env):
        return None, None

    def sample(self, rng, env, dic=()):
        lo, hi = self.d.spec['support'](FM, *[Fraction(env[n]) for n in self.d.pn])
        for _ in range(20):
            v = Dom('i', lo, hi, self.d.kind == 'disc', self.d.kind == 'disc', span=9).sample(rng, env, dic)
            return v
        raise Skip()


GEN = {'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09,
       'C12': lambda d: (c12(d), c12_standard(d)), 'C13': c13}


def generate(prop):
    g = GEN.get(prop)
    if g:
        for d in DISTS.values():
            g(d)
