"""
Contracts of the distributions computed from a finite table of probabilities:
Fisher's noncentral hypergeometric distribution and the support_pmf functions.
"""
from engine.lab import ob, REAL, POS, OPEN, INT, Env, Skip

D = 'mpsci.distributions.'
NC = POS(pool=('1', '2', '1/2', '5/2'), clip=('1/64', 40))
N_ = INT(0, span=11)
G_ = INT(0, lambda e: e.N)
S_ = INT(0, lambda e: e.N)
PAR = [('nc', NC), ('N', N_), ('g', G_), ('n', S_)]


def imax(a, b):
    return a if a >= b else b


def imin(a, b):
    return a if a <= b else b


def lo_(a):
    return imax(0, a.n - (a.N - a.g))


def hi_(a):
    return imin(a.n, a.g)


def c_k(L, a, k):
    m = L.m
    return m.binomial(a.g, k)*m.binomial(a.N - a.g, a.n - k)*a.nc**k


def tot(L, a):
    return L.tsum(lambda k: c_k(L, a, k), L.range(lo_(a), hi_(a) + 1))


def modular(body):
    """the body with hypergeometric.logpmf replaced by an unknown finite function of k (its
    value is fixed by C04); without effect on concrete runs"""
    def run(L, a):
        if not L.symbolic:
            return body(L, a)
        mod = L.mod('distributions.hypergeometric').__dict__
        old = mod.get('logpmf')
        u = L.ufun('logpmf')
        if old is None:
            return body(L, a)

        def logpmf(k, ntotal, ngood, nsample):
            return u(k)
        mod['logpmf'] = logpmf
        try:
            return body(L, a)
        finally:
            mod['logpmf'] = old
    return run


def generate(prop):
    def o(p, name, args, body, funcs, mods=(), **k):
        if p != prop:
            return
        ob(p, 'fishers_noncentral_hypergeometric.' + name, args, body,
           funcs=[D + 'fishers_noncentral_hypergeometric.' + f for f in funcs] +
           [D + 'fishers_noncentral_hypergeometric._support_pmf', D + 'hypergeometric.logpmf'],
           mods=['distributions.fishers_noncentral_hypergeometric', 'distributions.hypergeometric', 'fun'] + list(mods), **k)

    def d(L):
        return L.mod('distributions.fishers_noncentral_hypergeometric')

    K = INT(lo_, hi_)
    P = ['support', 'support_pmf']

    def pa(a, *k):
        return k + (a.nc, a.N, a.g, a.n)

    # ---- C12: the documented probabilities, and agreement with the hypergeometric distribution
    def pmf(L, a):
        L.eq('pmf', d(L).pmf(*pa(a, a.k)), c_k(L, a, a.k)/tot(L, a))
    o('C12', 'pmf', PAR + [('k', K)], pmf, P + ['pmf'])

    def table(L, a):
        sup, p = d(L).support_pmf(*pa(a))
        r = L.range(lo_(a), hi_(a) + 1)
        t = tot(L, a)
        L.eq('support', L.map(lambda k: k, sup), L.map(lambda k: k, r))
        L.eq('number of probabilities', L.len(p), L.len(r))
        L.eq('probabilities', L.map(lambda v: v, p), L.map(lambda k: c_k(L, a, k)/t, r))
    o('C12', 'table', PAR, table, P)

    def one(L, a):
        h = L.mod('distributions.hypergeometric')
        L.eq('pmf', d(L).pmf(a.k, 1, a.N, a.g, a.n)*L.tsum(lambda k: L.m.exp(h.logpmf(k, a.N, a.g, a.n)), L.range(lo_(a), hi_(a) + 1)),
             L.m.exp(h.logpmf(a.k, a.N, a.g, a.n)))
    o('C12', 'nc.one', [t for t in PAR if t[0] != 'nc'] + [('k', K)], one, P + ['pmf'])

    # ---- C02/C03/C05
    def outside(L, a):
        f = d(L)
        lo, hi = lo_(a), hi_(a)
        L.eq('pmf below', f.pmf(*pa(a, lo - a.t)), 0)
        L.eq('pmf above', f.pmf(*pa(a, hi + a.t)), 0)
        L.eq('cdf below', f.cdf(*pa(a, lo - a.t)), 0)
        L.eq('sf below', f.sf(*pa(a, lo - a.t)), 1)
        L.eq('cdf above', f.cdf(*pa(a, hi + a.t)), 1)
        L.eq('sf above', f.sf(*pa(a, hi + a.t)), 0)
        L.eq('cdf at the end', f.cdf(*pa(a, hi)), 1)
        L.eq('sf at the end', f.sf(*pa(a, hi)), 0)
    o('C02', 'outside', PAR + [('t', INT(1, span=5))], outside, P + ['pmf', 'cdf', 'sf'])

    def inside(L, a):
        f = d(L)
        for n, v in (('pmf', f.pmf(*pa(a, a.k))), ('cdf', f.cdf(*pa(a, a.k))), ('sf', f.sf(*pa(a, a.k)))):
            L.le(f'{n} >= 0', 0, v)
    o('C02', 'nonnegative', PAR + [('k', K)], modular(inside), P + ['pmf', 'cdf', 'sf'])

    def comp(L, a):
        L.eq('cdf + sf', d(L).cdf(*pa(a, a.k)) + d(L).sf(*pa(a, a.k)), 1)
    o('C03', 'complement', PAR + [('k', INT(span=14))], modular(comp), P + ['cdf', 'sf'])

    def total(L, a):
        sup, p = d(L).support_pmf(*pa(a))
        L.eq('total probability', L.sum(p), 1)
    o('C05', 'total', PAR, modular(total), P)

    def step(L, a):
        f = d(L)
        L.eq('cdf(k) - cdf(k - 1)', f.cdf(*pa(a, a.k)) - f.cdf(*pa(a, a.k - 1)), f.pmf(*pa(a, a.k)))
        L.eq('sf(k - 1) - sf(k)', f.sf(*pa(a, a.k - 1)) - f.sf(*pa(a, a.k)), f.pmf(*pa(a, a.k)))
    o('C05', 'step', PAR + [('k', INT(span=14))], modular(step), P + ['cdf', 'sf', 'pmf'], budget=30)

    # ---- C07
    def reject(L, a):
        f = d(L)
        bad = {'N': (a.nc, -a.t, 0, 0), 'g': (a.nc, a.N, -a.t, 0), 'n': (a.nc, a.N, 0, -a.t),
               'g > N': (a.nc, a.N, a.N + a.t, 0), 'n > N': (a.nc, a.N, 0, a.N + a.t)}
        for k, p in bad.items():
            for n in ('pmf', 'cdf', 'sf'):
                L.raises(f'{n}: {k}', ValueError, lambda: getattr(f, n)(0, *p))
            for n in ('support', 'support_pmf', 'mean', 'mode'):
                L.raises(f'{n}: {k}', ValueError, lambda: getattr(f, n)(*p))
    o('C07', 'reject', [('nc', NC), ('N', N_), ('t', INT(1, span=5))], reject, P + ['pmf', 'cdf', 'sf', 'mean', 'mode'])

    # ---- C08/C09
    def mean(L, a):
        f = d(L)
        h = L.mod('distributions.hypergeometric')
        lo = lo_(a)
        w = lambda k: L.m.exp(h.logpmf(k, a.N, a.g, a.n))*a.nc**k
        n = hi_(a) - lo + 1
        L.eq('mean', f.mean(*pa(a)), L.tsum(lambda i: (lo + i)*w(lo + i), L.range(0, n))/L.tsum(w, L.range(lo, hi_(a) + 1)))
    o('C08', 'mean', PAR, modular(mean), P + ['mean'])

    def mode(L, a):
        f = d(L)
        m = f.mode(*pa(a))
        p = f.pmf(*pa(a, m))
        L.le('mode in the support', lo_(a), m)
        L.le('mode in the support', m, hi_(a))
        L.le('pmf(mode - 1) <= pmf(mode)', f.pmf(*pa(a, m - 1)), p)
        L.le('pmf(mode + 1) <= pmf(mode)', f.pmf(*pa(a, m + 1)), p)
    o('C09', 'mode', PAR, mode, P + ['pmf', 'mode'], sym=False)

    def mode_all(L, a):
        f = d(L)
        L.le('pmf(k) <= pmf(mode)', f.pmf(*pa(a, a.k)), f.pmf(*pa(a, f.mode(*pa(a)))))
    o('C09', 'mode.all', PAR + [('k', K)], mode_all, P + ['pmf', 'mode'], sym=False)

    # ---- support_pmf of the other finite distributions
    def q(p, name, args, body, mod, funcs, **k):
        if p == prop:
            ob(p, name, args, body, funcs=[D + f'{mod}.{f}' for f in funcs], mods=[f'distributions.{mod}', 'fun'], **k)

    def hyp(L, a):
        h = L.mod('distributions.hypergeometric')
        sup, p = h.support_pmf(a.N, a.g, a.n)
        r = L.range(lo_(a), hi_(a) + 1)
        L.eq('support', L.map(lambda k: k, sup), L.map(lambda k: k, r))
        L.eq('number of probabilities', L.len(p), L.len(r))
        L.eq('probabilities', L.map(lambda v: v, p),
             L.map(lambda k: L.m.binomial(a.g, k)*L.m.binomial(a.N - a.g, a.n - k)/L.m.binomial(a.N, a.n), r))
    q('C12', 'hypergeometric.support_pmf', PAR[1:], hyp, 'hypergeometric', ['support', 'support_pmf', 'pmf'])

    def nhyp(L, a):
        h = L.mod('distributions.negative_hypergeometric')
        sup, p = h.support_pmf(a.N, a.g, a.r)
        L.eq('support', L.map(lambda k: k, sup), L.map(lambda k: k, L.range(0, a.g + 1)))
        L.eq('number of probabilities', L.len(p), a.g + 1)
        L.eq('probabilities', L.map(lambda v: v, p),
             L.map(lambda k: L.m.binomial(k + a.r - 1, k)*L.m.binomial(a.N - a.r - k, a.g - k)/L.m.binomial(a.N, a.g), L.range(0, a.g + 1)))
    q('C12', 'negative_hypergeometric.support_pmf', [('N', INT(1, span=11)), ('g', INT(0, lambda e: e.N - 1)),
      ('r', INT(1, lambda e: e.N - e.g))], nhyp, 'negative_hypergeometric', ['support', 'support_pmf', 'pmf'])

    # ---- chi2: inverses with respect to the number of degrees of freedom
    X, PR = POS(clip=('1/4', 20)), OPEN(0, 1, clip=('1/100', '99/100'))

    def ik(name, fn):
        def body(L, a):
            c2 = L.mod('distributions.chi2')
            k = getattr(c2, name)(a.x, a.p)
            L.lt('k > 0', 0, k)
            L.eq(f'{fn}(x, {name}(x, p))', getattr(c2, fn)(a.x, k), a.p)
        return body
    for name, fn in (('invcdf_k', 'cdf'), ('invsf_k', 'sf')):
        q('C06', 'chi2.' + name, [('x', X), ('p', PR)], ik(name, fn), 'chi2', [name, fn, '_generic_inv'], samples=8)

    # ---- means that are documented to be 0
    def zero_mean(mod, *args):
        def body(L, a):
            L.eq('mean', L.mod(f'distributions.{mod}').mean(*(getattr(a, t) for t in args)), 0)
        return body
    q('C08', 'slash.mean', [], zero_mean('slash'), 'slash', ['mean'])
    q('C08', 'studentt.mean', [('df', POS())], zero_mean('studentt', 'df'), 'studentt', ['mean'])
