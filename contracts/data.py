"""
Contracts on functions of data sequences: likelihoods (C10), estimates (C11).
"""
from engine.lab import ob, Dom, SeqDom, REAL, POS, NONNEG, GT, GE, LT, LE, OPEN, CLOSED, INT, SEQ, Env, Skip
from .dists import DISTS
from .families import M, fn, modname, pvals, API, has, clipped


def E(lo=None, hi=None, **k):
    k.setdefault('pool', ())
    return Dom(lo=lo, hi=hi, **k)


# distribution -> domain of one data value (interior of the support)
DATA = {
    'benini': E(lambda e: e.scale), 'benktander1': E(1), 'benktander2': E(1),
    'beta': E(0, 1), 'betabinomial': INT(0, lambda e: e.n), 'betaprime': E(0),
    'binomial': INT(0, lambda e: e.n), 'burr12': E(0), 'gamma': E(0),
    'gompertz': E(0), 'gumbel_max': E(), 'gumbel_min': E(), 'hypsecant': E(),
    'kumaraswamy': E(0, 1), 'loggamma': E(), 'logistic': E(), 'lognormal': E(0),
    'logseries': INT(1), 'nakagami': E(lambda e: e.loc), 'negative_binomial': INT(0),
    'normal': E(), 'pareto': E(lambda e: e.loc + e.scale), 'poisson': INT(0),
    'weibull_max': E(None, lambda e: e.loc), 'weibull_min': E(lambda e: e.loc),
}
COUNTS = ('betabinomial', 'binomial', 'logseries', 'negative_binomial', 'poisson')


def P(d):
    return clipped(d.params)


def interior(params):
    return [(n, OPEN(0, 1, pool=('1/2',)) if n == 'p' else q) for n, q in params]


def c10(d):
    if not has(d, 'nll'):
        return
    disc = d.kind == 'disc'
    lf = 'logpmf' if disc else 'logpdf'
    cases = []
    if d.name == 'genpareto':
        sg = dict(d.params)
        base = [('mu', sg['mu']), ('sigma', sg['sigma'])]
        cases.append(('xi>=0', base + [('xi', NONNEG(pool=(0, 1, '1/2')))], E(lambda e: e.mu)))
        cases.append(('xi<0', base + [('xi', Dom(hi=0, pool=(-1, '-1/2')))],
                      E(lambda e: e.mu, lambda e: e.mu - e.sigma/e.xi)))
    else:
        cases.append(('', P(d), DATA[d.name]))
    if d.name in ('binomial', 'negative_binomial'):
        cases.append(('p-inside', interior(P(d)), DATA[d.name]))
    for lab, params, dm in cases:
        def body(L, a):
            ps = pvals(d, a)
            m = M(L, d)
            f = getattr(m, lf)
            L.eq('nll', m.nll(a.x, *ps), -L.tsum(lambda t: f(t, *ps), a.x))
        ob('C10', f'{d.name}.nll' + ('.' + lab if lab else ''), params + [('x', SEQ(dm))], body,
           funcs=[fn(d, 'nll'), fn(d, lf)], mods=[modname(d)])
    for lab, params, _ in cases if d.name in COUNTS else ():
        def body(L, a):
            ps = pvals(d, a)
            m = M(L, d)
            f = getattr(m, lf)
            L.eq('nll', m.nll(a.x, *ps, counts=a.c), -L.tsum(lambda t, c: c*f(t, *ps), a.x, a.c))
        ob('C10', f'{d.name}.nll-counts' + ('.' + lab if lab else ''), params + [('x', SEQ(DATA[d.name])), ('c', SEQ(INT(0), same_len='x'))],
           body, funcs=[fn(d, 'nll'), fn(d, lf)], mods=[modname(d)])


def c10_more():
    d = DISTS['gamma']

    def body(L, a):
        m = M(L, d)
        L.eq('nll', m.nll([L.m.mpf(0), a.y], 1, a.s), -(m.logpdf(0, 1, a.s) + m.logpdf(a.y, 1, a.s)))
    ob('C10', 'gamma.nll.zero', [('y', POS()), ('s', POS())], body, funcs=[fn(d, 'nll')], mods=[modname(d)])

    def body(L, a, any_k=False):
        m = M(L, d)
        if not any_k:
            L.assume(a.k != 1)
        g = m.nll_grad(a.x, a.k, a.scale)
        L.eq('d/dk', g[0], L.deriv(lambda t: m.nll(a.x, t, a.scale), a.k))
        L.eq('d/dscale', g[1], L.deriv(lambda t: m.nll(a.x, a.k, t), a.scale))
    args = P(d) + [('x', SEQ(DATA['gamma']))]
    ob('C10', 'gamma.nll_grad', args, body, funcs=[fn(d, 'nll'), fn(d, 'nll_grad')], mods=[modname(d)])
    ob('C10', 'gamma.nll_grad.any-k', args, lambda L, a, body=body: body(L, a, True),
       funcs=[fn(d, 'nll'), fn(d, 'nll_grad')], mods=[modname(d)])

    def body(L, a):
        m = M(L, d)
        H = m.nll_hess(a.x, a.k, a.scale)
        for i in (0, 1):
            L.eq(f'H[{i},0]', H[i, 0], L.deriv(lambda t: m.nll_grad(a.x, t, a.scale)[i], a.k))
            L.eq(f'H[{i},1]', H[i, 1], L.deriv(lambda t: m.nll_grad(a.x, a.k, t)[i], a.scale))
    ob('C10', 'gamma.nll_hess', args, body, funcs=[fn(d, 'nll_grad'), fn(d, 'nll_hess')], mods=[modname(d)])

    def body(L, a):
        m = M(L, d)
        H = m.nll_hess(a.x, a.k, a.scale)
        det = H[0, 0]*H[1, 1] - H[0, 1]*H[1, 0]
        L.assume(det != 0)
        J = m.nll_invhess(a.x, a.k, a.scale)
        L.eq('det*J00', det*J[0, 0], H[1, 1])
        L.eq('det*J01', det*J[0, 1], -H[0, 1])
        L.eq('det*J10', det*J[1, 0], -H[1, 0])
        L.eq('det*J11', det*J[1, 1], H[0, 0])
    ob('C10', 'gamma.nll_invhess', args, body, funcs=[fn(d, 'nll_hess'), fn(d, 'nll_invhess')],
       mods=[modname(d)])
    n = DISTS['nakagami']

    def body(L, a):
        m = M(L, n)
        g = m.nll_grad(a.x, a.nu, a.loc, a.scale)
        L.eq('d/dnu', g[0], L.deriv(lambda t: m.nll(a.x, t, a.loc, a.scale), a.nu))
        L.eq('d/dloc', g[1], L.deriv(lambda t: m.nll(a.x, a.nu, t, a.scale), a.loc))
        L.eq('d/dscale', g[2], L.deriv(lambda t: m.nll(a.x, a.nu, a.loc, t), a.scale))
    ob('C10', 'nakagami.nll_grad', P(n) + [('x', SEQ(DATA['nakagami']))], body,
       funcs=[fn(n, 'nll'), fn(n, 'nll_grad')], mods=[modname(n)])
    for name, lead in (('normal', {}), ('genpareto', dict(xi=1)), ('pareto', dict(b=2))):
        dd = DISTS[name]

        def body(L, a, dd=dd, lead=lead):
            m = M(L, dd)
            x = [a.x + 3, a.y + 3]
            L.eq('defaults', m.nll(x, **lead), -(m.logpdf(x[0], **lead) + m.logpdf(x[1], **lead)))
        ob('C10', f'{name}.nll-defaults', [('x', POS()), ('y', POS())], body,
           funcs=[fn(dd, 'nll'), fn(dd, 'logpdf')], mods=[modname(dd)])




# ------------------------------------------------------------------ C11

def subsets(free):
    out = [()]
    for f in free:
        out += [o + (f,) for o in out]
    return out


# distribution -> (estimable parameters, always fixed parameters, keyword arguments?)
MLE = {
    'benktander1': (('a', 'b'), (), 'none'),
    'beta': (('a', 'b'), (), 'all'),
    'betabinomial': (('a', 'b'), ('n',), 'all'),
    'betaprime': (('a', 'b', 'scale'), (), 'all'),
    'binomial': (('p',), ('n',), 'all'),
    'burr12': (('c', 'd', 'scale'), (), 'all'),
    'gamma': (('k', 'scale'), (), 'all'),
    'gompertz': (('c', 'scale'), (), 'all'),
    'gumbel_max': (('loc', 'scale'), (), 'all'),
    'gumbel_min': (('loc', 'scale'), (), 'all'),
    'hypsecant': (('loc', 'scale'), (), 'all'),
    'kumaraswamy': (('a', 'b'), (), 'all'),
    'loggamma': (('k', 'theta'), (), 'all'),
    'logistic': (('loc', 'scale'), (), 'none'),
    'lognormal': (('mu', 'sigma'), (), 'none'),
    'normal': (('mu', 'sigma'), (), 'none'),
    'logseries': (('p',), (), 'none'),
    'nakagami': (('nu', 'scale'), ('loc',), 'all'),
    'negative_binomial': (('r', 'p'), (), 'all'),
    'poisson': (('lam',), (), 'none'),
    'weibull_min': (('k', 'scale'), ('loc',), 'all'),
    'weibull_max': (('k', 'scale'), ('loc',), 'all'),
}


def in_domain(L, d, hats):
    """the estimates are inside the parameter space"""
    env = Env(hats)
    for n, dm in d.params:
        if not L.symbolic and type(hats[n]).__name__ == 'mpc':
            raise Skip()
        lo, hi = dm.bounds(env)
        if lo is not None:
            L.assume(hats[n] > lo)
        if hi is not None:
            L.assume(hats[n] < hi)


def spec_log(d):
    return d.get('logpmf') if d.kind == 'disc' else d.get('logpdf')


def rdom(dm):
    return '01' if dm.lo == 0 and dm.hi == 1 else '+' if dm.lo == 0 else ''


def c11(d):
    free, always, kw = MLE[d.name]
    data = DATA[d.name]
    pd = dict(P(d))
    if 'n' in pd:
        pd['n'] = INT(1)
    for fixed in subsets(free):
        if fixed and kw == 'none':
            continue
        fx = tuple(always) + fixed
        est = [n for n in free if n not in fixed]
        variants = [(None, '')]
        if d.name in COUNTS and fixed != free:
            variants.append(('c', '.counts'))
        for cn, lab in variants:
            def body(L, a, fx=fx, est=est, cn=cn):
                m = M(L, d)
                k = {n: a[n] for n in fx}
                if cn:
                    L.assume(L.tsum(lambda t: t, a.c) > 0)
                    k['counts'] = a.c
                if est and d.name != 'poisson' and not L.symbolic and len(set(a.x)) < 2 and not cn:
                    raise Skip()
                if d.name in ('beta', 'gumbel_max', 'gumbel_min', 'hypsecant', 'logistic', 'normal') and L.symbolic:
                    mn = L.tsum(lambda t: t, a.x)/L.len(a.x)
                    L.assume(L.tsum(lambda t: (t - mn)**2, a.x) > 0)
                if L.symbolic and est:
                    one = [rdom(pd[n]) for n in est]
                    L.rootdom({1: [max(one)], len(est): one} if len(est) > 1 else {1: one})
                try:
                    r = m.mle(a.x, **k)
                except RuntimeError:
                    raise Skip()
                if d.name in ('poisson', 'logseries'):
                    r = (r,)
                L.true('one value per parameter', len(r) == len(d.pn))
                hats = dict(zip(d.pn, r))
                for n in fx:
                    L.eq(f'{n} is the fixed value', hats[n], a[n])
                if est:
                    in_domain(L, d, hats)
                    lf = spec_log(d)

                    def f(x, *th):
                        q = dict(hats)
                        q.update(zip(est, th))
                        return lf(L.m, x, *[q[n] for n in d.pn])
                    sc = L.score(f, [hats[n] for n in est], a.x, a.c if cn else None)
                    for n, (v, s) in zip(est, sc):
                        L.zero(f'dl/d{n}', v, s)
            args = [(n, pd[n]) for n in d.pn if n in fx] + [('x', SEQ(data, nmin=2, distinct=not cn))]
            if cn:
                args.append(('c', SEQ(INT(0, pool=(1, 2, 3)), same_len='x')))
            ob('C11', f'{d.name}.mle.' + ('free-' + '-'.join(est) if est else 'all-fixed') + lab, args, body,
               funcs=[fn(d, 'mle')], mods=[modname(d)], samples=5)


def fit(L, m, x, fx, a, d):
    try:
        return dict(zip(d.pn, m.mle(x, **{n: a[n] for n in fx})))
    except RuntimeError:
        raise Skip()


def c11_special():
    d = DISTS['laplace']
    for fx in subsets(('loc', 'scale')):
        def body(L, a, fx=fx):
            m = M(L, d)
            h = fit(L, m, a.x, fx, a, d)
            for n in fx:
                L.eq(f'{n} is the fixed value', h[n], a[n])
            n = L.len(a.x)
            if 'scale' not in fx:
                L.eq('scale', n*h['scale'], L.tsum(lambda t: abs(t - h['loc']), a.x))
            if 'loc' not in fx:
                below = L.tsum(lambda t: L.ind(t < h['loc']), a.x)
                above = L.tsum(lambda t: L.ind(t > h['loc']), a.x)
                L.le('at most half below', 2*below, n)
                L.le('at most half above', 2*above, n)
        est = [n for n in ('loc', 'scale') if n not in fx]
        ob('C11', 'laplace.mle.' + ('free-' + '-'.join(est) if est else 'all-fixed'),
           [(n, dict(P(d))[n]) for n in fx] + [('x', SEQ(E()))], body, funcs=[fn(d, 'mle')], mods=[modname(d)])

    def body(L, a):
        m = M(L, DISTS['uniform'])
        r = m.mle(a.x)
        L.eq('a', r[0], L.minimum(a.x))
        L.eq('b', r[1], L.maximum(a.x))
    ob('C11', 'uniform.mle', [('x', SEQ(E()))], body, funcs=[fn(DISTS['uniform'], 'mle')], mods=['distributions.uniform'])

    p = DISTS['pareto']
    for fx in subsets(('b', 'loc', 'scale')):
        if {'loc', 'scale'} <= set(fx):
            dm = E(lambda e: e.loc + e.scale)
        elif 'loc' in fx:
            dm = E(lambda e: e.loc)
        else:
            dm = E()

        def body(L, a, fx=fx):
            m = M(L, p)
            if L.symbolic:
                L.rootdom({1: ['+'], 2: ['+', '+']})
            h = fit(L, m, a.x, fx, a, p)
            x1 = L.minimum(a.x)
            for n in fx:
                L.eq(f'{n} is the fixed value', h[n], a[n])
            if len(fx) == 3:
                return
            if not L.symbolic and any(type(v).__name__ == 'mpc' for v in h.values()):
                raise Skip()
            for n in ('b', 'scale'):
                L.assume(h[n] > 0)
            if not {'loc', 'scale'} <= set(fx):
                L.eq('loc + scale is the minimum', h['loc'] + h['scale'], x1)
            est = [n for n in ('b', 'scale') if n not in fx]
            if 'loc' in fx:
                est = [n for n in est if n != 'scale']
            if not est:
                return
            lf = p.get('logpdf')

            def f(x, *th):
                q = dict(h)
                q.update(zip(est, th))
                if 'loc' not in fx:
                    # along the boundary loc + scale = min(x)
                    lg = L.m.log
                    return lg(q['b']) + q['b']*lg(q['scale']) - (q['b'] + 1)*lg(x - x1 + q['scale'])
                return lf(L.m, x, *[q[n] for n in p.pn])
            for n, (v, s) in zip(est, L.score(f, [h[n] for n in est], a.x)):
                L.zero(f'dl/d{n}', v, s)
        est = [n for n in ('b', 'loc', 'scale') if n not in fx]
        ob('C11', 'pareto.mle.' + ('free-' + '-'.join(est) if est else 'all-fixed'),
           [(n, dict(P(p))[n]) for n in fx] + [('x', SEQ(dm, nmin=2, distinct=True))], body,
           funcs=[fn(p, 'mle')], mods=[modname(p)])

    for name in ('gamma', 'beta', 'gumbel_max', 'gumbel_min', 'laplace', 'logistic', 'lognormal', 'uniform'):
        dd = DISTS[name]
        data = DATA.get(name, E())

        def body(L, a, dd=dd):
            m = M(L, dd)
            x = a.x
            n = L.len(x)
            M1 = L.tsum(lambda t: t, x)/n
            M2 = L.tsum(lambda t: t**2, x)/n
            L.assume(M2 - M1**2 > 0)
            if dd.name == 'beta' and L.symbolic:
                L.assume(M1 - M2 > 0, M1 > 0, M1 < 1)
            r = m.mom(x)
            mean, var = moments(L, dd, r)
            L.eq('mean', mean, M1)
            L.eq('variance', var, M2 - M1**2)
        ob('C11', f'{name}.mom', [('x', SEQ(data, nmin=2, distinct=True))], body, funcs=[fn(dd, 'mom')],
           mods=[modname(dd)])


def moments(L, d, r):
    m = L.m
    if d.name == 'gamma':
        return r[0]*r[1], r[0]*r[1]**2
    if d.name == 'beta':
        a, b = r
        return a/(a + b), a*b/((a + b)**2*(a + b + 1))
    if d.name == 'gumbel_max':
        return r[0] + m.euler*r[1], m.pi**2*r[1]**2/6
    if d.name == 'gumbel_min':
        return r[0] - m.euler*r[1], m.pi**2*r[1]**2/6
    if d.name == 'laplace':
        return r[0], 2*r[1]**2
    if d.name == 'logistic':
        return r[0], m.pi**2*r[1]**2/3
    if d.name == 'lognormal':
        return m.exp(r[0] + r[1]**2/2), (m.exp(r[1]**2) - 1)*m.exp(2*r[0] + r[1]**2)
    if d.name == 'uniform':
        return (r[0] + r[1])/2, (r[1] - r[0])**2/12


def generate(prop):
    if prop == 'C10':
        for d in DISTS.values():
            c10(d)
        c10_more()
    if prop == 'C11':
        for n in MLE:
            c11(DISTS[n])
        c11_special()
