"""
Contracts of mpsci.stats: C16 (descriptive statistics), C17 (tests).
"""
from engine.lab import ob, REAL, POS, OPEN, NONNEG, GT, LT, GE, CLOSED, INT, SEQ, Dom, Skip

S = 'mpsci.stats.'
B = S + '_basic.'
V = REAL(pool=('0', '1', '-1', '1/2'), clip=(-40, 40))
VP = POS(pool=('1', '2', '1/2'), clip=('1/64', 40))
W = NONNEG(pool=('0', '1', '2', '1/2'), clip=(0, 9))
WP = POS(pool=('1', '2', '1/2'), clip=('1/64', 9))


def st(L):
    return L.mod('stats')


# ---------------------------------------------------------------------- C16

def c16(prop):
    def o(name, args, body, funcs, **k):
        ob(prop, name, args, body, funcs=[(B + f if '.' not in f else S + f) for f in funcs], mods=['stats', 'distributions.f'], **k)

    def mean_of(L, x, w=None):
        if w is None:
            return L.sum(x)/L.len(x)
        return L.tsum(lambda t, c: t*c, x, w)/L.sum(w)

    def var_of(L, x, ddof=0):
        m = mean_of(L, x)
        return L.tsum(lambda t: (t - m)**2, x)/(L.len(x) - ddof)

    o('mean', [('x', SEQ(V))], lambda L, a: L.eq('sum/n', st(L).mean(a.x), mean_of(L, a.x)), ['mean'])

    def wmean(L, a):
        L.assume(L.sum(a.w) != 0)
        L.eq('weighted', st(L).mean(a.x, weights=a.w), mean_of(L, a.x, a.w))
    o('mean.weights', [('x', SEQ(V)), ('w', SEQ(REAL(pool=('0', '1', '2', '-1')), same_len='x'))], wmean, ['mean'])

    def affine(L, a):
        s = st(L)
        y = L.map(lambda t: a.c + a.k*t, a.x)
        L.eq('mean', s.mean(y), a.c + a.k*s.mean(a.x))
        n = L.len(a.x)
        L.assume(n != a.d)
        L.eq('var', s.var(y, ddof=a.d), a.k**2*s.var(a.x, ddof=a.d))
    o('affine', [('x', SEQ(V)), ('c', REAL()), ('k', REAL()), ('d', INT(0, 1))], affine, ['mean', 'var'])

    def affine_std(L, a):
        s = st(L)
        L.eq('std', s.std(L.map(lambda t: a.c + a.k*t, a.x)), a.k*s.std(a.x))
    o('affine.std', [('x', SEQ(V, distinct=True, nmin=2)), ('c', REAL()), ('k', POS())], affine_std, ['std', 'var'])

    def wscale(L, a):
        s = st(L)
        L.assume(L.sum(a.w) != 0)
        L.eq('weights scale', s.mean(a.x, weights=L.map(lambda t: a.k*t, a.w)), s.mean(a.x, weights=a.w))
        L.eq('equal weights', s.mean(a.x, weights=L.map(lambda t: a.k, a.x)), s.mean(a.x))
    o('mean.weight-scale', [('x', SEQ(V)), ('w', SEQ(W, same_len='x')), ('k', POS())], wscale, ['mean'])

    def zw(L, a):
        L.raises('sum of weights 0', ZeroDivisionError, lambda: st(L).mean([a.x, a.y], weights=[a.w, -a.w]))
        L.raises('lengths', ValueError, lambda: st(L).mean([a.x, a.y], weights=[a.w]))
        L.raises('gmean: sum of weights 0', ValueError, lambda: st(L).gmean([a.x, a.y], weights=[0, 0]))
        L.raises('gmean: lengths', ValueError, lambda: st(L).gmean([a.x, a.y], weights=[a.w]))
        L.raises('gmean: negative', ValueError, lambda: st(L).gmean([a.x, -a.y]))
        for p in (L.m.mpf(2), 0, 1, L.inf):
            L.raises('lehmer_mean: negative', ValueError, lambda: st(L).lehmer_mean([a.x, -a.y], p=p))
            L.raises('lehmer_mean: zero', ValueError, lambda: st(L).lehmer_mean([a.x, 0], p=p))
    o('reject', [('x', POS()), ('y', POS()), ('w', POS())], zw, ['mean', 'gmean', 'lehmer_mean'])

    def var(L, a):
        n = L.len(a.x)
        L.assume(n != a.d)
        L.eq('var', st(L).var(a.x, ddof=a.d), var_of(L, a.x, a.d))
    o('var', [('x', SEQ(V)), ('d', REAL(pool=('0', '1', '2', '1/2', '3/2')))], var, ['var'])
    o('var.default', [('x', SEQ(V))], lambda L, a: L.eq('ddof = 0', st(L).var(a.x), var_of(L, a.x)), ['var'])

    def std(L, a):
        n = L.len(a.x)
        L.assume(n > a.d)
        v = var_of(L, a.x, a.d)
        L.eq('std', st(L).std(a.x, ddof=a.d), L.m.sqrt(v))
        L.eq('positional', st(L).std(a.x, a.d), L.m.sqrt(v))
        L.eq('default ddof = 0', st(L).std(a.x), L.m.sqrt(var_of(L, a.x)))
    o('std', [('x', SEQ(V)), ('d', REAL(pool=('0', '1', '2', '1/2')))], std, ['std', 'var'])

    def variation(L, a):
        n = L.len(a.x)
        L.assume(n > a.d)
        mu = mean_of(L, a.x)
        L.assume(mu != 0)
        L.eq('std/mean', st(L).variation(a.x, ddof=a.d), L.m.sqrt(var_of(L, a.x, a.d))/mu)
    o('variation', [('x', SEQ(V)), ('d', REAL(pool=('0', '1', '2')))], variation, ['variation', 'std', 'var', 'mean'])

    def variation1(L, a):
        mu = mean_of(L, a.x)
        L.assume(mu != 0)
        L.eq('std/mean, ddof = 1', st(L).variation(a.x), L.m.sqrt(var_of(L, a.x, 1))/mu)
    o('variation.default', [('x', SEQ(V, nmin=2))], variation1, ['variation', 'std', 'var', 'mean'])

    # ---- geometric
    def gm(L, x, w=None):
        m = L.m
        if w is None:
            return m.exp(L.tsum(lambda t: m.log(t), x)/L.len(x))
        return m.exp(L.tsum(lambda t, c: c*m.log(t), x, w)/L.sum(w))

    o('gmean', [('x', SEQ(VP))], lambda L, a: L.eq('gmean', st(L).gmean(a.x), gm(L, a.x)), ['gmean'])
    o('gmean.weights', [('x', SEQ(VP)), ('w', SEQ(WP, same_len='x'))],
      lambda L, a: L.eq('gmean', st(L).gmean(a.x, weights=a.w), gm(L, a.x, a.w)), ['gmean'])

    def gzero(L, a):
        s = st(L)
        L.eq('a zero value', s.gmean([a.x, 0, a.y]), 0)
        L.eq('a zero value with weight', s.gmean([a.x, 0, a.y], weights=[a.w, a.w, 0]), 0)
        L.eq('a zero value with weight 0', s.gmean([a.x, 0, a.y], weights=[a.w, 0, a.w]), s.gmean([a.x, a.y]))
        L.eq('one value', s.gmean([a.x]), a.x)
        L.eq('two values', s.gmean([a.x, a.y])**2, a.x*a.y)
    o('gmean.cases', [('x', POS()), ('y', POS()), ('w', POS())], gzero, ['gmean'])

    def gscale(L, a):
        s = st(L)
        y = L.map(lambda t: a.k*t, a.x)
        L.eq('gmean', s.gmean(y), a.k*s.gmean(a.x))
        L.eq('weighted', s.gmean(y, weights=a.w), a.k*s.gmean(a.x, weights=a.w))
        L.eq('hmean', s.hmean(y), a.k*s.hmean(a.x))
        L.eq('hmean weighted', s.hmean(y, weights=a.w), a.k*s.hmean(a.x, weights=a.w))
    o('scale', [('x', SEQ(VP)), ('w', SEQ(WP, same_len='x')), ('k', POS())], gscale, ['gmean', 'hmean'])

    # ---- harmonic
    def hm(L, x, w=None):
        if w is None:
            return L.len(x)/L.tsum(lambda t: 1/t, x)
        return L.sum(w)/L.tsum(lambda t, c: c/t, x, w)

    o('hmean', [('x', SEQ(VP))], lambda L, a: L.eq('hmean', st(L).hmean(a.x), hm(L, a.x)), ['hmean'])
    o('hmean.weights', [('x', SEQ(VP)), ('w', SEQ(WP, same_len='x'))],
      lambda L, a: L.eq('hmean', st(L).hmean(a.x, weights=a.w), hm(L, a.x, a.w)), ['hmean'])

    def hneg(L, a):
        L.assume(a.x != 0)
        L.assume(a.y != 0)
        L.assume(1/a.x + 1/a.y != 0)
        L.eq('two values of any sign', st(L).hmean([a.x, a.y]), 2*a.x*a.y/(a.x + a.y))
        L.eq('weighted', st(L).hmean([a.x, a.y], weights=[1, 1]), 2*a.x*a.y/(a.x + a.y))
    o('hmean.signs', [('x', V), ('y', V)], hneg, ['hmean'])

    def hcases(L, a):
        s, inf = st(L), L.inf
        L.eq('zero', s.hmean([a.x, 0, a.y]), 0)
        L.eq('zero first', s.hmean([0, -a.x]), 0)
        L.true('balanced', L.m.isnan(s.hmean([a.x, -a.x])))
        L.eq('inf', s.hmean([inf, inf]), inf)
        L.eq('-inf', s.hmean([-inf, -inf]), -inf)
        L.true('inf and -inf', L.m.isnan(s.hmean([inf, -inf])))
        L.eq('x and inf', s.hmean([a.x, inf]), 2*a.x)
    o('hmean.cases', [('x', POS()), ('y', POS())], hcases, ['hmean'])

    # ---- power mean, Lehmer mean
    def pm(L, x, p, w=None):
        m = L.m
        if w is None:
            v = L.tsum(lambda t: m.exp(p*m.log(t)), x)/L.len(x)
        else:
            v = L.tsum(lambda t, c: c*m.exp(p*m.log(t)), x, w)/L.sum(w)
        return m.exp(m.log(v)/p)
    PW = REAL(pool=('2', '3', '-2', '1/2', '-1/2', '1', '-1'), clip=(-6, 6))

    def pmean(L, a):
        L.assume(a.p != 0)
        L.eq('pmean', st(L).pmean(a.x, p=a.p), pm(L, a.x, a.p))
    o('pmean', [('x', SEQ(VP)), ('p', PW)], pmean, ['pmean'])

    def pmeanw(L, a):
        L.assume(a.p != 0)
        L.eq('pmean', st(L).pmean(a.x, p=a.p, weights=a.w), pm(L, a.x, a.p, a.w))
    o('pmean.weights', [('x', SEQ(VP)), ('p', PW), ('w', SEQ(WP, same_len='x'))], pmeanw, ['pmean'])

    def pspecial(L, a):
        s = st(L)
        L.eq('p = 0', s.pmean(a.x, p=0), gm(L, a.x))
        L.eq('p = 0, weights', s.pmean(a.x, p=0, weights=a.w), gm(L, a.x, a.w))
        L.eq('p = 1', s.pmean(a.x, p=1), mean_of(L, a.x))
        L.eq('p = 1, weights', s.pmean(a.x, p=1, weights=a.w), mean_of(L, a.x, a.w))
        L.eq('p = -1', s.pmean(a.x, p=-1), hm(L, a.x))
        L.eq('p = -1, weights', s.pmean(a.x, p=-1, weights=a.w), hm(L, a.x, a.w))
    o('pmean.special', [('x', SEQ(VP)), ('w', SEQ(WP, same_len='x'))], pspecial, ['pmean', 'gmean', 'mean', 'hmean'])

    def pinf(L, a):
        s = st(L)
        hi, lo = L.maximum(a.x), L.minimum(a.x)
        L.eq('p = inf', s.pmean(a.x, p=L.inf), hi)
        L.eq('p = -inf', s.pmean(a.x, p=-L.inf), lo)
        L.eq('Lehmer p = inf', s.lehmer_mean(a.x, p=L.inf), hi)
        L.eq('Lehmer p = -inf', s.lehmer_mean(a.x, p=-L.inf), lo)
    o('extremes', [('x', SEQ(VP))], pinf, ['pmean', 'lehmer_mean'])

    def lm(L, x, p, w=None):
        m = L.m
        pw = (lambda t, q: m.exp(q*m.log(t)))
        if w is None:
            return L.tsum(lambda t: pw(t, p), x)/L.tsum(lambda t: pw(t, p - 1), x)
        return L.tsum(lambda t, c: c*pw(t, p), x, w)/L.tsum(lambda t, c: c*pw(t, p - 1), x, w)

    def lehmer(L, a):
        L.assume(a.p != L.q(1, 2))
        L.eq('lehmer_mean', st(L).lehmer_mean(a.x, p=a.p), lm(L, a.x, a.p))
    o('lehmer_mean', [('x', SEQ(VP)), ('p', PW)], lehmer, ['lehmer_mean'])

    def lehmerw(L, a):
        L.assume(a.p != L.q(1, 2))
        L.eq('lehmer_mean', st(L).lehmer_mean(a.x, p=a.p, weights=a.w), lm(L, a.x, a.p, a.w))
    o('lehmer_mean.weights', [('x', SEQ(VP)), ('p', PW), ('w', SEQ(WP, same_len='x'))], lehmerw, ['lehmer_mean'])

    def lspecial(L, a):
        s = st(L)
        L.eq('p = 0', s.lehmer_mean(a.x, p=0), hm(L, a.x))
        L.eq('p = 0, weights', s.lehmer_mean(a.x, p=0, weights=a.w), hm(L, a.x, a.w))
        L.eq('p = 1', s.lehmer_mean(a.x, p=1), mean_of(L, a.x))
        L.eq('p = 1, weights', s.lehmer_mean(a.x, p=1, weights=a.w), mean_of(L, a.x, a.w))
    o('lehmer_mean.special', [('x', SEQ(VP)), ('w', SEQ(WP, same_len='x'))], lspecial, ['lehmer_mean', 'mean', 'hmean'])

    half = (lambda L: L.q(1, 2))

    def lhalf2(L, a):
        L.eq('p = 1/2, two values', st(L).lehmer_mean([a.x, a.y], p=half(L))**2, a.x*a.y)
    o('lehmer_mean.half.two', [('x', VP), ('y', VP)], lhalf2, ['lehmer_mean'])

    def lhalf(L, a):
        L.eq('p = 1/2', st(L).lehmer_mean([a.x, a.y, a.z], p=half(L)), lm(L, [a.x, a.y, a.z], half(L)))
    o('lehmer_mean.half', [('x', VP), ('y', VP), ('z', VP)], lhalf, ['lehmer_mean'])

    def lhalfw(L, a):
        L.eq('p = 1/2', st(L).lehmer_mean([a.x, a.y], p=half(L), weights=[a.w, a.v]),
             lm(L, [a.x, a.y], half(L), [a.w, a.v]))
    o('lehmer_mean.half.weights', [('x', VP), ('y', VP), ('w', WP), ('v', WP)], lhalfw, ['lehmer_mean'])

    # ---- unique_counts
    def uniq(n):
        def body(L, a):
            x = [a['x%d' % i] for i in range(n)]
            v, c = st(L).unique_counts(x)
            L.true('lengths', len(v) == len(c))
            L.true('strictly increasing', all(bool(s < t) for s, t in zip(v, v[1:])))
            L.true('total', sum(c) == n)
            for i, t in enumerate(v):
                L.eq(f'count {i}', c[i], sum(1 for y in x if y == t))
        o(f'unique_counts.{n}', [('x%d' % i, INT(-2, 2)) for i in range(n)], body, ['unique_counts'],
          note='data sequences of this length', samples=20)
    for n in (1, 2, 3):
        uniq(n)

    def uniqn(L, a):
        v, c = st(L).unique_counts(a.x)
        L.true('strictly increasing', all(s < t for s, t in zip(v, v[1:])))
        L.true('counts', [c[i] for i in range(len(v))] == [sum(1 for y in a.x if y == t) for t in v])
        L.true('total', sum(c) == len(a.x))
    o('unique_counts', [('x', SEQ(INT(-2, 2), nmax=9))], uniqn, ['unique_counts'], sym=False, samples=20)

    # ---- log-likelihoods of the transforms
    def bc(m, x, lam):
        return m.log(x) if lam == 0 else (m.exp(lam*m.log(x)) - 1)/lam

    def yj(m, x, lam):
        if x >= 0:
            return m.log(1 + x) if lam == 0 else (m.exp(lam*m.log(1 + x)) - 1)/lam
        return -m.log(1 - x) if lam == 2 else -(m.exp((2 - lam)*m.log(1 - x)) - 1)/(2 - lam)
    LAM = REAL(pool=('0', '1', '2', '-1', '1/2'), clip=(-5, 5))

    def distinct(L, x):
        if not L.symbolic and len(set(x)) < 2:
            raise Skip()

    def bcl(L, a):
        m = L.m
        distinct(L, a.x)
        v = var_of(L, L.map(lambda t: bc(m, t, a.lam), a.x))
        L.assume(v > 0)
        L.eq('llf', st(L).boxcox_llf(a.lam, a.x),
             (a.lam - 1)*L.tsum(lambda t: m.log(t), a.x) - L.len(a.x)*m.log(v)/2)
    o('boxcox_llf', [('lam', LAM), ('x', SEQ(VP, nmin=2, distinct=True))], bcl, ['_boxcox_mle.boxcox_llf'])

    def bcl0(L, a):
        m = L.m
        distinct(L, a.x)
        v = var_of(L, L.map(lambda t: m.log(t), a.x))
        L.assume(v > 0)
        L.eq('llf', st(L).boxcox_llf(0, a.x), -L.tsum(lambda t: m.log(t), a.x) - L.len(a.x)*m.log(v)/2)
    o('boxcox_llf.lambda=0', [('x', SEQ(VP, nmin=2, distinct=True))], bcl0, ['_boxcox_mle.boxcox_llf'])

    def yjl(dom, tag):
        def body(L, a):
            m = L.m
            distinct(L, a.x)
            v = var_of(L, L.map(lambda t: yj(m, t, a.lam), a.x))
            L.assume(v > 0)
            L.eq('llf', st(L).yeojohnson_llf(a.lam, a.x),
                 (a.lam - 1)*L.tsum(lambda t: m.sign(t)*m.log(1 + abs(t)), a.x) - L.len(a.x)*m.log(v)/2)
        o('yeojohnson_llf.' + tag, [('lam', LAM), ('x', SEQ(dom, nmin=2, distinct=True))], body,
          ['_yeojohnson_mle.yeojohnson_llf'])
    yjl(POS(clip=('1/64', 20)), 'positive')

    def yjneg(L, a):
        # x = -y < 0 and lambda = 2 - mu
        m = L.m
        distinct(L, a.y)
        x, lam = L.map(lambda t: -t, a.y), 2 - a.mu
        v = var_of(L, L.map(lambda t: bc(m, 1 + t, a.mu), a.y))
        L.assume(v > 0)
        L.eq('llf', st(L).yeojohnson_llf(lam, x),
             (a.mu - 1)*L.tsum(lambda t: m.log(1 + t), a.y) - L.len(a.y)*m.log(v)/2)
    o('yeojohnson_llf.negative', [('mu', LAM), ('y', SEQ(POS(clip=('1/64', 20)), nmin=2, distinct=True))], yjneg,
      ['_yeojohnson_mle.yeojohnson_llf'])

    def yj2(L, a):
        m = L.m
        x = [a.x, -a.y, 0]
        t = [yj(m, v, a.lam) for v in (a.x, -a.y, L.m.mpf(0))]
        mu = (t[0] + t[1] + t[2])/3
        v = ((t[0] - mu)**2 + (t[1] - mu)**2 + (t[2] - mu)**2)/3
        L.assume(v > 0)
        L.eq('llf', st(L).yeojohnson_llf(a.lam, x),
             (a.lam - 1)*(m.log(1 + a.x) - m.log(1 + a.y)) - 3*m.log(v)/2)
    o('yeojohnson_llf.mixed', [('lam', LAM), ('x', POS(clip=('1/64', 20))), ('y', POS(clip=('1/64', 20)))], yj2,
      ['_yeojohnson_mle.yeojohnson_llf'])

    def empty(L, a):
        L.raises('no data', ValueError, lambda: st(L).yeojohnson_llf(a.lam, []))
    o('yeojohnson_llf.empty', [('lam', LAM)], empty, ['_yeojohnson_mle.yeojohnson_llf'])

    # ---- the fitted transform parameter is a stationary point of the log-likelihood
    def fit(name, dom, seqs):
        mod = f'_{name}_mle.{name}_mle'

        def body(L, a):
            s = st(L)
            lam0 = a.lam0
            v = getattr(s, name + '_mle')(a.x, lam0)
            llf = getattr(s, name + '_llf')
            L.zero('d llf/d lambda', L.deriv(lambda t: llf(t, a.x), v), tol='1e-8')
        o(name + '_mle', [('x', SEQ(dom, nmin=3, distinct=True, nmax=6)), ('lam0', CLOSED(0, 1))], body, [mod],
          samples=4, sym=False)
    fit('boxcox', POS(clip=('1/8', 20)), None)
    fit('yeojohnson', REAL(clip=(-10, 20)), None)


# ---------------------------------------------------------------------- C17

def c17(prop):
    def o(name, args, body, funcs, **k):
        ob(prop, name, args, body, funcs=[S + f for f in funcs], mods=['stats', 'distributions.f', 'distributions.normal'], **k)

    ALT = ('two-sided', 'less', 'greater')

    def chi2_sf(L, x, df):
        m = L.m
        return m.gammainc(m.mpf(df)/2, x/2, m.inf)/m.gamma(m.mpf(df)/2)

    # ---- goodness of fit
    def xlogx(L, ob_, ex):
        return 0 if ob_ == 0 else 2*ob_*L.m.log(ob_/ex)

    def gof(name, term, dom):
        def body(L, a):
            m = L.m
            L.assume(L.sum(a.o) == L.sum(a.e))
            stat, p = getattr(st(L), name)(a.o, a.e)
            ref = L.tsum(lambda s, t: term(L, s, t), a.o, a.e)
            L.assume(ref >= 0)      # always: a sum of squares / Gibbs' inequality
            L.eq('statistic', stat, ref)
            df = L.len(a.o) - 1
            L.eq('p = chi-square tail', p, m.gammainc(df/m.mpf(2), ref/2, m.inf)/m.gamma(df/m.mpf(2)))
        o(name, [('o', SEQ(dom, nmin=2)), ('e', SEQ(POS(), same_len='o'))], body, ['_goftests.' + name],
          conc=False)

        def body(L, a):
            m = L.m
            e = [a.u, a.v, a.w]
            x = [a.a, a.b, a.u + a.v + a.w - a.a - a.b]
            L.assume(x[2] >= 0 if name == 'chisquare' else x[2] > 0)
            # the sums agree to within rounding in the concrete run
            tol = m.mpf('1e-10') if not L.symbolic else None
            stat, p = getattr(st(L), name)(x, e, sum_rel_tol=tol)
            ref = term(L, x[0], e[0]) + term(L, x[1], e[1]) + term(L, x[2], e[2])
            L.assume(ref >= 0)      # always: a sum of squares / Gibbs' inequality
            L.eq('statistic', stat, ref)
            L.eq('p = chi-square tail', p, chi2_sf(L, ref, 2))
            y = [x[2], x[0], x[1]]
            stat2, p2 = getattr(st(L), name)(y, [e[2], e[0], e[1]], sum_rel_tol=tol)
            L.eq('order', stat2, stat)
            L.eq('order: p', p2, p)
        o(name + '.three', [('a', dom), ('b', POS()), ('u', POS()), ('v', POS()), ('w', POS())], body,
          ['_goftests.' + name])

        def same(L, a):
            stat, p = getattr(st(L), name)([a.a, a.b], [a.a, a.b])
            L.eq('statistic', stat, 0)
            L.eq('p', p, 1)
        o(name + '.equal', [('a', POS()), ('b', POS())], same, ['_goftests.' + name])

        def rej(L, a):
            f = getattr(st(L), name)
            L.raises('sums differ', ValueError, lambda: f([a.a, a.b], [a.a, a.b + a.d]))
            L.raises('sums differ (observed)', ValueError, lambda: f([a.a, a.b + a.d], [a.a, a.b]))
        # symbolically the tolerance is 0
        o(name + '.reject', [('a', POS(clip=('1/8', 9))), ('b', POS(clip=('1/8', 9))), ('d', POS(clip=('1/64', 9)))],
          rej, ['_goftests.' + name])
    gof('chisquare', lambda L, s, t: (s - t)**2/t, NONNEG(pool=('0', '1', '2')))
    gof('gtest', xlogx, POS(pool=('1', '2')))

    def gzero(L, a):
        m = L.m
        e = (a.a + a.b)/3
        tol = m.mpf('1e-10') if not L.symbolic else None
        stat, p = st(L).gtest([a.a, a.b, 0], [e, e, e], sum_rel_tol=tol)
        ref = 2*a.a*m.log(a.a/e) + 2*a.b*m.log(a.b/e)
        L.assume(ref >= 0)      # always: Gibbs' inequality
        L.eq('zero count', stat, ref)
        L.eq('p', p, chi2_sf(L, ref, 2))
    o('gtest.zero', [('a', POS()), ('b', POS())], gzero, ['_goftests.gtest'])

    # ---- analysis of variance
    def f_sf(L, x, d1, d2):
        m = L.m
        if L.symbolic:
            return L.mod('distributions.f').sf(x, d1, d2)       # under contract in C02, C03, C05
        return 1 - m.betainc(m.mpf(d1)/2, m.mpf(d2)/2, 0, d1*x/(d1*x + d2), regularized=True)

    def deviations(L, x, name):
        """(x, its mean, sum of squared deviations); symbolically every sequence is
        given as mean + deviations with sum 0"""
        if L.symbolic:
            mu = L.unknown('mean_' + name)
            L.assume(L.sum(x) == 0)
            return L.map(lambda t: mu + t, x), mu, L.tsum(lambda t: t*t, x)
        mu = L.sum(x)/L.len(x)
        return x, mu, L.tsum(lambda t: (t - mu)**2, x)

    def anova(L, a):
        m = L.m
        n1, n2 = L.len(a.x), L.len(a.y)
        N = n1 + n2
        x, m1, s1 = deviations(L, a.x, 'x')
        y, m2, s2 = deviations(L, a.y, 'y')
        if L.symbolic:
            # group means as grand mean + deviations with weighted sum 0
            g = L.unknown('grand')
            m2 = -(n1*m1)/m.mpf(n2)
            y = L.map(lambda t: g + m2 + t, a.y)
            x = L.map(lambda t: g + t, x)
        else:
            g = (n1*m1 + n2*m2)/N
            m1, m2 = m1 - g, m2 - g
        vb = n1*m1**2 + n2*m2**2
        vw = s1 + s2
        L.assume(vw > 0)
        L.assume(m1 != 0)       # vb = 0 is anova_oneway.equal-means
        F = vb/(vw/(N - 2))
        r = st(L).anova_oneway(x, y)
        L.eq('F', r.f, F)
        L.eq('p = F tail', r.p, f_sf(L, r.f, 1, N - 2))

    def anova3(L, a):
        m = L.m
        g = [a.x, a.y, a.z]
        n = [L.len(t) for t in g]
        N = n[0] + n[1] + n[2]
        gm = (L.sum(g[0]) + L.sum(g[1]) + L.sum(g[2]))/N
        mu = [L.sum(t)/k for t, k in zip(g, n)]
        vb = sum((k*(t - gm)**2 for k, t in zip(n, mu)), 0)
        vw = sum((L.tsum(lambda t, c=c: (t - c)**2, s) for s, c in zip(g, mu)), 0)
        L.assume(vw > 0)
        L.assume(vb > 0)
        F = (vb/2)/(vw/(N - 3))
        r = st(L).anova_oneway(*g)
        L.eq('F', r.f, F)
        L.eq('p = F tail', r.p, f_sf(L, r.f, 2, N - 3))
    SQ = SEQ(REAL(clip=(-20, 20)), nmin=2, distinct=True, nmax=4)
    o('anova_oneway.two', [('x', SQ), ('y', SQ)], anova, ['_anova.anova_oneway'], samples=6, budget=60)
    o('anova_oneway.three', [('x', SQ), ('y', SQ), ('z', SQ)], anova3, ['_anova.anova_oneway'], samples=6)

    def anova2(L, a):
        # groups of two: x +- s, y +- t
        m = L.m
        r = st(L).anova_oneway([a.x + a.s, a.x - a.s], [a.y + a.t, a.y - a.t])
        F = (a.x - a.y)**2/(a.s**2 + a.t**2)
        L.eq('F', r.f, F)
        q = st(L).anova_oneway([a.y - a.t, a.y + a.t], [a.x + a.s, a.x - a.s])
        L.eq('symmetric F', q.f, F)
        L.eq('symmetric p', q.p, r.p)
        L.assume(a.x != a.y)
        L.eq('p', r.p, f_sf(L, r.f, 1, 2))
    o('anova_oneway.pairs', [('x', V), ('y', V), ('s', POS()), ('t', NONNEG())], anova2, ['_anova.anova_oneway'])

    def anova_shift(L, a):
        f = st(L).anova_oneway
        r = f([a.x + a.s, a.x - a.s], [a.y + a.t, a.y - a.t])
        k, c = a.k, a.c
        q = f([c + k*(a.x + a.s), c + k*(a.x - a.s)], [c + k*(a.y + a.t), c + k*(a.y - a.t)])
        L.eq('affine F', q.f, r.f)
        L.eq('affine p', q.p, r.p)
    o('anova_oneway.affine', [('x', V), ('y', V), ('s', POS()), ('t', NONNEG()), ('c', V), ('k', POS())],
      anova_shift, ['_anova.anova_oneway'])

    def anova_const(L, a):
        L.assume(a.x != a.y)
        r = st(L).anova_oneway([a.x, a.x], [a.y, a.y, a.y])
        L.eq('F', r.f, L.inf)
        L.eq('p', r.p, 0)
    o('anova_oneway.constant', [('x', V), ('y', V)], anova_const, ['_anova.anova_oneway'])

    def anova_eqmeans(L, a):
        r = st(L).anova_oneway([a.x + a.s, a.x - a.s], [a.x + a.t, a.x - a.t])
        L.eq('F', r.f, 0)
        L.eq('p', r.p, 1)
    o('anova_oneway.equal-means', [('x', V), ('s', POS()), ('t', POS())], anova_eqmeans, ['_anova.anova_oneway'])

    # ---- correlation
    def corr(L, x, y):
        n = L.len(x)
        mx, my = L.sum(x)/n, L.sum(y)/n
        sxy = L.tsum(lambda s, t: (s - mx)*(t - my), x, y)
        sxx = L.tsum(lambda s: (s - mx)**2, x)
        syy = L.tsum(lambda s: (s - my)**2, y)
        return sxy, sxx, syy

    def p_of(L, r, n, alt):
        m = L.m
        h = n/m.mpf(2) - 1
        if alt == 'two-sided':
            return 2*m.betainc(h, h, 0, (1 - abs(r))/2, regularized=True)
        return m.betainc(h, h, 0, (1 + r)/2 if alt == 'less' else (1 - r)/2, regularized=True)

    XS = SEQ(REAL(clip=(-20, 20)), nmin=3, distinct=True, nmax=6)
    YS = SEQ(REAL(clip=(-20, 20)), nmin=3, distinct=True, same_len='x')
    for alt in ALT:
        def pear(L, a, alt=alt):
            m = L.m
            n = L.len(a.x)
            L.not_constant(a.x)
            L.not_constant(a.y)
            if L.symbolic:
                # every sequence is mean + scale*(deviations with sum 0 and sum of squares 1)
                x, y = [], []
                for t, name in ((a.x, 'x'), (a.y, 'y')):
                    L.assume(L.sum(t) == 0)
                    L.assume(L.tsum(lambda u: u*u, t) == 1)
                    mu, sc = L.unknown('mean_' + name), L.unknown('scale_' + name)
                    L.assume(sc > 0)
                    (x if name == 'x' else y).append(L.map(lambda u: mu + sc*u, t))
                x, y = x[0], y[0]
                r0 = L.tsum(lambda s, t: s*t, a.x, a.y)
                L.assume(r0 < 1)        # Cauchy-Schwarz; |r| = 1 is pearsonr.linear
                L.assume(r0 > -1)
            else:
                x, y = a.x, a.y
                sxy, sxx, syy = corr(L, x, y)
                r0 = sxy/m.sqrt(sxx*syy)
            r, p = st(L).pearsonr(x, y, alternative=alt)
            L.eq('r', r, r0)
            L.eq('p', p, p_of(L, r, n, alt))
        o(f'pearsonr.{alt}', [('x', XS), ('y', YS)], pear, ['_pearsonr.pearsonr'], samples=5)

        def pear3(L, a, alt=alt):
            # x = (0, s, s + t) shifted, y = any three values
            m = L.m
            x = [a.c, a.c + a.s, a.c - a.t]
            y = [a.u, a.v, a.w]
            L.assume(abs(a.u - a.v) + abs(a.u - a.w) > 0)
            r, p = st(L).pearsonr(x, y, alternative=alt)
            r2, p2 = st(L).pearsonr(y, x, alternative=alt)
            L.eq('r(y, x) = r(x, y)', r2, r)
            L.eq('p symmetric', p2, p)
            flip = {'two-sided': alt, 'less': 'greater', 'greater': 'less'}[alt]
            r3, p3 = st(L).pearsonr(x, [-t for t in y], alternative=flip)
            L.eq('r(x, -y) = -r(x, y)', r3, -r)
            L.eq('reversed alternative', p3, p)
        o(f'pearsonr.symmetry.{alt}', [('c', V), ('s', POS()), ('t', POS()), ('u', V), ('v', V), ('w', V)], pear3,
          ['_pearsonr.pearsonr'], samples=5, sym=False)

    def pearlin(L, a):
        f = st(L).pearsonr
        x = [a.c, a.c + a.s, a.c - a.t]
        for k, sg in ((a.k, 1), (-a.k, -1)):
            y = [a.d + k*t for t in x]
            r, p = f(x, y)
            L.eq('r', r, sg)
            L.le('|r| <= 1', abs(r), 1)
            L.eq('p', p, 0, tol='1e-9')
            L.eq('p less', f(x, y, alternative='less')[1], 1 if sg > 0 else 0, tol='1e-9')
            L.eq('p greater', f(x, y, alternative='greater')[1], 1 if sg < 0 else 0, tol='1e-9')
    o('pearsonr.linear', [('c', V), ('s', POS()), ('t', POS()), ('d', V), ('k', POS())], pearlin,
      ['_pearsonr.pearsonr'])

    def pearcases(L, a):
        f = st(L).pearsonr
        m = L.m
        for alt in ALT:
            r, p = f([a.x, a.x, a.x], [a.y, a.z, a.x], alternative=alt)
            L.true('constant x', m.isnan(r) and m.isnan(p))
            r, p = f([a.y, a.z, a.x], [a.x, a.x, a.x], alternative=alt)
            L.true('constant y', m.isnan(r) and m.isnan(p))
        L.assume(a.y != a.z)
        r, p = f([a.x, a.x + a.s], [a.y, a.z])
        L.eq('two points', r, 1 if a.z > a.y else -1)
        L.eq('two points: p', p, 1)
        L.raises('lengths', ValueError, lambda: f([a.x, a.y, a.z], [a.x, a.y]))
        L.raises('alternative', ValueError, lambda: f([a.x, a.y, a.z], [a.x, a.y, a.z], alternative='two_sided'))
    o('pearsonr.cases', [('x', V), ('y', V), ('z', V), ('s', POS())], pearcases, ['_pearsonr.pearsonr'])

    # ---- confidence interval of the correlation: Fisher's transformation
    RR = OPEN(-1, 1, pool=('0', '1/2', '-1/2'), clip=('-31/32', '31/32'))
    AL = OPEN(0, 1, pool=('1/16', '1/2', '1/4'), clip=('1/1024', '63/64'))

    def ci(alt):
        def body(L, a):
            m = L.m
            lo, hi = st(L).pearsonr_ci(a.r, a.n, a.alpha, alternative=alt)
            z = m.log((1 + a.r)/(1 - a.r))/2
            q = 1 - (a.alpha/2 if alt == 'two-sided' else a.alpha)
            se = 1/m.sqrt(a.n - 3)
            Phi = (lambda t: m.erfc(-t/m.sqrt(2))/2)
            at = (lambda r: m.log((1 + r)/(1 - r))/2)
            if L.symbolic:
                # normal.invcdf by its contract (C06: Phi(invcdf(q)) = q)
                zc = L.mod('distributions.normal').invcdf(q)
                if alt != 'greater':
                    L.eq('upper end', hi, m.tanh(z + zc*se))
                else:
                    L.eq('upper end', hi, 1)
                if alt != 'less':
                    L.eq('lower end', lo, m.tanh(z - zc*se))
                else:
                    L.eq('lower end', lo, -1)
                return
            if alt == 'greater':
                L.eq('upper end', hi, 1)
            else:
                L.true('upper end below 1', hi < 1)
                L.eq('upper end', Phi((at(hi) - z)/se), q, tol='1e-9')
            if alt == 'less':
                L.eq('lower end', lo, -1)
            else:
                L.true('lower end above -1', lo > -1)
                L.eq('lower end', Phi((z - at(lo))/se), q, tol='1e-9')
        o(f'pearsonr_ci.{alt}', [('r', RR), ('n', INT(4)), ('alpha', AL)], body, ['_pearsonr.pearsonr_ci'])
    for alt in ALT:
        ci(alt)

    def cirev(L, a):
        f = st(L).pearsonr_ci
        lo, hi = f(a.r, a.n, a.alpha)
        lo2, hi2 = f(-a.r, a.n, a.alpha)
        L.eq('r -> -r', lo2, -hi)
        L.eq('r -> -r (upper)', hi2, -lo)
        L.eq('less/greater', f(-a.r, a.n, a.alpha, alternative='less')[1], -f(a.r, a.n, a.alpha,
                                                                            alternative='greater')[0])
        L.raises('alternative', ValueError, lambda: f(a.r, a.n, a.alpha, alternative='upper'))
    o('pearsonr_ci.symmetry', [('r', RR), ('n', INT(4)), ('alpha', AL)], cirev, ['_pearsonr.pearsonr_ci'])

    # ---- exact test
    cell = INT(0, 6, pool=('0', '1', '2', '3'))
    T4 = [('a', cell), ('b', cell), ('c', cell), ('d', cell)]
    FE = ['_fisher_exact.fisher_exact', '_fisher_exact._num_combs', '_fisher_exact._comb']

    def tables(a, b, c, d):
        """probabilities (times the total) of the tables with these margins"""
        from math import comb
        n1, n2, k = a + b, c + d, a + c
        return {x: comb(n1, x)*comb(n2, k - x) for x in range(max(0, k - n2), min(n1, k) + 1)}

    def fe(L, a):
        from fractions import Fraction
        f = st(L).fisher_exact
        v = [int(t) for t in (a.a, a.b, a.c, a.d)]
        w = tables(*v)
        tot = sum(w.values())
        T = [v[:2], v[2:]]
        L.eq('p less', f(T, alternative='less')[1], Fraction(sum(q for x, q in w.items() if x <= v[0]), tot))
        L.eq('p greater', f(T, alternative='greater')[1], Fraction(sum(q for x, q in w.items() if x >= v[0]), tot))
        p = f(T)[1]
        L.eq('p two-sided', p, Fraction(sum(q for x, q in w.items() if q <= w[v[0]]), tot))
        L.true('exact', isinstance(p, Fraction))
        for S2 in ([v[2:], v[:2]], [v[1::-1], v[3:1:-1]], [v[::2], v[1::2]]):
            L.eq('symmetric', f(S2)[1], p)
        L.eq('alternative reversed', f([v[2:], v[:2]], alternative='less')[1], f(T, alternative='greater')[1])
        L.raises('alternative', ValueError, lambda: f(T, alternative='two_sided'))
        orr = f(T)[0]
        if v[1]*v[2]:
            L.eq('odds ratio', orr, Fraction(v[0]*v[3], v[1]*v[2]))
        elif v[0]*v[3]:
            L.eq('odds ratio', orr, L.inf)
        else:
            L.true('odds ratio', orr != orr)
    o('fisher_exact', T4, fe, FE, sym=False, samples=30)

    def comb_(L, a):
        import sys
        fn = getattr(sys.modules[L.mod('stats._fisher_exact').__name__], '_comb', None) \
            if not L.symbolic else getattr(L.mod('stats._fisher_exact'), '_comb', None)
        if fn is None:
            raise Skip()
        L.eq('binomial coefficient', fn(a.n, a.k), L.m.binomial(a.n, a.k))
    # ---- odds ratio
    OD = ['_odds_ratio.odds_ratio', '_odds_ratio._sample_odds_ratio']
    pos = INT(1, pool=('1', '2', '3', '10'))

    def sample(alt):
        def body(L, a):
            m = L.m
            T = [[a.a, a.b], [a.c, a.d]]
            r = st(L).odds_ratio(T, kind='sample', alternative=alt)
            orr = m.mpf(a.a)*a.d/(m.mpf(a.b)*a.c)
            se = m.sqrt(1/m.mpf(a.a) + 1/m.mpf(a.b) + 1/m.mpf(a.c) + 1/m.mpf(a.d))
            L.eq('odds ratio', r.odds_ratio, orr)
            z = m.log(orr)/se
            Phi = (lambda t: m.erfc(-t/m.sqrt(2))/2)
            L.eq('p', r.pvalue, 2*Phi(-abs(z)) if alt == 'two-sided' else Phi(z if alt == 'less' else -z))
            L.true('attributes', r.kind == 'sample' and r.alternative == alt and r.table is T)
        o(f'odds_ratio.sample.{alt}', [('a', pos), ('b', pos), ('c', pos), ('d', pos)], body, OD)

        def cis(L, a):
            m = L.m
            T = [[a.a, a.b], [a.c, a.d]]
            r = st(L).odds_ratio(T, kind='sample', alternative=alt).odds_ratio_ci(a.cl)
            lor = m.log(m.mpf(a.a)*a.d/(m.mpf(a.b)*a.c))
            se = m.sqrt(1/m.mpf(a.a) + 1/m.mpf(a.b) + 1/m.mpf(a.c) + 1/m.mpf(a.d))
            Phi = (lambda t: m.erfc(-t/m.sqrt(2))/2)
            q = (1 + a.cl)/2 if alt == 'two-sided' else a.cl
            if alt == 'less':
                L.eq('low', r.low, 0)
            else:
                L.eq('low', Phi((lor - m.log(r.low))/se), q, tol='1e-9')
            if alt == 'greater':
                L.eq('high', r.high, L.inf)
            else:
                L.eq('high', Phi((m.log(r.high) - lor)/se), q, tol='1e-9')
        o(f'odds_ratio.sample.ci.{alt}', [('a', pos), ('b', pos), ('c', pos), ('d', pos), ('cl', AL)], cis,
          OD + ['_odds_ratio._sample_odds_ratio_ci', '_odds_ratio.OddsRatioResult.odds_ratio_ci'])

        # conditional: p-value of the exact test, estimate whose noncentral mean is the cell
        def cond(L, a):
            m = L.m
            v = [int(t) for t in (a.a, a.b, a.c, a.d)]
            T = [v[:2], v[2:]]
            if 0 in (v[0] + v[1], v[2] + v[3], v[0] + v[2], v[1] + v[3]):
                raise Skip()
            r = st(L).odds_ratio(T, alternative=alt)
            w = tables(*v)
            tot = sum(w.values())
            keep = {'less': lambda x, q: x <= v[0], 'greater': lambda x, q: x >= v[0],
                    'two-sided': lambda x, q: q <= w[v[0]]}[alt]
            L.eq('p', m.mpf(r.pvalue.numerator)/r.pvalue.denominator,
                 m.mpf(sum(q for x, q in w.items() if keep(x, q)))/tot)
            lo, hi = min(w), max(w)
            if v[0] == lo:
                L.eq('estimate at the low end', r.odds_ratio, 0)
            elif v[0] == hi:
                L.eq('estimate at the high end', r.odds_ratio, L.inf)
            else:
                t = r.odds_ratio
                den = sum(q*t**x for x, q in w.items())
                L.eq('noncentral mean', sum(x*q*t**x for x, q in w.items())/den, v[0], tol='1e-9')
            c = r.odds_ratio_ci(a.cl)
            al = (1 - a.cl)/2 if alt == 'two-sided' else 1 - a.cl

            def tail(t, keep):
                return sum(q*t**x for x, q in w.items() if keep(x))/sum(q*t**x for x, q in w.items())
            if alt == 'less' or v[0] == lo:
                L.eq('ci low', c.low, 0)
            else:
                L.eq('ci low', tail(c.low, lambda x: x >= v[0]), al, tol='1e-8')
            if alt == 'greater' or v[0] == hi:
                L.eq('ci high', c.high, L.inf)
            else:
                L.eq('ci high', tail(c.high, lambda x: x <= v[0]), al, tol='1e-8')
        o(f'odds_ratio.conditional.{alt}', T4 + [('cl', AL)], cond,
          ['_odds_ratio.odds_ratio', '_odds_ratio._conditional_oddsratio', '_odds_ratio._conditional_oddsratio_ci',
           '_odds_ratio._ci_lower', '_odds_ratio._ci_upper'], sym=False, samples=6)

    for alt in ALT:
        sample(alt)

    def zero(L, a):
        m = L.m
        f = st(L).odds_ratio
        for T in ([[0, 0], [a.a, a.b]], [[a.a, a.b], [0, 0]], [[0, a.a], [0, a.b]], [[a.a, 0], [a.b, 0]]):
            for kind in ('conditional', 'sample'):
                for alt in ALT:
                    r = f(T, kind=kind, alternative=alt)
                    L.true('odds ratio nan', m.isnan(r.odds_ratio))
                    L.eq('p', r.pvalue, 1)
                    c = r.odds_ratio_ci(a.cl)
                    L.eq('ci low', c.low, 0)
                    L.eq('ci high', c.high, L.inf)
    o('odds_ratio.zero-margin', [('a', INT(0)), ('b', INT(0)), ('cl', CLOSED(0, 1))], zero, OD)

    def rej(L, a):
        f = st(L).odds_ratio
        T = [[a.a, a.b], [a.c, a.d]]
        L.raises('kind', ValueError, lambda: f(T, kind='exact'))
        L.raises('alternative', ValueError, lambda: f(T, alternative='two_sided'))
        L.raises('negative', ValueError, lambda: f([[-a.a, a.b], [a.c, a.d]]))
        L.raises('negative d', ValueError, lambda: f([[a.a, a.b], [a.c, -a.d]]))
        L.raises('shape', ValueError, lambda: f([[a.a, a.b, a.c], [a.c, a.d, a.a]]))
        L.raises('rows', ValueError, lambda: f([[a.a, a.b]]))
        for kind in ('conditional', 'sample'):
            if kind == 'conditional' and L.symbolic:
                continue
            r = f([[int(a.a), int(a.b)], [int(a.c), int(a.d)]] if not L.symbolic else T, kind=kind)
            L.raises('confidence level above 1', ValueError, lambda: r.odds_ratio_ci(1 + a.e))
            L.raises('confidence level below 0', ValueError, lambda: r.odds_ratio_ci(-a.e))
    sm = INT(1, 5)
    o('odds_ratio.reject', [('a', sm), ('b', sm), ('c', sm), ('d', sm), ('e', POS())], rej, OD)

    def solve(L, a):
        """the bracketing solver: func increasing -> func(result) = 0"""
        mod = L.mod('stats._odds_ratio')
        fn = getattr(mod, '_solve', None)
        if fn is None:
            raise Skip()
        c = a.c
        v = fn(lambda t: L.m.log(t/c) + (t - c))
        L.eq('func(result)', v, c, tol='1e-9')
    o('odds_ratio.solve', [('c', POS(clip=('1/256', 500), pool=('1', '2', '1/2')))], solve, ['_odds_ratio._solve'],
      sym=False)

    def feall(L, a):
        from fractions import Fraction
        f = st(L).fisher_exact
        bad = []
        for b in range(6):
            for c in range(6):
                for d in range(6):
                    w = tables(int(a.a), b, c, d)
                    tot = sum(w.values())
                    T = [[int(a.a), b], [c, d]]
                    x0 = int(a.a)
                    got = [f(T, alternative=t)[1] for t in ALT]
                    want = [Fraction(sum(q for x, q in w.items() if k(x, q)), tot) for k in (
                        lambda x, q: q <= w[x0], lambda x, q: x <= x0, lambda x, q: x >= x0)]
                    if got != want:
                        bad.append(T)
        L.eq('tables with a wrong p-value', len(bad), 0)
    for k in range(6):
        # bounded: every table with entries up to 5
        o(f'fisher_exact.all.{k}', [('a', INT(k, k))], feall, FE, sym=False, samples=1)

    # one-sided: the loop as a sum, against the contracts of _comb and Fraction
    def feone(alt):
        def body(L, a):
            m = L.m
            mod = L.mod('stats._fisher_exact')
            f = st(L).fisher_exact
            T = [[a.a, a.b], [a.c, a.d]]
            if not L.symbolic:
                v = [int(t) for t in (a.a, a.b, a.c, a.d)]
                w = tables(*v)
                p = f([v[:2], v[2:]], alternative=alt)[1]
                q = sum(q for x, q in w.items() if (x <= v[0] if alt == 'less' else x >= v[0]))
                L.true('p', p*sum(w.values()) == q)
                return
            if not hasattr(mod, '_comb'):
                raise Skip()
            old = mod._comb, mod.Fraction
            C = m.binomial
            mod._comb, mod.Fraction = C, (lambda u, v: u/m.mpf(v))
            try:
                p = f(T, alternative=alt)[1]
            finally:
                mod._comb, mod.Fraction = old
            n1, n2, k = a.a + a.b, a.c + a.d, a.a + a.c
            lo = k - n2
            if lo < 0:
                lo = 0
            hi = n1 if n1 <= k else k
            r = L.range(lo, a.a + 1) if alt == 'less' else L.range(a.a, hi + 1)
            L.eq('p', p, L.tsum(lambda t: C(n1, t)*C(n2, k - t), r)/C(n1 + n2, k))
        o(f'fisher_exact.{alt}', [(k, INT(0, span=9)) for k in 'abcd'], body,
          ['_fisher_exact.fisher_exact', '_fisher_exact._num_combs'])
    for alt in ('less', 'greater'):
        feone(alt)

    # the conditional estimates against the contract of fishers_noncentral_hypergeometric: its
    # cdf/sf/mean stand for themselves as unknown functions of the noncentrality
    class Fnch:
        def __init__(self, L, x, total, good, n):
            self.L, self.want, self.fs = L, (total, good, n), {k: L.ufun(k) for k in ('cdf', 'sf', 'mean')}
            self.x = x

        def _args(self, t):
            for name, u, v in zip(('total', 'ngood', 'nsample'), t, self.want):
                self.L.eq(name, u, v)

        def cdf(self, x, nc, *t):
            self._args(t)
            self.L.eq('cdf at x', x, self.x)
            return self.fs['cdf'](nc)

        def sf(self, x, nc, *t):
            self._args(t)
            self.L.eq('sf at x - 1', x, self.x - 1)
            return self.fs['sf'](nc)

        def mean(self, nc, *t):
            self._args(t)
            return self.fs['mean'](nc)

    def modular(which):
        def body(L, a):
            m = L.m
            mod = L.mod('stats._odds_ratio')
            name = {'upper': '_ci_upper', 'lower': '_ci_lower', 'mean': '_nc_hypergeom_mean_inverse'}[which]
            f = getattr(mod, name, None)
            if f is None:
                raise Skip()
            T = [[a.a, a.b], [a.c, a.d]]
            x, total, good, n = a.a, a.a + a.b + a.c + a.d, a.a + a.b, a.a + a.c
            if L.symbolic:
                old = mod.fnch
                mod.fnch = S = Fnch(L, x, total, good, n)
                try:
                    v = f(T, a.al) if which != 'mean' else f(x, total, good, n)
                finally:
                    mod.fnch = old
                S.L = None
                L.lt('positive', 0, v)
                L.eq('equation', S.fs[{'upper': 'cdf', 'lower': 'sf', 'mean': 'mean'}[which]](v),
                     x if which == 'mean' else a.al)
                return
            v = f(T, a.al) if which != 'mean' else f(x, total, good, n)
            w = tables(*[int(t) for t in (a.a, a.b, a.c, a.d)])
            den = sum(q*v**k for k, q in w.items())
            if which == 'mean':
                L.eq('equation', sum(k*q*v**k for k, q in w.items())/den, x, tol='1e-9')
            else:
                L.eq('equation', sum(q*v**k for k, q in w.items() if (k <= x if which == 'upper' else k >= x))/den,
                     a.al, tol='1e-8')
        cell = INT(1, span=5)
        o(f'odds_ratio.conditional.modular.{which}', [(k, cell) for k in 'abcd'] + [('al', AL)], body,
          ['_odds_ratio._ci_upper', '_odds_ratio._ci_lower', '_odds_ratio._nc_hypergeom_mean_inverse',
           '_odds_ratio._solve'], loops=True, samples=6)
    for which in ('upper', 'lower', 'mean'):
        modular(which)

    # where the interval is unbounded there is no equation to solve
    class NoCall:
        def __init__(self, f):
            self.f, self.n = f, 0

        def __getattr__(self, name):
            self.n += 1
            if self.n > 2000:
                raise RuntimeError('an equation without a solution is being solved')
            return getattr(self.f, name)

    def ends(L, a):
        mod = L.mod('stats._odds_ratio')
        up, lo = getattr(mod, '_ci_upper', None), getattr(mod, '_ci_lower', None)
        if up is None or lo is None or not hasattr(mod, 'fnch'):
            raise Skip()
        old = mod.fnch
        mod.fnch = NoCall(old)
        try:
            L.eq('upper, b = 0', up([[a.a, 0], [a.c, a.d]], a.al), L.inf)
            L.eq('upper, c = 0', up([[a.a, a.b], [0, a.d]], a.al), L.inf)
            L.eq('upper, alpha = 0', up([[a.a, a.b], [a.c, a.d]], 0), L.inf)
            L.eq('lower, a = 0', lo([[0, a.b], [a.c, a.d]], a.al), 0)
            L.eq('lower, d = 0', lo([[a.a, a.b], [a.c, 0]], a.al), 0)
            L.eq('lower, alpha = 0', lo([[a.a, a.b], [a.c, a.d]], 0), 0)
        finally:
            mod.fnch = old
    o('odds_ratio.conditional.ends', [(k, INT(1, span=5)) for k in 'abcd'] + [('al', AL)], ends,
      ['_odds_ratio._ci_upper', '_odds_ratio._ci_lower', '_odds_ratio._sample_odds_ratio'])


def generate(prop):
    if prop == 'C16':
        c16(prop)
    elif prop == 'C17':
        c17(prop)
