"""
Contracts of mpsci.fun and of the transforms of mpsci.stats:
C14 (transforms and inverses), C15 (special functions equal their definitions).
"""
from engine.lab import ob, REAL, POS, OPEN, NONNEG, GT, LT, GE, CLOSED, INT, SEQ, Dom, Skip

F = 'mpsci.fun.'
S = 'mpsci.stats.'
LAM = REAL(pool=('0', '1', '2', '-1', '1/2', '1/1024', '3/2'), clip=(-6, 6))
LAM01 = ('0', '1', '2', '-1', '1/2')


def bisector(L):
    f = getattr(L.mod('fun._inv_reg_inc_beta'), 'mp_bisect', None)
    if f is None:
        raise Skip()
    return getattr(f, 'real', f)


# ---------------------------------------------------------------------- C14

def bisection(prop):
    def o(name, args, body, funcs, **k):
        ob(prop, name, args, body, funcs=funcs, mods=['stats', 'fun'], **k)

    # mp_bisect: the value returned is a zero, or the interval shrank to one
    # floating point cell around a sign change (concrete side); over the reals
    # the loop can only stop at a zero
    def bisect(L, a):
        m = L.m
        fn = bisector(L)
        c = a.lo + a.w*a.u
        f = L.ufun('f', None if L.symbolic else (lambda t: a.s*(t - c)*(1 + (t - c)**2)))
        lo, hi = a.lo, a.lo + a.w
        L.assume(f(lo)*f(hi) < 0)
        v = fn(f, lo, hi)
        L.le('x0 <= x', lo, v)
        L.le('x <= x1', v, hi)
        if L.symbolic:
            L.eq('func(x)', f(v), 0)
        else:
            L.le('func(x)', abs(v - c), m.ldexp(1, 6 - m.prec)*max(1, abs(lo), abs(hi)))
    o('mp_bisect', [('lo', REAL()), ('w', POS()), ('u', OPEN(0, 1)), ('s', POS(clip=('1/8', 20)))], bisect,
      [F + '_inv_reg_inc_beta.mp_bisect'], loops=True, samples=10, budget=60)

    def bisect_same(L, a):
        fn = bisector(L)
        f = L.ufun('f', None if L.symbolic else (lambda t: a.s + t*t))
        L.assume(f(a.lo)*f(a.lo + a.w) > 0)
        L.raises('same sign', ValueError, lambda: fn(f, a.lo, a.lo + a.w))
    o('mp_bisect.same-sign', [('lo', REAL()), ('w', POS()), ('s', POS())], bisect_same,
      [F + '_inv_reg_inc_beta.mp_bisect'], loops=True, samples=5)

    def bisect_end(L, a):
        fn = bisector(L)
        z = (lambda c: L.ufun('f', None if L.symbolic else (lambda t: a.s*(t - c))))
        for end in (0, 1):
            c = a.lo + a.w*end
            f = z(c)
            L.assume(f(c) == 0)
            if end:
                L.assume(f(a.lo) != 0)
            L.eq(f'zero at end {end}', f(fn(f, a.lo, a.lo + a.w)), 0)
            if L.symbolic:
                break
    o('mp_bisect.end', [('lo', REAL()), ('w', POS()), ('s', POS())], bisect_end,
      [F + '_inv_reg_inc_beta.mp_bisect'], loops=True, samples=5)


def c14(prop):
    def o(name, args, body, funcs, **k):
        ob(prop, name, args, body, funcs=funcs, mods=['stats', 'fun'], **k)

    def ref_boxcox(m, x, lam):
        return m.log(x) if lam == 0 else (m.exp(lam*m.log(x)) - 1)/lam

    def ref_yj(m, x, lam):
        if x >= 0:
            return m.log(1 + x) if lam == 0 else (m.exp(lam*m.log(1 + x)) - 1)/lam
        return -m.log(1 - x) if lam == 2 else -(m.exp((2 - lam)*m.log(1 - x)) - 1)/(2 - lam)

    x, x1 = POS(pool=('1', '2', '1/2')), GT(-1, pool=('0', '1', '-1/2'))
    o('boxcox.formula', [('x', x), ('lam', LAM)],
      lambda L, a: L.eq('boxcox', L.mod('stats').boxcox(a.x, a.lam), ref_boxcox(L.m, a.x, a.lam)),
      [S + '_boxcox.boxcox'])
    o('boxcox1p.formula', [('x', x1), ('lam', LAM)],
      lambda L, a: L.eq('boxcox1p', L.mod('stats').boxcox1p(a.x, a.lam), ref_boxcox(L.m, 1 + a.x, a.lam)),
      [S + '_boxcox.boxcox1p', F + '_powm1.pow1pm1', F + '_xlogy.xlog1py'])
    o('yeojohnson.formula', [('x', REAL(pool=('0', '1', '-1'))), ('lam', LAM)],
      lambda L, a: L.eq('yeojohnson', L.mod('stats').yeojohnson(a.x, a.lam), ref_yj(L.m, a.x, a.lam)),
      [S + '_yeojohnson.yeojohnson', F + '_powm1.pow1pm1'])

    def boxcox_lim(name, e0, limit):
        def body(L, a):
            f = getattr(L.mod('stats'), name)
            L.eq('lambda = 0', f(a.x, 0), limit(L.m, a.x))
        o(f'{name}.lambda0', [('x', e0)], body, [S + '_boxcox.' + name])
    boxcox_lim('boxcox', x, lambda m, t: m.log(t))
    boxcox_lim('boxcox1p', x1, lambda m, t: m.log1p(t))
    boxcox_lim('inv_boxcox', REAL(), lambda m, t: m.exp(t))
    boxcox_lim('inv_boxcox1p', REAL(), lambda m, t: m.expm1(t))

    def roundtrip(f, g, dom, fs):
        def body(L, a):
            s = L.mod('stats')
            L.eq(f'{g}({f}(x))', getattr(s, g)(getattr(s, f)(a.x, a.lam), a.lam), a.x)
        o(f'{g}.{f}', [('x', dom), ('lam', LAM)], body, fs, budget=25)

        def back(L, a):
            s = L.mod('stats')
            v = 1 + a.lam*a.y
            if f == 'yeojohnson' and a.y < 0:
                v = 1 - (2 - a.lam)*a.y
            L.assume(v > 0)
            L.eq(f'{f}({g}(y))', getattr(s, f)(getattr(s, g)(a.y, a.lam), a.lam), a.y)
        o(f'{f}.{g}', [('y', REAL(pool=('0', '1', '-1', '1/2'), clip=(-8, 8))), ('lam', LAM)], back, fs, budget=25)
        for lam in (0, 1, 2):
            if f[0] == 'y':
                dom = REAL(pool=('0', '1', '-1'))

            def sp(L, a, lam=lam):
                s = L.mod('stats')
                L.eq('inverse', getattr(s, g)(getattr(s, f)(a.x, lam), lam), a.x)
            o(f'{g}.{f}.lambda={lam}', [('x', dom)], sp, fs, samples=6)
    roundtrip('boxcox', 'inv_boxcox', x, [S + '_boxcox.boxcox', S + '_boxcox.inv_boxcox', F + '_powm1.inv_powm1'])
    roundtrip('boxcox1p', 'inv_boxcox1p', x1, [S + '_boxcox.boxcox1p', S + '_boxcox.inv_boxcox1p',
                                                F + '_powm1.inv_pow1pm1'])
    def yjneg(L, a):
        # every x < 0 is 1 - e^t for one t > 0, every lambda is 2 - mu
        s = L.mod('stats')
        x, lam = 1 - L.m.exp(a.t), 2 - a.mu
        L.eq('inv_yeojohnson(yeojohnson(x))', s.inv_yeojohnson(s.yeojohnson(x, lam), lam), x)
    o('inv_yeojohnson.yeojohnson.negative', [('t', POS(clip=(0, 20), pool=('1', '2'))), ('mu', LAM)], yjneg,
      [S + '_yeojohnson.yeojohnson', S + '_yeojohnson.inv_yeojohnson'])
    roundtrip('yeojohnson', 'inv_yeojohnson', NONNEG(pool=('0', '1', '1/2')),
              [S + '_yeojohnson.yeojohnson', S + '_yeojohnson.inv_yeojohnson'])

    # order: the transforms are strictly increasing in x
    def incr(f, dom):
        def body(L, a):
            s = getattr(L.mod('stats'), f)
            d = L.deriv(lambda t: s(t, a.lam), a.x)
            L.lt('derivative > 0', L.m.mpf(0), d)
        o(f'{f}.increasing', [('x', dom), ('lam', LAM)], body, [S + '_' + ('yeojohnson' if f[0] == 'y' else 'boxcox')
                                                                 + '.' + f])
    incr('boxcox', x)
    incr('boxcox1p', x1)
    incr('yeojohnson', REAL())

    # powm1 family
    Y = Dom(pool=('1', '-1', '2', '1/2'), clip=(-6, 6))

    def nz(L, y):
        L.assume(y != 0)

    def inv_powm1(L, a):
        nz(L, a.y)
        m, f = L.m, L.mod('fun')
        L.eq('inv_powm1(x^y - 1, y)', f.inv_powm1(m.powm1(a.x, a.y), a.y), a.x)
    o('inv_powm1.powm1', [('x', x), ('y', Y)], inv_powm1, [F + '_powm1.inv_powm1'])

    def powm1_inv(L, a):
        nz(L, a.y)
        m, f = L.m, L.mod('fun')
        L.eq('powm1(inv_powm1(t, y), y)', m.powm1(f.inv_powm1(a.t, a.y), a.y), a.t)
    o('powm1.inv_powm1', [('t', x1), ('y', Y)], powm1_inv, [F + '_powm1.inv_powm1'])

    def inv_pow1pm1(L, a):
        nz(L, a.y)
        f = L.mod('fun')
        L.eq('inv_pow1pm1(pow1pm1(x, y), y)', f.inv_pow1pm1(f.pow1pm1(a.x, a.y), a.y), a.x)
    o('inv_pow1pm1.pow1pm1', [('x', x1), ('y', Y)], inv_pow1pm1, [F + '_powm1.inv_pow1pm1', F + '_powm1.pow1pm1'])

    def pow1pm1_inv(L, a):
        nz(L, a.y)
        f = L.mod('fun')
        L.eq('pow1pm1(inv_pow1pm1(t, y), y)', f.pow1pm1(f.inv_pow1pm1(a.t, a.y), a.y), a.t)
    o('pow1pm1.inv_pow1pm1', [('t', x1), ('y', Y)], pow1pm1_inv, [F + '_powm1.inv_pow1pm1', F + '_powm1.pow1pm1'])

    def pow1pm1(L, a):
        m, f = L.m, L.mod('fun')
        L.eq('(1 + x)^y - 1', f.pow1pm1(a.x, a.y), m.exp(a.y*m.log(1 + a.x)) - 1)
    o('pow1pm1.formula', [('x', x1), ('y', REAL(clip=(-9, 9)))], pow1pm1, [F + '_powm1.pow1pm1'])

    def formula_inv(L, a):
        nz(L, a.y)
        m, f = L.m, L.mod('fun')
        r = m.exp(m.log(1 + a.t)/a.y)
        L.eq('inv_powm1 = (1 + t)^(1/y)', f.inv_powm1(a.t, a.y), r)
        L.eq('inv_pow1pm1 = (1 + t)^(1/y) - 1', f.inv_pow1pm1(a.t, a.y), r - 1)
    o('inv_powm1.formula', [('t', x1), ('y', Y)], formula_inv, [F + '_powm1.inv_powm1', F + '_powm1.inv_pow1pm1'])

    for n in ('inv_powm1', 'inv_pow1pm1'):
        def reject(L, a, n=n):
            f = getattr(L.mod('fun'), n)
            L.raises('y = 0', ValueError, lambda: f(a.t, 0))
            L.raises('t = -1', ValueError, lambda: f(-1, a.y))
            L.raises('t < -1', ValueError, lambda: f(-1 - a.s, a.y))
        o(f'{n}.domain', [('t', x1), ('y', POS()), ('s', POS())], reject, [F + '_powm1.' + n])

    # digammainv
    def digi(L, a):
        m = L.m
        v = L.mod('fun').digammainv(a.y)
        L.true('digammainv(y) > 0', v > 0)
        L.eq('digamma(digammainv(y))', m.digamma(v), a.y, tol='1e-12')
    o('digamma.digammainv', [('y', REAL(pool=('0', '-1/8', '-3', '-1', '3', '-1/2', '-40', '12'), clip=(-300, 30)))],
      digi, [F + '_digammainv.digammainv'], samples=14)

    def digi2(L, a):
        m = L.m
        L.eq('digammainv(digamma(x))', L.mod('fun').digammainv(m.digamma(a.x)), a.x, tol='1e-12')
    o('digammainv.digamma', [('x', POS(pool=('1', '2', '1/2', '1/64', '100'), clip=('1/256', 10000)))], digi2,
      [F + '_digammainv.digammainv'], samples=10)

    # betaincinv
    U = OPEN(0, 1, pool=('1/2', '1/4', '3/4', '1/16'), clip=('1/64', '63/64'))
    AB = POS(clip=('1/2', 12), pool=('1', '2', '3', '1/2', '5/2'))
    for comp in (False, True):
        for meth in ('findroot', 'bisect'):
            tag = f'{meth}.{"upper" if comp else "lower"}'

            def bi(L, a, comp=comp, meth=meth):
                m, f = L.m, L.mod('fun').betaincinv
                try:
                    v = f(a.a, a.b, a.y, method=meth, complement=comp)
                except RuntimeError:
                    raise Skip()        # documented: the solver failed
                lo, hi = (v, 1) if comp else (0, v)
                L.eq('betainc at the result', m.betainc(a.a, a.b, lo, hi, regularized=True), a.y, tol='1e-9')
                L.true('0 <= x', v >= 0)
            o(f'betaincinv.{tag}', [('a', AB), ('b', AB), ('y', U)], bi, [F + '_inv_reg_inc_beta.betaincinv'],
              samples=6 if meth == 'findroot' else 3)

        def ends(L, a, comp=comp):
            f = L.mod('fun').betaincinv
            L.eq('y = 0', f(a.a, a.b, 0, complement=comp), 1 if comp else 0)
            L.eq('y = 1', f(a.a, a.b, 1, complement=comp), 0 if comp else 1)
            L.true('y < 0', L.m.isnan(f(a.a, a.b, -a.s, complement=comp)))
            L.true('y > 1', L.m.isnan(f(a.a, a.b, 1 + a.s, complement=comp)))
        o(f'betaincinv.ends.{"upper" if comp else "lower"}', [('a', POS()), ('b', POS()), ('s', POS())], ends,
          [F + '_inv_reg_inc_beta.betaincinv'])

    def badmeth(L, a):
        f = L.mod('fun').betaincinv
        L.raises('unknown method', ValueError, lambda: f(a.a, a.b, a.y, method='newton'))
    o('betaincinv.method', [('a', POS()), ('b', POS()), ('y', U)], badmeth, [F + '_inv_reg_inc_beta.betaincinv'])
    bisection(prop)


# ---------------------------------------------------------------------- C15

def c15(prop):
    def o(name, args, body, funcs, **k):
        ob(prop, name, args, body, funcs=funcs, mods=['fun'], **k)

    def fun(L):
        return L.mod('fun')

    X = REAL(pool=('0', '1', '-1', '1/2', '2'))
    # ---- xlogy, xlog1py
    def xlogy(L, a):
        m = L.m
        L.eq('x log y', fun(L).xlogy(a.x, a.y), 0 if a.x == 0 else a.x*m.log(a.y))
    o('xlogy', [('x', X), ('y', POS())], xlogy, [F + '_xlogy.xlogy'])

    def xlog1py(L, a):
        m = L.m
        L.eq('x log1p y', fun(L).xlog1py(a.x, a.y), 0 if a.x == 0 else a.x*m.log(1 + a.y))
    o('xlog1py', [('x', X), ('y', GT(-1))], xlog1py, [F + '_xlogy.xlog1py'])
    for n, y0 in (('xlogy', 0), ('xlog1py', -1)):
        def zero(L, a, n=n, y0=y0):
            f = getattr(fun(L), n)
            m = L.m
            L.eq('x = 0, any y', f(0, a.y), 0)
            L.eq('x = 0 at the pole', f(0, y0), 0)
            L.eq('x > 0 at the pole', f(a.x, y0), -L.inf)
            L.eq('x < 0 at the pole', f(-a.x, y0), L.inf)
            for p, q in ((m.nan, a.y), (a.x, m.nan), (m.nan, m.nan), (0, m.nan), (m.nan, y0)):
                L.true('nan', m.isnan(f(p, q)))
        o(f'{n}.special', [('x', POS()), ('y', REAL())], zero, [F + '_xlogy.' + n])

    # ---- beta, binomial
    def lg(m, t):
        return m.log(m.gamma(t))

    def logbeta(L, a):
        m = L.m
        f = fun(L).logbeta
        L.eq('log B(x, y)', f(a.x, a.y), lg(m, a.x) + lg(m, a.y) - lg(m, a.x + a.y))
        L.eq('symmetric', f(a.x, a.y), f(a.y, a.x))
        L.eq('B(x+1,y) = B(x,y) x/(x+y)', f(a.x + 1, a.y), f(a.x, a.y) + m.log(a.x) - m.log(a.x + a.y))
        L.eq('exp', m.exp(f(a.x, a.y)), m.beta(a.x, a.y))
    o('logbeta', [('x', POS()), ('y', POS())], logbeta, [F + '_logbeta.logbeta'])

    def mlogbeta(L, a):
        m = L.m
        f = fun(L).multivariate_logbeta
        L.eq('sum log gamma - log gamma sum', f(a.v), L.tsum(lambda t: m.log(m.gamma(t)), a.v) -
             m.log(m.gamma(L.sum(a.v))))
    o('multivariate_logbeta', [('v', SEQ(POS()))], mlogbeta, [F + '_logbeta.multivariate_logbeta'])

    def mlogbeta2(L, a):
        f = fun(L)
        L.eq('two elements', f.multivariate_logbeta([a.x, a.y]), f.logbeta(a.x, a.y))
        L.eq('one element', f.multivariate_logbeta([a.x]), 0)
        L.eq('three elements', f.multivariate_logbeta([a.x, a.y, a.z]),
             f.logbeta(a.x, a.y) + f.logbeta(a.x + a.y, a.z))
    o('multivariate_logbeta.logbeta', [('x', POS()), ('y', POS()), ('z', POS())], mlogbeta2,
      [F + '_logbeta.multivariate_logbeta', F + '_logbeta.logbeta'])

    NI = INT(0, pool=('0', '1', '2', '7'))

    def logbinom(L, a):
        m = L.m
        f = fun(L).logbinomial
        L.eq('log C(n, k)', f(a.n, a.k), m.log(m.factorial(a.n)/(m.factorial(a.k)*m.factorial(a.n - a.k))))
        L.eq('symmetric', f(a.n, a.n - a.k), f(a.n, a.k))
    o('logbinomial', [('n', NI), ('k', INT(0, lambda e: e.n))], logbinom, [F + '_logbinomial.logbinomial'])

    def logbinom_real(L, a):
        m = L.m
        f = fun(L).logbinomial
        n = a.k + a.d
        L.eq('log C(n, k), real arguments', f(n, a.k), lg(m, n + 1) - lg(m, a.k + 1) - lg(m, a.d + 1))
        L.eq('k = 0', f(n, 0), 0)
        L.eq('k = n', f(n, n), 0)
        L.eq('k = 1', f(1 + n, 1), m.log(1 + n))
    o('logbinomial.real', [('k', NONNEG()), ('d', NONNEG())], logbinom_real, [F + '_logbinomial.logbinomial'])

    def logbinom_pascal(L, a):
        m = L.m
        f = fun(L).logbinomial
        n, k = a.k + a.d, a.k
        L.eq('Pascal', m.exp(f(n, k)) + m.exp(f(n, k + 1)), m.exp(f(n + 1, k + 1)))
    o('logbinomial.pascal', [('k', INT(0)), ('d', INT(1))], logbinom_pascal, [F + '_logbinomial.logbinomial'])

    def logbinom_dom(L, a):
        f = fun(L).logbinomial
        L.raises('n < 0', ValueError, lambda: f(-a.s, 0))
        L.raises('k < 0', ValueError, lambda: f(a.k, -a.s))
        L.raises('k > n', ValueError, lambda: f(a.k, a.k + a.s))
    o('logbinomial.domain', [('k', NONNEG()), ('s', POS())], logbinom_dom, [F + '_logbinomial.logbinomial'])

    # ---- logsumexp
    EL = REAL(pool=('0', '1', '-1', '-900', '850'))

    def lse(L, a):
        m = L.m
        f = fun(L).logsumexp
        L.eq('log sum exp', f(a.v), m.log(L.tsum(lambda t: m.exp(t), a.v)))
    o('logsumexp', [('v', SEQ(EL))], lse, [F + '_logsumexp.logsumexp'])

    def lsew(L, a):
        m = L.m
        f = fun(L).logsumexp
        L.eq('log sum w exp', f(a.v, weights=a.w), m.log(L.tsum(lambda t, w: w*m.exp(t), a.v, a.w)))
    o('logsumexp.weights', [('v', SEQ(EL)), ('w', SEQ(POS(), same_len='v'))], lsew, [F + '_logsumexp.logsumexp'])

    def lse3(L, a):
        m = L.m
        f = fun(L).logsumexp
        L.eq('one', f([a.x]), a.x)
        L.eq('two', f([a.x, a.y]), m.log(m.exp(a.x) + m.exp(a.y)))
        L.eq('shift', f([a.x + a.z, a.y + a.z]), a.z + f([a.x, a.y]))
        L.eq('equal', f([a.x, a.x, a.x]), a.x + m.log(3))
        L.eq('minus infinity is neutral', f([a.x, -L.inf]), a.x)
        L.eq('infinity', f([a.x, L.inf]), L.inf)
        L.eq('weights', f([a.x, a.y], weights=[2, 3]), m.log(2*m.exp(a.x) + 3*m.exp(a.y)))
    o('logsumexp.small', [('x', EL), ('y', EL), ('z', EL)], lse3, [F + '_logsumexp.logsumexp'])

    def lsez(L, a):
        m = L.m
        f = fun(L).logsumexp
        L.eq('weight 0', f([a.x, a.y], weights=[0, 2]), a.y + m.log(2))
        L.eq('all -inf', f([-L.inf, -L.inf]), -L.inf)
        L.eq('all -inf, weights', f([-L.inf, -L.inf], weights=[1, 2]), -L.inf)
        L.eq('+inf', f([a.x, L.inf]), L.inf)
    o('logsumexp.special', [('x', EL), ('y', EL)], lsez, [F + '_logsumexp.logsumexp'])

    # ---- debye
    def debye(L, a):
        m = L.m
        f = fun(L).debye
        L.eq('n x^-n int_0^x t^n/(e^t - 1)', f(a.x, n=a.n),
             a.n*m.quad(lambda t: (m.mpf(1) if a.n == 1 else m.mpf(0)) if t == 0 else t**a.n/(m.exp(t) - 1),
                        [0, a.x])/a.x**a.n)
    NP = INT(1, pool=('1', '2', '3', '5'), clip=(1, 9))
    o('debye.quad', [('x', POS(clip=('1/8', 12))), ('n', NP)], debye, [F + '_debye.debye'], samples=5, tol='1e-18')

    def debye_s(L, a):
        m = L.m
        f = fun(L).debye
        v = f(a.x, n=a.n, method='nsum')
        L.eq('series', v, 1 - m.mpf(a.n)*a.x/(2*(a.n + 1)) + a.n*m.nsum(
            lambda k: m.bernoulli(2*k)*a.x**(2*k)/((2*k + a.n)*m.factorial(2*k)), [1, m.inf]), tol='1e-12')
        if not L.symbolic:
            L.eq('both methods', v, f(a.x, n=a.n), tol='1e-12')
    o('debye.nsum', [('x', POS(clip=('1/8', 3))), ('n', NP)], debye_s, [F + '_debye.debye'], samples=4)

    def debye0(L, a):
        m = L.m
        f = fun(L).debye
        L.eq('D_n(0) = 1', f(0, n=a.n), 1)
        L.eq('D_n(0) = 1', f(0, n=a.n, method='nsum'), 1)
        L.raises('n = 0', ValueError, lambda: f(a.x, n=0))
        L.raises('n < 0', ValueError, lambda: f(a.x, n=-a.n))
        L.raises('n not an integer', ValueError, lambda: f(a.x, n=1.5))
        L.raises('n not an integer', ValueError, lambda: f(a.x, n='1'))
        L.raises('method', ValueError, lambda: f(a.x, n=a.n, method='sum'))
    o('debye.special', [('x', POS()), ('n', NP)], debye0, [F + '_debye.debye'])

    # ---- hermite_e
    def herm(L, a):
        f = fun(L).hermite_e
        x = a.x
        for n, r in enumerate((1, x, x**2 - 1, x**3 - 3*x, x**4 - 6*x**2 + 3, x**5 - 10*x**3 + 15*x)):
            L.eq(f'He_{n}', f(n, x), r)
    o('hermite_e.small', [('x', X)], herm, [F + '_hermite_e.hermite_e'])

    def herm_rec(L, a):
        m = L.m
        f = fun(L).hermite_e
        L.eq('He_{n+1} = x He_n - n He_{n-1}', f(a.n + 1, a.x) + a.n*f(a.n - 1, a.x), a.x*f(a.n, a.x))
        if not L.symbolic:
            L.eq('He_n(-x) = (-1)^n He_n(x)', f(a.n, -a.x), (-1)**int(a.n)*f(a.n, a.x))
    o('hermite_e.recurrence', [('n', INT(1, pool=('1', '2', '9'))), ('x', REAL(pool=('1', '-2', '1/2')))], herm_rec,
      [F + '_hermite_e.hermite_e'])

    # ---- Legendre nodes
    def leg(L, a):
        m = L.m
        f = fun(L).roots_legendre
        for n in (1, 2, 3):
            x, w = f(n)
            L.eq(f'number of nodes, {n}', (len(x), len(w)), (n, n))
            for k in range(2*n):
                L.eq(f'exact for t^{k}, n={n}', sum((wi*xi**k for xi, wi in zip(x, w)), m.mpf(0)),
                     m.mpf(2)/(k + 1) if k % 2 == 0 else m.mpf(0))
            for i in range(n - 1):
                L.lt('sorted', x[i], x[i + 1])
            L.lt('inside', x[-1], m.mpf(1))
        L.raises('n = 0', ValueError, lambda: f(0))
        L.raises('n < 0', ValueError, lambda: f(-3))
        L.raises('n = 2.5', TypeError, lambda: f(2.5))
    o('roots_legendre.small', [('u', REAL())], leg, [F + '_legendre.roots_legendre'], samples=1)

    def legn(L, a):
        m = L.m
        f = fun(L).roots_legendre
        n = int(a.n) if not L.symbolic else a.n
        if L.symbolic:
            raise NotImplementedError('unbounded number of nodes')
        x, w = f(n)
        L.eq('number of nodes', (len(x), len(w)), (n, n))
        for k in range(2*n):
            L.eq(f'exact for t^{k}', m.fsum(wi*xi**k for xi, wi in zip(x, w)) + 1,
                 m.mpf(2)/(k + 1) + 1 if k % 2 == 0 else m.mpf(1))
        L.true('sorted', all(p < q for p, q in zip(x, x[1:])))
        L.true('inside', -1 < x[0] and x[-1] < 1)
        L.true('weights positive', all(t > 0 for t in w))
    def legroots(L, a, n):
        # the nodes are the roots the solver found for P_n (that the solver
        # finds each root once is not provable: bounded obligations below)
        m = L.m
        x, w = L.mod('fun').roots_legendre(n)
        L.eq('number of nodes', (len(x), len(w)), (n, n))
        for i in range(n):
            L.eq('symmetric', x[n - 1 - i], -x[i])
            L.eq('symmetric weights', w[n - 1 - i], w[i])
            v = m.legendre(n, x[i])
            (L.eq if L.symbolic else lambda s, p, q: L.zero(s, p, tol='1e-12'))('P_n(node)', v, 0)
            # (1 - x^2) P_n' = n (P_{n-1} - x P_n)
            d = n*(m.legendre(n - 1, x[i]) - x[i]*v)/(1 - x[i]**2)
            L.eq('weight', w[i]*(1 - x[i]**2)*d**2, 2)
        if n % 2:
            L.eq('middle node', x[n//2], 0)
    for n in (4, 5, 6):
        o(f'roots_legendre.nodes.n={n}', [('u', REAL())], lambda L, a, n=n: legroots(L, a, n),
          [F + '_legendre.roots_legendre'], samples=1)
    for n in (4, 5, 6, 7, 8, 9, 11, 14):
        o(f'roots_legendre.n={n}', [('u', REAL())], lambda L, a, n=n: legn(L, dict_ns(n=n)), [F + '_legendre.roots_legendre'],
          samples=1, sym=False)

    # ---- Marcum Q
    MB = dict(samples=4, tol='1e-15')
    B, A = NONNEG(clip=(0, 6), pool=('0', '1', '2')), POS(clip=('1/8', 6), pool=('1', '2', '1/2'))
    MM = POS(clip=('1/2', 6), pool=('1', '2', '3', '1/2'))

    def integrand(m, x, mm, aa):
        return x*m.exp((mm - 1)*m.log(x/aa) - (x**2 + aa**2)/2)*m.besseli(mm - 1, aa*x)

    def mq(L, a):
        m = L.m
        L.eq('Q', fun(L).marcumq(a.m, a.a, a.b), m.quad(lambda x: integrand(m, x, a.m, a.a), [a.b, m.inf]))
    o('marcumq.integral', [('m', MM), ('a', A), ('b', POS(clip=('1/8', 6)))], mq, [F + '_marcumq.marcumq'], **MB)

    def cmq(L, a):
        m = L.m
        L.eq('1 - Q', fun(L).cmarcumq(a.m, a.a, a.b),
             m.quad(lambda x: integrand(m, x, a.m, a.a) if x != 0 else
                    integrand(m, x, a.m, a.a), [0, a.b]) if L.symbolic else 1 - fun(L).marcumq(a.m, a.a, a.b))
    o('cmarcumq.integral', [('m', GE(1, clip=(1, 6), pool=('1', '2', '3', '3/2'))), ('a', A), ('b', POS(clip=('1/8', 6)))],
      cmq, [F + '_marcumq.cmarcumq'], samples=4, tol='1e-12')

    def mq0(L, a):
        m = L.m
        f = fun(L)
        u = m.gammainc(a.m, a.b**2/2, m.inf, regularized=True)
        L.eq('a = 0', f.marcumq(a.m, 0, a.b), u)
        L.eq('a = 0, complement', f.cmarcumq(a.m, 0, a.b), 1 - u)
        L.eq('b = 0', f.marcumq(a.m, a.a, 0), 1)
        L.eq('b = 0, complement', f.cmarcumq(a.m, a.a, 0), 0)
    o('marcumq.special', [('m', POS(pool=('1', '2'), clip=('1/2', 9))), ('a', NONNEG()), ('b', NONNEG(clip=(0, 9)))],
      mq0, [F + '_marcumq.marcumq', F + '_marcumq.cmarcumq'])

    def mq1(L, a):
        m = L.m
        f = fun(L)
        L.eq('Q_1(0, b)', f.marcumq(1, 0, a.b), m.exp(-a.b**2/2))
        L.eq('1 - Q_1(0, b)', f.cmarcumq(1, 0, a.b), 1 - m.exp(-a.b**2/2))
        L.eq('sum', f.marcumq(a.m, 0, a.b) + f.cmarcumq(a.m, 0, a.b), 1)
    o('marcumq.rayleigh', [('m', MM), ('b', POS(clip=('1/8', 8)))], mq1,
      [F + '_marcumq.marcumq', F + '_marcumq.cmarcumq'])

    # ---- spherical Bessel functions
    N0, Z = INT(0, pool=('0', '1', '2', '3')), POS(pool=('1', '2', '1/2'), clip=('1/64', 60))
    for k in 'jyik':
        def sb(L, a, k=k):
            m = L.m
            f = getattr(fun(L), 'spherical_bessel' + k)
            g = getattr(m, 'bessel' + k)
            L.eq('sqrt(pi/(2z)) J_{n+1/2}(z)', f(a.n, a.z), m.sqrt(m.pi/(2*a.z))*g(a.n + m.mpf(1)/2, a.z))
        o(f'spherical_bessel{k}', [('n', N0), ('z', Z)], sb, [F + '_spherical_bessel.spherical_bessel' + k])

        def sb0(L, a, k=k):
            m = L.m
            f = getattr(fun(L), 'spherical_bessel' + k)
            z = a.z
            r0, r1 = {'j': (m.sin(z)/z, m.sin(z)/z**2 - m.cos(z)/z),
                      'y': (-m.cos(z)/z, -m.cos(z)/z**2 - m.sin(z)/z),
                      'i': (m.sinh(z)/z, (z*m.cosh(z) - m.sinh(z))/z**2),
                      'k': (m.pi/2*m.exp(-z)/z, m.pi/2*m.exp(-z)*(z + 1)/z**2)}[k]
            L.eq('n = 0', f(0, z), r0)
            L.eq('n = 1', f(1, z), r1)
        o(f'spherical_bessel{k}.closed-form', [('z', Z)], sb0, [F + '_spherical_bessel.spherical_bessel' + k])

        def sbrec(L, a, k=k):
            m = L.m
            f = getattr(fun(L), 'spherical_bessel' + k)
            n, z = a.n, a.z
            p, q, r = f(n - 1, z), f(n, z), f(n + 1, z)
            c = (2*n + 1)/m.mpf(1)*q/z
            if k in 'jy':
                L.eq('f_{n-1} + f_{n+1} = (2n+1)/z f_n', p + r, c)
            elif k == 'i':
                L.eq('f_{n-1} - f_{n+1} = (2n+1)/z f_n', p, c + r)
            else:
                L.eq('f_{n+1} - f_{n-1} = (2n+1)/z f_n', r, c + p)
        o(f'spherical_bessel{k}.recurrence', [('n', INT(1, pool=('1', '2', '3'))), ('z', Z)], sbrec,
          [F + '_spherical_bessel.spherical_bessel' + k])
    for k in 'ji':
        def sbz(L, a, k=k):
            f = getattr(fun(L), 'spherical_bessel' + k)
            L.eq('n = 0, z = 0', f(0, 0), 1)
            L.eq('n > 0, z = 0', f(a.n, 0), 0)
        o(f'spherical_bessel{k}.z=0', [('n', INT(1))], sbz, [F + '_spherical_bessel.spherical_bessel' + k])

    # ---- Wright's generalised Bessel function
    R = GT(-1, pool=('1/2', '2', '0', '1'), clip=('-1/2', 4))
    BT = POS(pool=('1', '2', '1/2'), clip=('1/8', 8))
    WZ = dict(samples=4, tol='1e-15')

    def wb(L, a):
        m = L.m
        L.assume(a.rho != 0, a.rho != 1, a.z != 0)
        f = fun(L).wright_bessel
        L.eq('sum z^k/(k! gamma(rho k + beta))', f(a.z, a.rho, a.beta),
             m.nsum(lambda k: a.z**k/(m.factorial(k)*m.gamma(a.rho*k + a.beta)), [0, m.inf]))
    o('wright_bessel', [('z', REAL(clip=(-4, 4))), ('rho', POS(pool=('1/2', '2'), clip=('1/4', 4))), ('beta', BT)], wb,
      [F + '_wright_bessel.wright_bessel'], **WZ)

    def wb0(L, a):
        m = L.m
        f = fun(L).wright_bessel
        L.eq('z = 0', f(0, a.rho, a.beta), 1/m.gamma(a.beta))
        L.eq('rho = 0', f(a.z, 0, a.beta), m.exp(a.z)/m.gamma(a.beta))
        L.raises('rho = -1', ValueError, lambda: f(a.z, -1, a.beta))
        L.raises('rho < -1', ValueError, lambda: f(a.z, -1 - a.w, a.beta))
    o('wright_bessel.special', [('z', REAL(clip=(-9, 9))), ('rho', R), ('beta', BT), ('w', POS())], wb0,
      [F + '_wright_bessel.wright_bessel'])

    def wb0p(L, a):
        f = fun(L).wright_bessel
        L.eq('beta = 0, z = 0', f(0, a.rho, 0), 0)
        L.eq('beta = -1, z = 0', f(0, a.rho, -1), 0)
        L.eq('beta = 0, rho = 0', f(a.z, 0, 0), 0)
    o('wright_bessel.pole', [('z', POS(clip=(0, 9))), ('rho', POS())], wb0p, [F + '_wright_bessel.wright_bessel'])

    def wb1(L, a):
        m = L.m
        f = fun(L).wright_bessel
        z = a.z
        L.eq('rho = 1', f(z, 1, a.beta), m.exp((1 - a.beta)*m.log(z)/2)*m.besseli(a.beta - 1, 2*m.sqrt(z)))
        if not L.symbolic:
            L.eq('rho = 1: series', f(z, 1, a.beta),
                 m.nsum(lambda k: z**k*m.rgamma(k + a.beta)/m.factorial(k), [0, m.inf]))
    o('wright_bessel.rho=1', [('z', POS(clip=('1/8', 6))), ('beta', BT)], wb1, [F + '_wright_bessel.wright_bessel'],
      samples=5, tol='1e-15')

    # ---- Faddeeva
    def fw(L, a):
        m = L.m
        f = fun(L).faddeevaw
        L.eq('w(iy) = exp(y^2) erfc(y)', f(m.mpc(0, a.y)), m.mpc(m.exp(a.y**2)*m.erfc(a.y), 0))
        w, w2 = f(m.mpc(a.x, a.y)), f(m.mpc(-a.x, a.y))
        L.eq('w(-conj z) = conj w(z), real', w.real, w2.real)
        L.eq('w(-conj z) = conj w(z), imag', w.imag, -w2.imag)
        wr = f(a.x)
        L.eq('real part on the real line', wr.real, m.exp(-a.x**2))
        L.eq('imaginary part on the real line', wr.imag, m.exp(-a.x**2)*m.erfi(a.x))
        z = m.mpc(a.x, a.y)
        L.eq('w(z) + w(-z) = 2 exp(-z^2)', w + f(-z), 2*m.exp(-z*z))
        if not L.symbolic:
            d = m.diff(f, z)
            L.eq("w' = -2 z w + 2i/sqrt(pi)", d + 2*z*w, m.mpc(0, 2/m.sqrt(m.pi)))
    o('faddeevaw', [('x', POS(clip=('1/16', 4))), ('y', POS(clip=('1/16', 4)))], fw, [F + '_faddeevaw.faddeevaw'],
      samples=8)


class dict_ns(dict):
    __getattr__ = dict.__getitem__


def generate(prop):
    if prop == 'C14':
        c14(prop)
    if prop == 'C15':
        c15(prop)
    if prop == 'C19':
        bisection(prop)
