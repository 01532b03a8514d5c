"""
Specification functions of the distributions (the abstract view): support,
density, cdf and moments, written over `m`, an mpmath-like namespace (symbolic
or real).  Written from the documented definitions, not from the code.

'nf' as a spec value means: the moment is infinite or undefined (the code may
return inf or nan).
"""
import math

from engine.lab import REAL, POS, NONNEG, GT, GE, LT, LE, OPEN, CLOSED, INT, Dom

HALF = (1, 2)
SH = dict(pool=(1, 2, '1/2', 3))            # special shape values
DISTS = {}


class Dist:
    def __init__(self, name, params, kind='cont', **k):
        self.name, self.params, self.kind = name, params, kind
        self.pn = [n for n, d in params]
        self.lo_in = k.pop('lo_in', True)       # density formula valid at the lower end
        self.hi_in = k.pop('hi_in', True)
        self.slow = k.pop('slow', ())           # functions evaluated by quadrature/series
        self.tol = k.pop('tol', {})
        self.extra_ok = k.pop('extra_ok', None)     # additional constraint (m, env)->list of conds
        self.bad = k.pop('bad', ())             # extra invalid parameter sets [(label, override doms)]
        self.ls = k.pop('ls', None)
        self.spec = k

    def get(self, f):
        return self.spec.get(f)


def D(name, params, kind='cont', **k):
    d = Dist(name, params, kind, **k)
    DISTS[name] = d
    return d


def P(**k):
    d = dict(SH)
    d.update(k)
    return POS(**d)


def SC():
    return POS(pool=(1, 2, '1/4', 3))


def LOC():
    return REAL(pool=(0, 1, -2, '5/2'))


def h(m):
    return m.mpf(1) / 2


def xlogy(m, x, y):
    if x == 0:
        return m.mpf(0)
    return x * m.log(y)


def lbeta(m, a, b):
    return m.loggamma(a) + m.loggamma(b) - m.loggamma(a + b)


def lbin(m, n, k):
    n, k = m.mpf(n), m.mpf(k)
    return m.loggamma(n + 1) - m.loggamma(k + 1) - m.loggamma(n - k + 1)


def Phi(m, x):
    return m.erfc(-x / m.sqrt(m.mpf(2))) / 2


def phi(m, x):
    return m.exp(-x**2 / 2) / m.sqrt(2 * m.pi)


def P_gamma(m, a, x):
    return m.gammainc(a, 0, x, regularized=True)


def I_beta(m, x, a, b):
    return m.betainc(a, b, 0, x, regularized=True)


def moments(nc):
    """mean/var/skewness/kurtosis from a spec noncentral moment function nc(m, n, *params)"""
    def mean(m, *p):
        return nc(m, 1, *p)

    def var(m, *p):
        a, b = nc(m, 1, *p), nc(m, 2, *p)
        if b == 'nf':
            return 'nf'
        return b - a**2

    def skew(m, *p):
        a, b, c = nc(m, 1, *p), nc(m, 2, *p), nc(m, 3, *p)
        if c == 'nf':
            return 'nf'
        v = b - a**2
        return (c - 3*a*b + 2*a**3) / v**(m.mpf(3)/2)

    def kurt(m, *p):
        a, b, c, d = (nc(m, i, *p) for i in (1, 2, 3, 4))
        if d == 'nf':
            return 'nf'
        v = b - a**2
        return (d - 4*a*c + 6*a**2*b - 3*a**4) / v**2 - 3
    return dict(mean=mean, var=var, skewness=skew, kurtosis=kurt)


def rising(m, a, n):
    """a (a+1) ... (a+n-1)"""
    if isinstance(n, int):
        r = m.mpf(1)
        for k in range(n):
            r = r*(a + k)
        return r
    return m.gamma(a + n)/m.gamma(a)


def loc_moments(std):
    """noncentral moments of loc + scale*Z from those of Z: std(m, n, *shape)"""
    def nc(m, n, *p):
        *shape, loc, scale = p
        if not isinstance(n, int):
            from engine import sx
            return m.fsum(sx.seq_comp(lambda k: m.binomial(n, k) * loc**(n - k) * scale**k * std(m, k, *shape),
                                      sx.py_range(n + 1)))
        s = m.mpf(0)
        binom = 1
        for k in range(n + 1):
            sm = std(m, k, *shape)
            if isinstance(sm, str):
                return 'nf'
            s = s + binom * loc**(n - k) * scale**k * sm
            binom = binom * (n - k) // (k + 1)
        return s
    return nc


# ---------------------------------------------------------------- argus

def _Psi(m, c):
    return Phi(m, c) - c * phi(m, c) - h(m)


def argus_logpdf(m, x, chi, s):
    z = x / s
    if chi == 0:
        return m.log(3 * z * m.sqrt(1 - z**2) / s)
    return (3*m.log(chi) - m.log(2*m.pi)/2 - m.log(_Psi(m, chi)) + m.log(z / s) + m.log(1 - z**2)/2
            - chi**2 * (1 - z**2)/2)


def argus_cdf(m, x, chi, s):
    z = x / s
    if chi == 0:
        return 1 - (1 - z**2)**(m.mpf(3)/2)
    return 1 - _Psi(m, chi*m.sqrt(1 - z**2)) / _Psi(m, chi)


def argus_mean(m, chi, s):
    if chi == 0:
        return 3*m.pi*s/16
    return s*m.sqrt(m.pi/8)*chi*m.exp(-chi**2/4)*m.besseli(1, chi**2/4)/_Psi(m, chi)


def argus_var(m, chi, s):
    mu = argus_mean(m, chi, s)
    if chi == 0:
        return s**2*2/5 - mu**2
    return s**2*(1 - 3/chi**2 + chi*phi(m, chi)/_Psi(m, chi)) - mu**2


def argus_mode(m, chi, s):
    if chi == 0:
        return s/m.sqrt(m.mpf(2))
    return s/m.sqrt(m.mpf(2))/chi*m.sqrt(chi**2 - 2 + m.sqrt(chi**4 + 4))


D('argus', [('chi', NONNEG(pool=(0, 1, 2, '1/2'))), ('scale', SC())], support=lambda m, chi, s: (m.mpf(0), s),
  logpdf=argus_logpdf, cdf=argus_cdf, mean=argus_mean, var=argus_var, mode=argus_mode,
  lo_in=True, hi_in=True)

# ---------------------------------------------------------------- benini


def benini_nc(m, n, a, b, s):
    r = (a - n)/(2*m.sqrt(b))
    return s**n*(1 + n*m.sqrt(m.pi)/(2*m.sqrt(b))*m.exp(r**2)*m.erfc(r))


def benini_mode(m, a, b, s):
    if 2*b <= a*(a + 1):
        return s
    return s*m.exp((m.sqrt(8*b + 1) - 1 - 2*a)/(4*b))


D('benini', [('alpha', P()), ('beta', P()), ('scale', SC())],
  support=lambda m, a, b, s: (s, m.inf),
  logpdf=lambda m, x, a, b, s: (-a*m.log(x/s) - b*m.log(x/s)**2 + m.log(a/x + 2*b*m.log(x/s)/x)),
  cdf=lambda m, x, a, b, s: 1 - m.exp(-a*m.log(x/s) - b*m.log(x/s)**2),
  noncentral_moment=benini_nc, mean=lambda m, *p: benini_nc(m, 1, *p),
  var=lambda m, *p: benini_nc(m, 2, *p) - benini_nc(m, 1, *p)**2, mode=benini_mode)

# ------------------------------------------------------------ benktander


def bk1_logpdf(m, x, a, b):
    L = m.log(x)
    return m.log((1 + 2*b*L/a)*(1 + a + 2*b*L) - 2*b/a) - (2 + a + b*L)*L


def bk1_mode(m, a, b):
    if 6*b > a*(a + 2):
        return m.exp((m.sqrt(6*b + 1) - (a + 1))/(2*b))
    return m.mpf(1)


D('benktander1', [('a', P()), ('b', Dom(lo=0, hi=lambda e: e.a*(e.a + 1)/2, hi_in=True))],
  support=lambda m, a, b: (m.mpf(1), m.inf), logpdf=bk1_logpdf,
  cdf=lambda m, x, a, b: 1 - (1 + 2*b/a*m.log(x))*m.exp(-(a + 1 + b*m.log(x))*m.log(x)),
  mean=lambda m, a, b: 1 + 1/a,
  var=lambda m, a, b: (-m.sqrt(b) + a*m.exp(((a - 1)/(2*m.sqrt(b)))**2)*m.sqrt(m.pi)
                       * m.erfc((a - 1)/(2*m.sqrt(b))))/(a**2*m.sqrt(b)),
  mode=bk1_mode, lo_in=False,
  bad=[('b>a(a+1)/2', {'b': GT(lambda e: e.a*(e.a + 1)/2)})])

D('benktander2', [('a', P()), ('b', Dom(lo=0, hi=1, hi_in=True, pool=(1, '1/2')))],
  support=lambda m, a, b: (m.mpf(1), m.inf),
  logpdf=lambda m, x, a, b: a/b*(1 - x**b) + (b - 2)*m.log(x) + m.log(a*x**b - b + 1),
  cdf=lambda m, x, a, b: 1 - x**(b - 1)*m.exp(a/b*(1 - x**b)),
  mean=lambda m, a, b: 1 + 1/a,
  var=lambda m, a, b: (-b + 2*a*m.exp(a/b)*m.expint(1 - 1/b, a/b))/(a**2*b),
  mode=lambda m, a, b: m.mpf(1))

# ---------------------------------------------------------------- beta


def beta_nc(m, n, a, b):
    if not isinstance(n, int):
        return rising(m, a, n)/rising(m, a + b, n)
    r = m.mpf(1)
    for k in range(n):
        r = r*(a + k)/(a + b + k)
    return r


def beta_entropy(m, a, b):
    return lbeta(m, a, b) - (a - 1)*m.digamma(a) - (b - 1)*m.digamma(b) + (a + b - 2)*m.digamma(a + b)


D('beta', [('a', P()), ('b', P())], support=lambda m, a, b: (m.mpf(0), m.mpf(1)),
  logpdf=lambda m, x, a, b: xlogy(m, a - 1, x) + xlogy(m, b - 1, 1 - x) - lbeta(m, a, b),
  cdf=lambda m, x, a, b: I_beta(m, x, a, b), noncentral_moment=beta_nc, entropy=beta_entropy,
  **moments(beta_nc))

# ----------------------------------------------------------- betabinomial


def bb_fm(m, r, n, a, b):
    """factorial moment E[K(K-1)...(K-r+1)]"""
    v = m.mpf(1)
    for i in range(r):
        v = v*(n - i)*(a + i)/(a + b + i)
    return v


def fm_moments(fm):
    """mean, var, skewness, kurtosis from factorial moments"""
    def raw(m, *p):
        f1, f2, f3, f4 = (fm(m, r, *p) for r in (1, 2, 3, 4))
        return f1, f2 + f1, f3 + 3*f2 + f1, f4 + 6*f3 + 7*f2 + f1

    def nc(m, n, *p):
        return raw(m, *p)[n - 1]
    return moments(nc)


D('betabinomial', [('n', INT(0)), ('a', P()), ('b', P())], 'disc',
  support=lambda m, n, a, b: (0, n),
  logpmf=lambda m, k, n, a, b: lbin(m, n, k) + lbeta(m, k + a, n - k + b) - lbeta(m, a, b),
  **fm_moments(bb_fm))

# ------------------------------------------------------------- betaprime


def bp_nc(m, n, a, b, s):
    if b <= n:
        return 'nf'
    if not isinstance(n, int):
        return s**n*rising(m, a, n)/rising(m, b - n, n)
    r = s**n
    for k in range(n):
        r = r*(a + k)/(b - 1 - k)
    return r


def bp_mode(m, a, b, s):
    if a < 1:
        return m.mpf(0)
    return s*(a - 1)/(b + 1)


def bp_entropy(m, a, b, s):
    return (m.log(s) + lbeta(m, a, b) - (a - 1)*m.digamma(a) - (b + 1)*m.digamma(b)
            + (a + b)*m.digamma(a + b))


D('betaprime', [('a', P()), ('b', P(pool=(1, 2, 3, 4, 5, '1/2'))), ('scale', SC())],
  support=lambda m, a, b, s: (m.mpf(0), m.inf),
  logpdf=lambda m, x, a, b, s: (xlogy(m, a - 1, x/s) - (a + b)*m.log(1 + x/s) - lbeta(m, a, b) - m.log(s)),
  cdf=lambda m, x, a, b, s: I_beta(m, x/(x + s), a, b), noncentral_moment=bp_nc, mode=bp_mode,
  entropy=bp_entropy, **moments(bp_nc))

# -------------------------------------------------------------- binomial


def bin_logpmf(m, k, n, p):
    return lbin(m, n, k) + xlogy(m, k, p) + xlogy(m, n - k, 1 - p)


D('binomial', [('n', INT(0)), ('p', CLOSED(0, 1, pool=('1/2', '1/4')))], 'disc',
  support=lambda m, n, p: (0, n), logpmf=bin_logpmf,
  mean=lambda m, n, p: n*p, var=lambda m, n, p: n*p*(1 - p))

# ---------------------------------------------------------------- burr12


def burr12_nc(m, n, c, d, s):
    if c*d <= n:
        return 'nf'
    return s**n*d*m.exp(lbeta(m, d - n/c, 1 + n/c))


def burr12_mode(m, c, d, s):
    if c <= 1:
        return m.mpf(0)
    return s*((c - 1)/(d*c + 1))**(1/c)


D('burr12', [('c', P()), ('d', P()), ('scale', SC())], support=lambda m, c, d, s: (m.mpf(0), m.inf),
  logpdf=lambda m, x, c, d, s: m.log(c*d/s) + (c - 1)*m.log(x/s) - (d + 1)*m.log(1 + (x/s)**c),
  cdf=lambda m, x, c, d, s: 1 - (1 + (x/s)**c)**(-d),
  mode=burr12_mode, lo_in=False,
  **{k: v for k, v in moments(burr12_nc).items() if k in ('mean', 'var')})

# ---------------------------------------------------------------- cauchy
D('cauchy', [('loc', LOC()), ('scale', SC())], ls=True, support=lambda m, l, s: (m.ninf, m.inf),
  logpdf=lambda m, x, l, s: -m.log(m.pi*s) - m.log(1 + ((x - l)/s)**2),
  cdf=lambda m, x, l, s: m.atan((x - l)/s)/m.pi + h(m),
  mean=lambda m, l, s: 'nf', var=lambda m, l, s: 'nf', mode=lambda m, l, s: l,
  entropy=lambda m, l, s: m.log(4*m.pi*s))

# ------------------------------------------------------------- chi, chi2


def chi_nc(m, n, k):
    return m.mpf(2)**(m.mpf(n)/2)*m.exp(m.loggamma((k + n)/2) - m.loggamma(k/2))


def chi_mode(m, k):
    return m.sqrt(k - 1) if k >= 1 else m.mpf(0)


D('chi', [('k', P())], support=lambda m, k: (m.mpf(0), m.inf),
  logpdf=lambda m, x, k: xlogy(m, k - 1, x) - x**2/2 - (k/2 - 1)*m.log(m.mpf(2)) - m.loggamma(k/2),
  cdf=lambda m, x, k: P_gamma(m, k/2, x**2/2),
  noncentral_moment=chi_nc, mean=lambda m, k: chi_nc(m, 1, k), var=lambda m, k: k - chi_nc(m, 1, k)**2,
  mode=chi_mode,
  entropy=lambda m, k: m.loggamma(k/2) + (k - m.log(m.mpf(2)) - (k - 1)*m.digamma(k/2))/2)


def chi2_nc(m, n, k):
    return m.mpf(2)**n*rising(m, k/2, n)


D('chi2', [('k', P())], support=lambda m, k: (m.mpf(0), m.inf),
  logpdf=lambda m, x, k: xlogy(m, k/2 - 1, x) - x/2 - k/2*m.log(m.mpf(2)) - m.loggamma(k/2),
  cdf=lambda m, x, k: P_gamma(m, k/2, x/2), noncentral_moment=chi2_nc,
  mean=lambda m, k: k, var=lambda m, k: 2*k, mode=lambda m, k: (k - 2 if k > 2 else m.mpf(0)),
  entropy=lambda m, k: k/2 + m.log(m.mpf(2)) + m.loggamma(k/2) + (1 - k/2)*m.digamma(k/2))

# ---------------------------------------------------------------- cosine
D('cosine', [], support=lambda m: (-m.pi, m.pi), lo_in=False, hi_in=False,
  logpdf=lambda m, x: m.log((1 + m.cos(x))/(2*m.pi)),
  cdf=lambda m, x: (m.pi + x + m.sin(x))/(2*m.pi),
  mean=lambda m: m.mpf(0), mode=lambda m: m.mpf(0), var=lambda m: m.pi**2/3 - 2,
  skewness=lambda m: m.mpf(0),
  kurtosis=lambda m: 6*(90 - m.pi**4)/(5*(m.pi**2 - 6)**2))

# -------------------------------------------------------------- exponweib
def ew_logpdf(m, x, a, c, s):
    if x == 0:
        # the density behaves like a*c/s*(x/s)**(a*c - 1)
        return m.log(a*c/s) + xlogy(m, a*c - 1, x)
    return (m.log(a*c/s) + xlogy(m, c - 1, x/s)
            + xlogy(m, a - 1, 1 - m.exp(-(x/s)**c)) - (x/s)**c)


D('exponweib', [('a', P()), ('c', P()), ('scale', SC())], support=lambda m, a, c, s: (m.mpf(0), m.inf),
  logpdf=ew_logpdf,
  cdf=lambda m, x, a, c, s: (1 - m.exp(-(x/s)**c))**a, slow=('mean', 'var', 'noncentral_moment'))

# ---------------------------------------------------------------------- f


def f_nc(m, n, d1, d2):
    if d2 <= 2*n:
        return 'nf'
    return (d2/d1)**n*rising(m, d1/2, n)/rising(m, d2/2 - n, n)


def f_mode(m, d1, d2):
    if d1 <= 2:
        return m.mpf(0)
    return (d1 - 2)/d1*d2/(d2 + 2)


def f_entropy(m, d1, d2):
    return m.log(d2/d1) + bp_entropy(m, d1/2, d2/2, m.mpf(1))


_f = {k: v for k, v in moments(f_nc).items() if k in ('mean', 'var')}
D('f', [('dfn', P()), ('dfd', P(pool=(1, 2, 3, 4, 5)))], support=lambda m, a, b: (m.mpf(0), m.inf),
  logpdf=lambda m, x, a, b: (a/2*m.log(a/b) + xlogy(m, a/2 - 1, x) - (a + b)/2*m.log(1 + a*x/b)
                             - lbeta(m, a/2, b/2)),
  cdf=lambda m, x, a, b: I_beta(m, a*x/(a*x + b), a/2, b/2), mode=f_mode, entropy=f_entropy,
  lo_in=False, **_f)

# ------------------------------------------- Fisher's noncentral hypergeom
# (handled in contracts.extra: finite sums)

# ---------------------------------------------------------- folded normal


def fn_mean(m, mu, s):
    r = mu/s
    return s*m.sqrt(2/m.pi)*m.exp(-r**2/2) + mu*m.erf(r/m.sqrt(m.mpf(2)))


D('folded_normal', [('mu', LOC()), ('sigma', SC())], support=lambda m, mu, s: (m.mpf(0), m.inf),
  logpdf=lambda m, x, mu, s: m.log((phi(m, (x - mu)/s) + phi(m, (x + mu)/s))/s),
  cdf=lambda m, x, mu, s: (m.erf((x + mu)/(s*m.sqrt(m.mpf(2)))) + m.erf((x - mu)/(s*m.sqrt(m.mpf(2)))))/2,
  mean=fn_mean, var=lambda m, mu, s: mu**2 + s**2 - fn_mean(m, mu, s)**2)

# ------------------------------------------------------------------- gamma


def gamma_nc(m, n, k, s):
    return s**n*rising(m, k, n)


D('gamma', [('k', P()), ('scale', SC())], support=lambda m, k, s: (m.mpf(0), m.inf),
  logpdf=lambda m, x, k, s: xlogy(m, k - 1, x) - x/s - m.loggamma(k) - k*m.log(s),
  cdf=lambda m, x, k, s: P_gamma(m, k, x/s), noncentral_moment=gamma_nc,
  mode=lambda m, k, s: ((k - 1)*s if k > 1 else m.mpf(0)),
  entropy=lambda m, k, s: k + m.log(s) + m.loggamma(k) + (1 - k)*m.digamma(k),
  **moments(gamma_nc))

# ----------------------------------------------------------- gamma_gompertz


def gg_mean(m, c, b, s):
    if b == 1:
        return s/c
    if c == 1:
        return s*b/(b - 1)*m.log(b)
    return s/c*m.hyp2f1(c, 1, c + 1, (b - 1)/b)


D('gamma_gompertz', [('c', P()), ('beta', P()), ('scale', SC())],
  support=lambda m, c, b, s: (m.mpf(0), m.inf),
  logpdf=lambda m, x, c, b, s: m.log(c/s) + x/s + c*m.log(b) - (c + 1)*m.log(b - 1 + m.exp(x/s)),
  cdf=lambda m, x, c, b, s: 1 - (b/(b - 1 + m.exp(x/s)))**c,
  mean=gg_mean, mode=lambda m, c, b, s: (m.mpf(0) if b <= c + 1 else s*m.log((b - 1)/c)))

# ------------------------------------------------------------ gauss_kuzmin
D('gauss_kuzmin', [], 'disc', support=lambda m: (1, None),
  logpmf=lambda m, k: m.log(-m.log(1 - 1/m.mpf(k + 1)**2)/m.log(m.mpf(2))),
  cdf=lambda m, k: 1 - m.log((m.mpf(k) + 2)/(m.mpf(k) + 1))/m.log(m.mpf(2)),
  mean=lambda m: 'nf', var=lambda m: 'nf', mode=lambda m: m.mpf(1), median=lambda m: m.mpf(2))

# ---------------------------------------------------------------- genexpon
D('genexpon', [('a', P()), ('b', P()), ('c', P()), ('loc', LOC()), ('scale', SC())], ls=True,
  support=lambda m, a, b, c, l, s: (l, m.inf),
  logpdf=lambda m, x, a, b, c, l, s: (m.log((a + b*(1 - m.exp(-c*(x - l)/s)))/s) - (a + b)*(x - l)/s
                                      + b/c*(1 - m.exp(-c*(x - l)/s))),
  cdf=lambda m, x, a, b, c, l, s: 1 - m.exp(-(a + b)*(x - l)/s + b/c*(1 - m.exp(-c*(x - l)/s))))

# --------------------------------------------------------------- genextreme


def gev_support(m, xi, mu, s):
    if xi == 0:
        return m.ninf, m.inf
    if xi > 0:
        return mu - s/xi, m.inf
    return m.ninf, mu - s/xi


def gev_lt(m, x, xi, mu, s):
    z = (x - mu)/s
    if xi == 0:
        return -z
    return -m.log(1 + xi*z)/xi


def gev_logpdf(m, x, xi, mu, s):
    lt = gev_lt(m, x, xi, mu, s)
    return (xi + 1)*lt - m.exp(lt) - m.log(s)


def gev_std_c(m, xi):
    """central quantities through g_k = Gamma(1 - k xi)"""
    return [m.gamma(1 - k*xi) for k in range(5)]


def gev_mean(m, xi, mu, s):
    if xi == 0:
        return mu + s*m.euler
    if xi < 1:
        return mu + s*(m.gamma(1 - xi) - 1)/xi
    return 'nf'


def gev_var(m, xi, mu, s):
    if xi == 0:
        return s**2*m.pi**2/6
    if 2*xi < 1:
        return s**2*(m.gamma(1 - 2*xi) - m.gamma(1 - xi)**2)/xi**2
    return 'nf'


def gev_skew(m, xi, mu, s):
    if xi == 0:
        return 12*m.sqrt(m.mpf(6))*m.zeta(3)/m.pi**3
    if 3*xi < 1:
        g1, g2, g3 = (m.gamma(1 - k*xi) for k in (1, 2, 3))
        r = (g3 - 3*g2*g1 + 2*g1**3)/(g2 - g1**2)**(m.mpf(3)/2)
        return r if xi > 0 else -r
    return 'nf'


def gev_kurt(m, xi, mu, s):
    if xi == 0:
        return m.mpf(12)/5
    if 4*xi < 1:
        g1, g2, g3, g4 = (m.gamma(1 - k*xi) for k in (1, 2, 3, 4))
        return (g4 - 4*g3*g1 + 6*g2*g1**2 - 3*g1**4)/(g2 - g1**2)**2 - 3
    return 'nf'


def gev_mode(m, xi, mu, s):
    if xi < -1:
        return mu - s/xi
    if xi == 0:
        return mu
    if xi == -1:
        return mu + s
    return mu + s*((1 + xi)**(-xi) - 1)/xi


def gev_std_nc(m, n, xi):
    if n == 0:
        return m.mpf(1)
    if xi == 0:
        g, z2 = m.euler, m.pi**2/6
        if n == 1:
            return g
        if n == 2:
            return z2 + g**2
        if n == 3:
            return 2*m.zeta(3) + 3*z2*g + g**3
        if n == 4:
            return m.pi**4/15 + 3*z2**2 + 4*2*m.zeta(3)*g + 6*z2*g**2 + g**4
        kappa = [None, g] + [math.factorial(k - 1)*m.zeta(k) for k in range(2, n + 1)]
        mom = [m.mpf(1)]
        for j in range(1, n + 1):
            mom.append(sum(math.comb(j - 1, k - 1)*kappa[k]*mom[j - k] for k in range(1, j + 1)))
        return mom[n]
    if n*xi >= 1:
        return 'nf'
    s, binom = m.mpf(0), 1
    for k in range(n + 1):
        s = s + binom*(-1)**(n - k)*m.gamma(1 - k*xi)
        binom = binom*(n - k)//(k + 1)
    return s/xi**n


XI = dict(pool=(0, '1/2', '-1/2', 1, -1, '1/4', '1/3', '1/8', '-3/2'))
D('genextreme', [('xi', REAL(**XI)), ('mu', LOC()), ('sigma', SC())], ls=True,
  support=gev_support, logpdf=gev_logpdf, lo_in=False, hi_in=False,
  cdf=lambda m, x, xi, mu, s: m.exp(-m.exp(gev_lt(m, x, xi, mu, s))),
  mean=gev_mean, var=gev_var, skewness=gev_skew, kurtosis=gev_kurt, mode=gev_mode,
  entropy=lambda m, xi, mu, s: m.log(s) + m.euler*(xi + 1) + 1,
  noncentral_moment=loc_moments(gev_std_nc))

# ------------------------------------------------------------ genhyperbolic


def gh_logpdf(m, x, p, a, b, l, s):
    z = (x - l)/s
    g2 = a**2 - b**2
    return (p/2*m.log(g2) - m.log(2*m.pi)/2 - (p - h(m))*m.log(a) - m.log(m.besselk(p, m.sqrt(g2)))
            + b*z + m.log(m.besselk(p - h(m), a*m.sqrt(1 + z**2))) + (p - h(m))/2*m.log(1 + z**2) - m.log(s))


def gh_mean(m, p, a, b, l, s):
    d = m.sqrt(a**2 - b**2)
    return l + s*b/d*m.besselk(p + 1, d)/m.besselk(p, d)


def gh_var(m, p, a, b, l, s):
    d = m.sqrt(a**2 - b**2)
    k0, k1, k2 = m.besselk(p, d), m.besselk(p + 1, d), m.besselk(p + 2, d)
    return s**2*(k1/(d*k0) + b**2/d**2*(k2/k0 - k1**2/k0**2))


D('genhyperbolic', [('p', REAL(pool=(0, 1, '1/2', '-1/2', -2))), ('a', P()),
                    ('b', Dom(lo=lambda e: -e.a, hi=lambda e: e.a, pool=(0,))), ('loc', LOC()), ('scale', SC())],
  ls=True, support=lambda m, *p: (m.ninf, m.inf), logpdf=gh_logpdf, mean=gh_mean, var=gh_var,
  slow=('cdf', 'sf'))

# -------------------------------------------------------------- geninvgauss


def gig_nc(m, n, p, b, l, s):
    if n == 1:
        return l + s*m.besselk(p + 1, b)/m.besselk(p, b)
    r = m.besselk(p + 1, b)/m.besselk(p, b)
    return l**2 + 2*l*s*r + s**2*m.besselk(p + 2, b)/m.besselk(p, b)


D('geninvgauss', [('p', REAL(pool=(0, 1, '1/2', '-1/2'))), ('b', P()), ('loc', LOC()), ('scale', SC())], ls=True,
  support=lambda m, p, b, l, s: (l, m.inf), lo_in=False,
  logpdf=lambda m, x, p, b, l, s: ((p - 1)*m.log((x - l)/s) - b*((x - l)/s + s/(x - l))/2
                                   - m.log(2*s*m.besselk(p, b))),
  mode=lambda m, p, b, l, s: l + s*(p - 1 + m.sqrt((p - 1)**2 + b**2))/b,
  slow=('cdf', 'sf'), **{k: v for k, v in moments(gig_nc).items() if k in ('mean', 'var')})

# ---------------------------------------------------------------- genpareto


def gp_logpdf(m, x, xi, mu, s):
    z = (x - mu)/s
    if xi == 0:
        return -z - m.log(s)
    return -(1/xi + 1)*m.log(1 + xi*z) - m.log(s)


def gp_cdf(m, x, xi, mu, s):
    z = (x - mu)/s
    if xi == 0:
        return 1 - m.exp(-z)
    return 1 - (1 + xi*z)**(-1/xi)


D('genpareto', [('xi', REAL(**XI)), ('mu', LOC()), ('sigma', SC())], ls=True,
  support=lambda m, xi, mu, s: (mu, m.inf if xi >= 0 else mu - s/xi), logpdf=gp_logpdf, cdf=gp_cdf,
  hi_in=False, mean=lambda m, xi, mu, s: (mu + s/(1 - xi) if xi < 1 else 'nf'),
  var=lambda m, xi, mu, s: (s**2/((1 - xi)**2*(1 - 2*xi)) if 2*xi < 1 else 'nf'),
  entropy=lambda m, xi, mu, s: m.log(s) + xi + 1)

# ----------------------------------------------------------------- gompertz
D('gompertz', [('c', P()), ('scale', SC())], support=lambda m, c, s: (m.mpf(0), m.inf),
  logpdf=lambda m, x, c, s: m.log(c/s) + c + x/s - c*m.exp(x/s),
  cdf=lambda m, x, c, s: 1 - m.exp(-c*(m.exp(x/s) - 1)),
  mean=lambda m, c, s: s*m.exp(c)*m.e1(c), mode=lambda m, c, s: (m.mpf(0) if c >= 1 else -s*m.log(c)),
  entropy=lambda m, c, s: 1 - m.log(c) - m.exp(c)*m.e1(c) + m.log(s), slow=())

# ------------------------------------------------------------------- gumbel
for _n, _s in (('gumbel_max', -1), ('gumbel_min', 1)):
    D(_n, [('loc', LOC()), ('scale', SC())], ls=True, support=lambda m, l, s: (m.ninf, m.inf),
      logpdf=lambda m, x, l, s, S=_s: S*(x - l)/s - m.exp(S*(x - l)/s) - m.log(s),
      cdf=(lambda m, x, l, s: m.exp(-m.exp(-(x - l)/s))) if _s < 0 else
          (lambda m, x, l, s: 1 - m.exp(-m.exp((x - l)/s))),
      mean=lambda m, l, s, S=_s: l - S*m.euler*s, var=lambda m, l, s: m.pi**2/6*s**2,
      mode=lambda m, l, s: l)

# ------------------------------------------------------------ half_logistic
D('half_logistic', [('loc', LOC()), ('scale', SC())], ls=True, support=lambda m, l, s: (l, m.inf),
  logpdf=lambda m, x, l, s: m.log(2/s) - (x - l)/s - 2*m.log(1 + m.exp(-(x - l)/s)),
  cdf=lambda m, x, l, s: (1 - m.exp(-(x - l)/s))/(1 + m.exp(-(x - l)/s)),
  mean=lambda m, l, s: l + s*m.log(m.mpf(4)), var=lambda m, l, s: s**2*(m.pi**2/3 - m.log(m.mpf(4))**2),
  mode=lambda m, l, s: l, entropy=lambda m, l, s: m.log(s) + 2 - m.log(m.mpf(2)))

# ----------------------------------------------------------- hypergeometric


def imax(a, b):
    return a if a >= b else b


def imin(a, b):
    return a if a <= b else b


def hg_fm(m, r, N, K, n):
    v = m.mpf(1)
    for i in range(r):
        v = v*(K - i)*(n - i)/(m.mpf(N) - i)
    return v


D('hypergeometric', [('ntotal', INT(1, span=15)), ('ngood', INT(0, lambda e: e.ntotal)),
                     ('nsample', INT(0, lambda e: e.ntotal))], 'disc',
  support=lambda m, N, K, n: (imax(0, n - (N - K)), imin(n, K)),
  logpmf=lambda m, k, N, K, n: lbin(m, K, k) + lbin(m, N - K, n - k) - lbin(m, N, n),
  mean=lambda m, N, K, n: m.mpf(n)*K/N)

# ---------------------------------------------------------------- hypsecant
D('hypsecant', [('loc', LOC()), ('scale', SC())], ls=True, support=lambda m, l, s: (m.ninf, m.inf),
  logpdf=lambda m, x, l, s: m.log(2/(m.pi*s)) - m.log(m.exp((x - l)/s) + m.exp(-(x - l)/s)),
  cdf=lambda m, x, l, s: 2/m.pi*m.atan(m.exp((x - l)/s)),
  mean=lambda m, l, s: l, mode=lambda m, l, s: l, var=lambda m, l, s: m.pi**2*s**2/4,
  entropy=lambda m, l, s: m.log(2*m.pi*s))

# ------------------------------------------------------- invchi2, invgamma


def ig_std_nc(m, n, a):
    if a <= n:
        return 'nf'
    return 1/rising(m, a - n, n)


D('invchi2', [('nu', P(pool=(1, 2, 3, 4, 5)))], support=lambda m, nu: (m.mpf(0), m.inf), lo_in=False,
  logpdf=lambda m, x, nu: -nu/2*m.log(m.mpf(2)) - (nu/2 + 1)*m.log(x) - 1/(2*x) - m.loggamma(nu/2),
  cdf=lambda m, x, nu: 1 - P_gamma(m, nu/2, 1/(2*x)),
  mean=lambda m, nu: (1/(nu - 2) if nu > 2 else 'nf'), mode=lambda m, nu: 1/(nu + 2),
  var=lambda m, nu: (2/((nu - 2)**2*(nu - 4)) if nu > 4 else 'nf'))

_igm = {k: v for k, v in moments(loc_moments(ig_std_nc)).items()}
D('invgamma', [('a', P(pool=(1, 2, 3, 4, 5, '1/2'))), ('loc', LOC()), ('scale', SC())], ls=True,
  support=lambda m, a, l, s: (l, m.inf), lo_in=False,
  logpdf=lambda m, x, a, l, s: a*m.log(s) - m.loggamma(a) - (a + 1)*m.log(x - l) - s/(x - l),
  cdf=lambda m, x, a, l, s: 1 - P_gamma(m, a, s/(x - l)),
  mode=lambda m, a, l, s: l + s/(a + 1),
  entropy=lambda m, a, l, s: a + m.log(s) + m.loggamma(a) - (1 + a)*m.digamma(a),
  noncentral_moment=loc_moments(ig_std_nc), mean=_igm['mean'],
  var=lambda m, a, l, s: (s**2/((a - 1)**2*(a - 2)) if a > 2 else 'nf'),
  skewness=lambda m, a, l, s: (4*m.sqrt(a - 2)/(a - 3) if a > 3 else 'nf'),
  kurtosis=lambda m, a, l, s: (6*(5*a - 11)/((a - 3)*(a - 4)) if a > 4 else 'nf'))

# ----------------------------------------------------------------- invgauss


def igauss_std_nc(m, n, mu):
    """E Z^n, Z ~ IG(mu, 1):  sum_{i<n} (n-1+i)!/(i!(n-1-i)!) mu^(n+i)/2^i"""
    if n == 0:
        return m.mpf(1)
    from math import factorial as F
    s = m.mpf(0)
    for i in range(n):
        s = s + m.mpf(F(n - 1 + i))/(F(i)*F(n - 1 - i)*2**i)*mu**(n + i)
    return s


def igauss_cdf(m, x, mu, l, s):
    z = (x - l)/s
    r = 1/m.sqrt(z)
    return Phi(m, r*(z/mu - 1)) + m.exp(2/mu)*Phi(m, -r*(z/mu + 1))


D('invgauss', [('m', P()), ('loc', LOC()), ('scale', SC())], ls=True, support=lambda m, mu, l, s: (l, m.inf),
  lo_in=False,
  logpdf=lambda m, x, mu, l, s: (-m.log(2*m.pi*((x - l)/s)**3)/2 - ((x - l)/s - mu)**2*s/(2*mu**2*(x - l))
                                 - m.log(s)),
  cdf=igauss_cdf, noncentral_moment=loc_moments(igauss_std_nc),
  mean=lambda m, mu, l, s: l + s*mu, var=lambda m, mu, l, s: s**2*mu**3,
  mode=lambda m, mu, l, s: l + s*mu*(m.sqrt(1 + 9*mu**2/4) - 3*mu/2),
  entropy=lambda m, mu, l, s: (m.log(2*m.pi*mu**3) + 1)/2 - 3*m.exp(2/mu)*m.e1(2/mu)/2 + m.log(s))

# -------------------------------------------------------------- kumaraswamy


def kum_nc(m, n, a, b):
    return b*m.exp(lbeta(m, 1 + n/a, b))


_k = moments(kum_nc)
D('kumaraswamy', [('a', P()), ('b', P())], support=lambda m, a, b: (m.mpf(0), m.mpf(1)),
  logpdf=lambda m, x, a, b: m.log(a*b) + xlogy(m, a - 1, x) + xlogy(m, b - 1, 1 - x**a),
  cdf=lambda m, x, a, b: 1 - (1 - x**a)**b, noncentral_moment=kum_nc,
  mean=_k['mean'], var=_k['var'], skewness=_k['skewness'],
  entropy=lambda m, a, b: (1 - 1/b) + (1 - 1/a)*(m.digamma(b + 1) + m.euler) - m.log(a*b))

# ------------------------------------------------------------------ laplace


def lap_cdf(m, x, l, s):
    if x <= l:
        return m.exp((x - l)/s)/2
    return 1 - m.exp(-(x - l)/s)/2


D('laplace', [('loc', LOC()), ('scale', SC())], ls=True, support=lambda m, l, s: (m.ninf, m.inf),
  logpdf=lambda m, x, l, s: (-(x - l)/s if x >= l else (x - l)/s) - m.log(2*s), cdf=lap_cdf,
  mean=lambda m, l, s: l, mode=lambda m, l, s: l, var=lambda m, l, s: 2*s**2)

# --------------------------------------------------------------------- levy
D('levy', [('mu', LOC()), ('sigma', SC())], ls=True, support=lambda m, l, s: (l, m.inf), lo_in=False,
  logpdf=lambda m, x, l, s: m.log(s/(2*m.pi))/2 - s/(2*(x - l)) - m.log(x - l)*3/2,
  cdf=lambda m, x, l, s: m.erfc(m.sqrt(s/(2*(x - l)))))

# ----------------------------------------------------------------- loggamma
D('loggamma', [('k', P()), ('theta', SC())], support=lambda m, k, t: (m.ninf, m.inf),
  logpdf=lambda m, x, k, t: k*x/t - m.exp(x/t) - m.loggamma(k) - m.log(t),
  cdf=lambda m, x, k, t: P_gamma(m, k, m.exp(x/t)),
  mean=lambda m, k, t: t*m.digamma(k), var=lambda m, k, t: t**2*m.psi(1, k), mode=lambda m, k, t: t*m.log(k),
  skewness=lambda m, k, t: m.psi(2, k)/m.psi(1, k)**(m.mpf(3)/2),
  kurtosis=lambda m, k, t: m.psi(3, k)/m.psi(1, k)**2)

# ----------------------------------------------------------------- logistic
D('logistic', [('loc', LOC()), ('scale', SC())], ls=True, support=lambda m, l, s: (m.ninf, m.inf),
  logpdf=lambda m, x, l, s: -(x - l)/s - 2*m.log(1 + m.exp(-(x - l)/s)) - m.log(s),
  cdf=lambda m, x, l, s: 1/(1 + m.exp(-(x - l)/s)),
  mean=lambda m, l, s: l, mode=lambda m, l, s: l, var=lambda m, l, s: s**2*m.pi**2/3,
  entropy=lambda m, l, s: m.log(s) + 2)

# -------------------------------------------------------------- loglogistic


def ll_nc(m, n, b, s):
    if b <= n:
        return 'nf'
    t = m.pi*n/b
    return s**n*t/m.sin(t)


D('loglogistic', [('beta', P()), ('scale', SC())], support=lambda m, b, s: (m.mpf(0), m.inf), lo_in=False,
  logpdf=lambda m, x, b, s: m.log(b/s) + (b - 1)*m.log(x/s) - 2*m.log(1 + (x/s)**b),
  cdf=lambda m, x, b, s: 1/(1 + (x/s)**(-b)), noncentral_moment=ll_nc,
  **{k: v for k, v in moments(ll_nc).items() if k in ('mean', 'var')})

# ---------------------------------------------------------------- lognormal


def ln_nc(m, n, mu, s):
    return m.exp(n*mu + n**2*s**2/2)


_l = moments(ln_nc)
D('lognormal', [('mu', LOC()), ('sigma', SC())], support=lambda m, mu, s: (m.mpf(0), m.inf), lo_in=False,
  logpdf=lambda m, x, mu, s: -((m.log(x) - mu)/s)**2/2 - m.log(x*s) - m.log(2*m.pi)/2,
  cdf=lambda m, x, mu, s: Phi(m, (m.log(x) - mu)/s), noncentral_moment=ln_nc,
  mean=_l['mean'], var=_l['var'],
  skewness=lambda m, mu, s: (m.exp(s**2) + 2)*m.sqrt(m.exp(s**2) - 1),
  kurtosis=lambda m, mu, s: m.exp(4*s**2) + 2*m.exp(3*s**2) + 3*m.exp(2*s**2) - 6,
  mode=lambda m, mu, s: m.exp(mu - s**2),
  entropy=lambda m, mu, s: m.log(s) + mu + (1 + m.log(2*m.pi))/2)

# ---------------------------------------------------------------- logseries


def ls_fm(m, r, p):
    from math import factorial
    return -factorial(r - 1)*(p/(1 - p))**r/m.log(1 - p)


D('logseries', [('p', OPEN(0, 1, pool=('1/2', '1/4')))], 'disc', support=lambda m, p: (1, None),
  logpmf=lambda m, k, p: k*m.log(p) - m.log(m.mpf(k)) - m.log(-m.log(1 - p)), mode=lambda m, p: m.mpf(1),
  **fm_moments(ls_fm))

# ------------------------------------------------------------------ maxwell
D('maxwell', [('loc', LOC()), ('scale', SC())], ls=True, support=lambda m, l, s: (l, m.inf), lo_in=False,
  logpdf=lambda m, x, l, s: m.log(2/m.pi)/2 + 2*m.log((x - l)/s) - ((x - l)/s)**2/2 - m.log(s),
  cdf=lambda m, x, l, s: P_gamma(m, m.mpf(3)/2, ((x - l)/s)**2/2),
  mean=lambda m, l, s: l + 2*s*m.sqrt(2/m.pi), var=lambda m, l, s: s**2*(3 - 8/m.pi),
  mode=lambda m, l, s: l + s*m.sqrt(m.mpf(2)),
  entropy=lambda m, l, s: m.log(s) + m.log(2*m.pi)/2 + m.euler - h(m))

# ----------------------------------------------------------------- nakagami


def nak_g(m, nu):
    return m.exp(m.loggamma(nu + h(m)) - m.loggamma(nu))


D('nakagami', [('nu', P()), ('loc', LOC()), ('scale', SC())], ls=True, support=lambda m, nu, l, s: (l, m.inf),
  lo_in=False,
  logpdf=lambda m, x, nu, l, s: (m.log(2/s) + nu*m.log(nu) - m.loggamma(nu) + (2*nu - 1)*m.log((x - l)/s)
                                 - nu*((x - l)/s)**2),
  cdf=lambda m, x, nu, l, s: P_gamma(m, nu, nu*((x - l)/s)**2),
  mean=lambda m, nu, l, s: l + s*nak_g(m, nu)/m.sqrt(nu),
  var=lambda m, nu, l, s: s**2*(1 - nak_g(m, nu)**2/nu),
  mode=lambda m, nu, l, s: (l + s*m.sqrt((2*nu - 1)/(2*nu)) if 2*nu >= 1 else l),
  entropy=lambda m, nu, l, s: (h(m) - nu)*m.digamma(nu) - m.log(nu)/2 + nu + m.loggamma(nu)
      - m.log(m.mpf(2)) + m.log(s))

# ------------------------------------------------------------ ncf, nct, ncx2


def ncf_mean(m, a, b, c):
    return b*(a + c)/(a*(b - 2)) if b > 2 else 'nf'


def ncf_var(m, a, b, c):
    if b <= 4:
        return 'nf'
    return 2*((a + c)**2 + (a + 2*c)*(b - 2))/((b - 2)**2*(b - 4))*(b/a)**2


def ncf_pdf(m, x, a, b, c):
    """Poisson mixture of scaled F densities"""
    def t(j):
        j = m.mpf(j)
        return m.exp(-c/2 + j*m.log(c/2) - m.loggamma(j + 1) - lbeta(m, b/2, a/2 + j)
                     + (a/2 + j)*m.log(a/b) + (a + b)/2*m.log(b/(b + a*x)) + j*m.log(b/(b + a*x))
                     + (a/2 - 1 + j)*m.log(x))
    return m.nsum(t, [0, m.inf])


D('ncf', [('dfn', P()), ('dfd', P(pool=(1, 2, 4, 5, 6))), ('nc', P())], support=lambda m, *p: (m.mpf(0), m.inf),
  lo_in=False, mean=ncf_mean, var=ncf_var, pdf=ncf_pdf, slow=('pdf', 'cdf'))


def nct_mom(m, n, df, nc):
    if df <= n:
        return 'nf'
    # E[(Z+nc)^n] for standard normal Z
    if isinstance(n, int):
        e = 0
        for j in range(n//2 + 1):           # C(n, 2j) (2j - 1)!! nc**(n - 2j)
            e = e + math.factorial(n)//(2**j*math.factorial(j)*math.factorial(n - 2*j))*nc**(n - 2*j)
    else:
        raise NotImplementedError('symbolic moment order')
    return (df/2)**(m.mpf(n)/2)*m.exp(m.loggamma((df - n)/2) - m.loggamma(df/2))*e


_nct = moments(nct_mom)
D('nct', [('df', P(pool=(1, 2, 3, 4, 5))), ('nc', REAL(pool=(0, 1, -1)))], support=lambda m, *p: (m.ninf, m.inf),
  noncentral_moment=nct_mom, mean=_nct['mean'], var=_nct['var'], slow=('pdf', 'logpdf'))

D('ncx2', [('k', P()), ('lam', P())], support=lambda m, *p: (m.mpf(0), m.inf), lo_in=False,
  mean=lambda m, k, lam: k + lam, var=lambda m, k, lam: 2*(k + 2*lam), slow=('pdf', 'cdf', 'sf'))

# -------------------------------------------------------- negative_binomial


def nb_logpmf(m, k, r, p):
    return (m.loggamma(k + r) - m.loggamma(m.mpf(k) + 1) - m.loggamma(r) + xlogy(m, r, 1 - p)
            + xlogy(m, m.mpf(k), p))


D('negative_binomial', [('r', P()), ('p', Dom(lo=0, hi=1, lo_in=True, pool=('1/2', '1/4')))], 'disc',
  support=lambda m, r, p: (0, None), logpmf=nb_logpmf,
  mean=lambda m, r, p: r*p/(1 - p), var=lambda m, r, p: r*p/(1 - p)**2)

# -------------------------------------------------- negative_hypergeometric


def nh_logpmf(m, k, N, K, r):
    if r == 0:
        return m.mpf(0)
    return lbin(m, k + r - 1, k) + lbin(m, N - r - k, K - k) - lbin(m, N, K)


D('negative_hypergeometric', [('ntotal', INT(0, span=14)), ('ngood', INT(0, lambda e: e.ntotal)),
                              ('untilnbad', INT(0, lambda e: e.ntotal - e.ngood))], 'disc',
  support=lambda m, N, K, r: (0, 0 if r == 0 else K), logpmf=nh_logpmf,
  mean=lambda m, N, K, r: m.mpf(r)*K/(N - K + 1),
  var=lambda m, N, K, r: m.mpf(r)*(N + 1)*K*(N - K - r + 1)/((m.mpf(N) - K + 1)**2*(N - K + 2)))

# ------------------------------------------------------------------- normal
D('normal', [('mu', LOC()), ('sigma', SC())], ls=True, support=lambda m, l, s: (m.ninf, m.inf),
  logpdf=lambda m, x, l, s: -((x - l)/s)**2/2 - m.log(2*m.pi)/2 - m.log(s),
  cdf=lambda m, x, l, s: Phi(m, (x - l)/s), mean=lambda m, l, s: l, mode=lambda m, l, s: l,
  median=lambda m, l, s: l, entropy=lambda m, l, s: (m.log(2*m.pi) + 1)/2 + m.log(s))

# ------------------------------------------------------------------- pareto
D('pareto', [('b', P()), ('loc', LOC()), ('scale', SC())], ls=True, support=lambda m, b, l, s: (l + s, m.inf),
  logpdf=lambda m, x, b, l, s: m.log(b) + b*m.log(s) - (b + 1)*m.log(x - l),
  cdf=lambda m, x, b, l, s: 1 - (s/(x - l))**b,
  mean=lambda m, b, l, s: (l + s*b/(b - 1) if b > 1 else 'nf'),
  var=lambda m, b, l, s: (s**2*b/((b - 1)**2*(b - 2)) if b > 2 else 'nf'),
  entropy=lambda m, b, l, s: 1 + 1/b + m.log(s/b))

# ------------------------------------------------------------------ poisson
D('poisson', [('lam', P())], 'disc', support=lambda m, lam: (0, None),
  logpmf=lambda m, k, lam: k*m.log(lam) - lam - m.loggamma(m.mpf(k) + 1),
  mean=lambda m, lam: lam, var=lambda m, lam: lam, skewness=lambda m, lam: 1/m.sqrt(lam),
  kurtosis=lambda m, lam: 1/lam)

# ------------------------------------------------------------- power_normal
D('power_normal', [('c', P()), ('loc', LOC()), ('scale', SC())], ls=True, support=lambda m, *p: (m.ninf, m.inf),
  logpdf=lambda m, x, c, l, s: (m.log(c/s) - ((x - l)/s)**2/2 - m.log(2*m.pi)/2
                                + (c - 1)*m.log(Phi(m, -(x - l)/s))),
  cdf=lambda m, x, c, l, s: 1 - Phi(m, -(x - l)/s)**c)

# ---------------------------------------------------------- rel_breitwigner


def rbw_k(m, rho):
    g = m.sqrt(rho**2*(rho**2 + 1))
    return 2*m.sqrt(m.mpf(2))*rho**2*m.sqrt(1 + rho**2)/(m.pi*m.sqrt(rho**2 + m.sqrt(rho**2*(1 + rho**2))))


D('rel_breitwigner', [('rho', P()), ('scale', SC())], support=lambda m, r, s: (m.mpf(0), m.inf),
  logpdf=lambda m, x, r, s: m.log(rbw_k(m, r)/(s*((x/s)**2 - r**2)**2 + s*r**2)),
  mean=lambda m, r, s: s*rbw_k(m, r)/(2*r)*(m.pi/2 + m.atan(r)), mode=lambda m, r, s: r*s,
  slow=())

# --------------------------------------------------------------------- rice
D('rice', [('nu', NONNEG(pool=(0, 1, 2), clip=(0, 12))), ('sigma', POS(pool=(1, 2, 3), clip=(1, 8)))], support=lambda m, nu, s: (m.mpf(0), m.inf), lo_in=False,
  logpdf=lambda m, x, nu, s: (m.log(x/s**2) - (x**2 + nu**2)/(2*s**2) + m.log(m.besseli(0, x*nu/s**2))),
  mean=lambda m, nu, s: s*m.sqrt(m.pi/2)*m.hyp1f1(-h(m), 1, -nu**2/(2*s**2)),
  var=lambda m, nu, s: 2*s**2 + nu**2 - m.pi*s**2/2*m.hyp1f1(-h(m), 1, -nu**2/(2*s**2))**2,
  noncentral_moment=lambda m, n, nu, s: (s**n*m.mpf(2)**(m.mpf(n)/2)*m.gamma(1 + m.mpf(n)/2)
                                         * m.hyp1f1(-m.mpf(n)/2, 1, -nu**2/(2*s**2))),
  slow=('cdf', 'sf'))

# -------------------------------------------------------------------- slash


def slash_logpdf(m, x):
    if x == 0:
        return -m.log(2*m.sqrt(2*m.pi))
    return m.log((1 - m.exp(-x**2/2))/(m.sqrt(2*m.pi)*x**2))


def slash_cdf(m, x):
    if x == 0:
        return h(m)
    return Phi(m, x) - (phi(m, m.mpf(0)) - phi(m, x))/x


D('slash', [], support=lambda m: (m.ninf, m.inf), logpdf=slash_logpdf, cdf=slash_cdf,
  mode=lambda m: m.mpf(0))

# ----------------------------------------------------------------- studentt


def st_cdf(m, x, df):
    t = I_beta(m, df/(df + x**2), df/2, h(m))/2
    return t if x <= 0 else 1 - t


D('studentt', [('df', P())], support=lambda m, df: (m.ninf, m.inf),
  logpdf=lambda m, x, df: (m.loggamma((df + 1)/2) - m.log(df*m.pi)/2 - m.loggamma(df/2)
                           - (df + 1)/2*m.log(1 + x**2/df)),
  cdf=st_cdf, mode=lambda m, df: m.mpf(0),
  entropy=lambda m, df: ((df + 1)/2*(m.digamma((df + 1)/2) - m.digamma(df/2)) + m.log(df)/2
                         + lbeta(m, df/2, h(m))))

# ------------------------------------------------------- trunc_discrete_exp


def tde_logpmf(m, k, lam, n):
    if lam == 0:
        return -m.log(m.mpf(n))
    return m.log((1 - m.exp(-lam))/(1 - m.exp(-lam*n))) - lam*k


def tde_mean(m, lam, n):
    if lam == 0:
        return (m.mpf(n) - 1)/2
    return m.exp(-lam)/(1 - m.exp(-lam)) - n*m.exp(-lam*n)/(1 - m.exp(-lam*n))


def tde_var(m, lam, n):
    if lam == 0:
        return (m.mpf(n)**2 - 1)/12
    return m.exp(-lam)/(1 - m.exp(-lam))**2 - m.mpf(n)**2*m.exp(-lam*n)/(1 - m.exp(-lam*n))**2


D('trunc_discrete_exp', [('lam', NONNEG(pool=(0, 1, '1/2'))), ('n', INT(1))], 'disc',
  support=lambda m, lam, n: (0, n - 1), logpmf=tde_logpmf, mean=tde_mean, var=tde_var,
  mode=lambda m, lam, n: 0,
  entropy=lambda m, lam, n: -tde_logpmf(m, 0, lam, n) + lam*tde_mean(m, lam, n))

# ---------------------------------------------------------------- truncnorm


def tn_nc(m, n, a, b):
    d = Phi(m, b) - Phi(m, a)
    M = [m.mpf(1), (phi(m, a) - phi(m, b))/d]
    for k in range(2, n + 1):
        M.append((k - 1)*M[k - 2] + (a**(k - 1)*phi(m, a) - b**(k - 1)*phi(m, b))/d)
    return M[n]


_tn = moments(tn_nc)
D('truncnorm', [('a', REAL(pool=(0, -1, 1), clip=(-6, 6))), ('b', GT(lambda e: e.a, clip=(-7, 7)))], support=lambda m, a, b: (a, b),
  logpdf=lambda m, x, a, b: -x**2/2 - m.log(2*m.pi)/2 - m.log(Phi(m, b) - Phi(m, a)),
  cdf=lambda m, x, a, b: (Phi(m, x) - Phi(m, a))/(Phi(m, b) - Phi(m, a)),
  mode=lambda m, a, b: (a if a >= 0 else (b if b <= 0 else m.mpf(0))),
  entropy=lambda m, a, b: ((m.log(2*m.pi) + 1)/2 + m.log(Phi(m, b) - Phi(m, a))
                           + (a*phi(m, a) - b*phi(m, b))/(2*(Phi(m, b) - Phi(m, a)))), **_tn)

# -------------------------------------------------------------- tukeylambda


def tl_var(m, lam, l, s):
    if 2*lam <= -1:
        return 'nf'
    if lam == 0:
        return s**2*m.pi**2/3
    return s**2*2/lam**2*(1/(1 + 2*lam) - m.gamma(lam + 1)**2/m.gamma(2*lam + 2))


def tl_support(m, lam, l, s):
    if lam <= 0:
        return m.ninf, m.inf
    return l - s/lam, l + s/lam


def tl_quantile(m, p, lam, l, s):
    if lam == 0:
        return l + s*(m.log(p) - m.log(1 - p))
    return l + s*(p**lam - (1 - p)**lam)/lam


def tl_std_nc(m, n, lam):
    if n == 0:
        return m.mpf(1)
    if n*lam <= -1:
        return 'nf'
    if n % 2:
        return m.mpf(0)
    if lam == 0:
        return 2*math.factorial(n)*(1 - m.mpf(2)**(1 - n))*m.zeta(n)
    # E (U**lam - (1 - U)**lam)**n/lam**n
    s, binom = m.mpf(0), 1
    for k in range(n + 1):
        s = s + (-1)**k*binom*m.gamma(lam*k + 1)*m.gamma(lam*(n - k) + 1)/m.gamma(lam*n + 2)
        binom = binom*(n - k)//(k + 1)
    return s/lam**n


D('tukeylambda', [('lam', REAL(pool=(0, 1, 2, '1/2', '-1/2', '-1/4', -1))), ('loc', LOC()), ('scale', SC())], ls=True,
  support=tl_support, mean=lambda m, lam, l, s: (l if lam > -1 else 'nf'), var=tl_var, quantile=tl_quantile,
  noncentral_moment=loc_moments(tl_std_nc))

# ------------------------------------------------------------------ uniform


def un_nc(m, n, a, b):
    return (b**(n + 1) - a**(n + 1))/((n + 1)*(b - a))


D('uniform', [('a', LOC()), ('b', GT(lambda e: e.a))], support=lambda m, a, b: (a, b),
  logpdf=lambda m, x, a, b: -m.log(b - a), cdf=lambda m, x, a, b: (x - a)/(b - a), noncentral_moment=un_nc,
  mean=lambda m, a, b: (a + b)/2, var=lambda m, a, b: (b - a)**2/12, median=lambda m, a, b: (a + b)/2,
  entropy=lambda m, a, b: m.log(b - a))

# ----------------------------------------------------------------- vonmises


def vm_r(m, k):
    return m.besseli(1, k)/m.besseli(0, k)


D('vonmises', [('kappa', P()), ('mu', LOC())], support=lambda m, k, mu: (mu - m.pi, mu + m.pi),
  logpdf=lambda m, x, k, mu: k*m.cos(x - mu) - m.log(2*m.pi*m.besseli(0, k)),
  circmean=lambda m, k, mu: mu, circvar=lambda m, k, mu: 1 - vm_r(m, k),
  entropy=lambda m, k, mu: m.log(2*m.pi*m.besseli(0, k)) - k*vm_r(m, k))

# ------------------------------------------------------------------ weibull


def wb_nc(sign):
    def std(m, n, k):
        return sign**n*m.gamma(1 + n/k)
    return loc_moments(std)


def wb_sk(m, k):
    g1, g2, g3 = (m.gamma(1 + i/k) for i in (1, 2, 3))
    return (g3 - 3*g1*g2 + 2*g1**3)/(g2 - g1**2)**(m.mpf(3)/2)


def wb_ku(m, k):
    g1, g2, g3, g4 = (m.gamma(1 + i/k) for i in (1, 2, 3, 4))
    return (g4 - 4*g1*g3 + 6*g1**2*g2 - 3*g1**4)/(g2 - g1**2)**2 - 3


for _n, _s in (('weibull_min', 1), ('weibull_max', -1)):
    D(_n, [('k', P()), ('loc', LOC()), ('scale', SC())], ls=True,
      support=(lambda m, k, l, s: (l, m.inf)) if _s > 0 else (lambda m, k, l, s: (m.ninf, l)),
      logpdf=lambda m, x, k, l, s, S=_s: (m.log(k/s) + xlogy(m, k - 1, S*(x - l)/s) - (S*(x - l)/s)**k),
      cdf=(lambda m, x, k, l, s: 1 - m.exp(-((x - l)/s)**k)) if _s > 0 else
          (lambda m, x, k, l, s: m.exp(-(-(x - l)/s)**k)),
      mean=lambda m, k, l, s, S=_s: l + S*s*m.gamma(1 + 1/k),
      var=lambda m, k, l, s: s**2*(m.gamma(1 + 2/k) - m.gamma(1 + 1/k)**2),
      skewness=lambda m, k, l, s, S=_s: S*wb_sk(m, k), kurtosis=lambda m, k, l, s: wb_ku(m, k),
      mode=lambda m, k, l, s, S=_s: (l + S*s*((k - 1)/k)**(1/k) if k > 1 else l),
      entropy=lambda m, k, l, s: m.euler*(1 - 1/k) + m.log(s/k) + 1,
      noncentral_moment=wb_nc(_s))
