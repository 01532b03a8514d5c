"""
Contracts of the multivariate distributions (C18).
"""
import itertools
from engine.lab import ob, REAL, POS, NONNEG, GT, INT, SEQ, Env, Skip

D = 'mpsci.distributions.'
AL = POS(pool=('1', '2', '1/2', '3'), clip=('1/16', 12))
W = POS(pool=('1', '2', '1/2'), clip=('1/64', 9))


def generate(prop):
    if prop == 'C18':
        dirichlet()
        mvt()
        mvhg()


def _with(a, **k):
    e = Env(a)
    e.update(k)
    return e


# ------------------------------------------------------------------ dirichlet

def dirichlet():
    def o(name, args, body, funcs, mods=(), **k):
        ob('C18', 'dirichlet.' + name, args, body, funcs=[D + 'dirichlet.' + f for f in funcs],
           mods=['distributions.dirichlet', 'fun'] + list(mods), **k)

    def di(L):
        return L.mod('distributions.dirichlet')

    def lb(L, al):
        m = L.m
        return L.tsum(lambda t: m.loggamma(t), al) - m.loggamma(L.sum(al))

    def density(L, a):
        m = L.m
        s = L.sum(a.w)
        x = L.map(lambda t: t/s, a.w)
        v = L.tsum(lambda t, c: (c - 1)*m.log(t), x, a.al) - lb(L, a.al)
        L.eq('logpdf', di(L).logpdf(x, a.al), v)
        L.eq('pdf = exp(logpdf)', di(L).pdf(x, a.al), m.exp(v))
    o('density', [('al', SEQ(AL)), ('w', SEQ(W, same_len='al'))], density, ['logpdf', 'pdf'])

    def density0(L, a):
        """a point on the boundary of the simplex"""
        d, m = di(L), L.m
        x = a.p/(a.p + a.q)
        y = a.q/(a.p + a.q)
        v = a.b*m.log(x) + a.c*m.log(y) - m.loggamma(a.b + 1) - m.loggamma(a.c + 1) + m.loggamma(a.b + a.c + 3)
        al1 = [a.b + 1, 1, a.c + 1]
        L.eq('alpha = 1 at 0', d.logpdf([x, 0, y], al1), v - 0*x)
        L.eq('alpha > 1 at 0', d.pdf([x, y, 0], [a.b + 1, a.c + 1, 1 + a.p]), 0)
        L.eq('alpha > 1 at 0, log', d.logpdf([x, y, 0], [a.b + 1, a.c + 1, 1 + a.p]), -L.inf)
        L.eq('alpha < 1 at 0', d.logpdf([x, y, 0], [a.b + 1, a.c + 1, 1/(1 + a.p)]), L.inf)
    o('boundary', [('p', W), ('q', W), ('b', NONNEG()), ('c', NONNEG())], density0, ['logpdf', 'pdf'])

    def beta(L, a):
        d, b = di(L), L.mod('distributions.beta')
        x = a.p/(a.p + a.q)
        y = a.q/(a.p + a.q)
        L.eq('logpdf', d.logpdf([x, y], [a.a, a.b]), b.logpdf(x, a.a, a.b))
        L.eq('pdf', d.pdf([x, y], [a.a, a.b]), b.pdf(x, a.a, a.b))
        mu = d.mean([a.a, a.b])
        L.eq('mean', mu, [b.mean(a.a, a.b), b.mean(a.b, a.a)])
        v = d.cov([a.a, a.b])
        L.eq('variance', v[0, 0], b.var(a.a, a.b))
        L.eq('variance', v[1, 1], b.var(a.b, a.a))
        L.eq('covariance', v[0, 1], -b.var(a.a, a.b))
        L.eq('entropy', d.entropy([a.a, a.b]), b.entropy(a.a, a.b))
    o('beta', [('p', W), ('q', W), ('a', AL), ('b', AL)], beta, ['logpdf', 'pdf', 'mean', 'cov', 'entropy'],
      mods=['distributions.beta'])

    def one(L, a):
        d = di(L)
        L.eq('one category', d.logpdf([1], [a.a]), 0)
        L.eq('mean', d.mean([a.a]), [1])
        L.eq('covariance', d.cov([a.a])[0, 0], 0)
        L.eq('entropy', d.entropy([a.a]), 0)
    o('one', [('a', AL)], one, ['logpdf', 'mean', 'cov', 'entropy'])

    def mean(L, a):
        s = L.sum(a.al)
        mu = di(L).mean(a.al)
        L.eq('mean', mu, L.map(lambda t: t/s, a.al))
        L.eq('sums to 1', L.sum(mu), 1)
    o('mean', [('al', SEQ(AL))], mean, ['mean'])

    for n in (1, 2, 3, 4):
        def cov(L, a, n=n):
            al = [a[f'a{i}'] for i in range(n)]
            s = sum(al[1:], al[0])
            v = di(L).cov(al)
            L.eq('rows', v.rows, n)
            L.eq('cols', v.cols, n)
            for i in range(n):
                for j in range(n):
                    want = al[i]*(s - al[i]) if i == j else -al[i]*al[j]
                    L.eq(f'cov[{i},{j}]', v[i, j], want/(s*s*(s + 1)))
        o(f'cov.{n}', [(f'a{i}', AL) for i in range(n)], cov, ['cov'])

    def covn(L, a):
        s = L.sum(a.al)
        al = L.seq(a.al)
        v = di(L).cov(al)
        n = len(al)
        for i in range(n):
            for j in range(n):
                want = al[i]*(s - al[i]) if i == j else -al[i]*al[j]
                L.eq(f'cov[{i},{j}]', v[i, j], want/(s*s*(s + 1)))
    o('cov', [('al', SEQ(AL, nmax=7))], covn, ['cov'], sym=False)

    def entropy(L, a):
        m = L.m
        s = L.sum(a.al)
        L.eq('entropy', di(L).entropy(a.al), lb(L, a.al) + (s - L.len(a.al))*m.digamma(s) -
             L.tsum(lambda t: (t - 1)*m.digamma(t), a.al))
    o('entropy', [('al', SEQ(AL))], entropy, ['entropy'])

    def reject(L, a):
        d = di(L)
        for f in (d.mean, d.cov, d.entropy, lambda al: d.logpdf([a.p/(a.p + a.q), a.q/(a.p + a.q)], al),
                  lambda al: d.pdf([a.p/(a.p + a.q), a.q/(a.p + a.q)], al)):
            L.raises('alpha = 0', ValueError, lambda: f([a.p, 0]))
            L.raises('alpha < 0', ValueError, lambda: f([-a.p, a.q]))
        for f in (d.logpdf, d.pdf):
            L.raises('x < 0', ValueError, lambda: f([-a.p, 1 + a.p], [a.p, a.q]))
            L.raises('sum != 1', ValueError, lambda: f([a.p, 1], [a.p, a.q]))
            L.raises('sum < 1', ValueError, lambda: f([a.p/(a.p + 1 + a.q), a.q/(1 + a.p + a.q)], [a.p, a.q]))
            L.raises('lengths', ValueError, lambda: f([a.p/(a.p + a.q), a.q/(a.p + a.q)], [a.p, a.q, a.p]))
            L.raises('lengths', ValueError, lambda: f([1], [a.p, a.q]))
    o('reject', [('p', W), ('q', W)], reject, ['logpdf', 'pdf', 'mean', 'cov', 'entropy'])


# -------------------------------------------------------------- multivariate t

def mvt():
    def o(name, args, body, funcs, mods=(), **k):
        ob('C18', 'multivariate_t.' + name, args, body, funcs=[D + 'multivariate_t.' + f for f in funcs],
           mods=['distributions.multivariate_t'] + list(mods), **k)

    def mt(L):
        return L.mod('distributions.multivariate_t')

    NU = POS(pool=('1', '2', '3', '1/2', '9'), clip=('1/16', 40))

    def setup(L, a, n):
        """x = loc + C z with scale = C C^T, C lower triangular with positive diagonal (Cholesky)"""
        c = [[a[f'c{i}{j}'] if j <= i else 0 for j in range(n)] for i in range(n)]
        z = [a[f'z{i}'] for i in range(n)]
        loc = [a[f'm{i}'] for i in range(n)]
        x = [loc[i] + sum(c[i][j]*z[j] for j in range(i + 1)) for i in range(n)]
        sig = L.m.matrix([[sum(c[i][k]*c[j][k] for k in range(min(i, j) + 1)) for j in range(n)] for i in range(n)])
        q = sum(t*t for t in z)
        ld = sum(L.m.log(c[i][i]) for i in range(n))
        return x, loc, sig, q, ld

    for n in (1, 2, 3):
        args = [('nu', NU)]
        for i in range(n):
            args += [(f'm{i}', REAL(clip=(-9, 9))), (f'z{i}', REAL(clip=(-6, 6)))]
            args += [(f'c{i}{j}', REAL(clip=(-6, 6)) if j < i else W) for j in range(i + 1)]

        def density(L, a, n=n):
            m, d = L.m, mt(L)
            x, loc, sig, q, ld = setup(L, a, n)
            h = L.q(n, 2)
            v = (m.loggamma(a.nu/2 + h) - m.loggamma(a.nu/2) - h*m.log(a.nu*m.pi) - ld
                 - (a.nu/2 + h)*m.log(1 + q/a.nu))
            L.eq('logpdf', d.logpdf(x, a.nu, loc, sig), v)
            L.eq('pdf', d.pdf(x, a.nu, loc, sig), m.exp(v))
        o(f'density.{n}', args, density, ['logpdf', 'pdf'])

        def inv(L, a, n=n):
            d = mt(L)
            x, loc, sig, q, ld = setup(L, a, n)
            si = L.m.inverse(sig)
            L.eq('logpdf with scale_inv', d.logpdf(x, a.nu, loc, sig, scale_inv=si), d.logpdf(x, a.nu, loc, sig))
            L.eq('pdf with scale_inv', d.pdf(x, a.nu, loc, sig, scale_inv=si), d.pdf(x, a.nu, loc, sig))
            L.eq('positional', d.pdf(x, a.nu, loc, sig, si), d.pdf(x, a.nu, loc, sig))
        o(f'scale_inv.{n}', args, inv, ['logpdf', 'pdf'])

        def entropy(L, a, n=n):
            m, d = L.m, mt(L)
            x, loc, sig, q, ld = setup(L, a, n)
            h = L.q(n, 2)
            v = (m.loggamma(a.nu/2) - m.loggamma(a.nu/2 + h) + h*m.log(a.nu*m.pi) + ld
                 + (a.nu/2 + h)*(m.digamma(a.nu/2 + h) - m.digamma(a.nu/2)))
            L.eq('entropy', d.entropy(a.nu, loc, sig), v)
        o(f'entropy.{n}', [t for t in args if t[0][0] != 'z'] + [(f'z{i}', POS()) for i in range(n)], entropy, ['entropy'])

    def uni(L, a):
        m, d = L.m, mt(L)
        t = L.mod('distributions.studentt')
        one = m.matrix([[1]])
        L.eq('standard, logpdf', d.logpdf([a.x], a.nu, [0], one), t.logpdf(a.x, a.nu))
        L.eq('standard, pdf', d.pdf([a.x], a.nu, [0], one), t.pdf(a.x, a.nu))
        s2 = m.matrix([[a.s*a.s]])
        L.eq('location and scale', d.logpdf([a.l + a.s*a.x], a.nu, [a.l], s2), t.logpdf(a.x, a.nu) - m.log(a.s))
        L.eq('entropy', d.entropy(a.nu, [0], one), t.entropy(a.nu))
        L.eq('entropy, location and scale', d.entropy(a.nu, [a.l], s2), t.entropy(a.nu) + m.log(a.s))
    o('studentt', [('x', REAL()), ('nu', NU), ('l', REAL()), ('s', POS())], uni, ['logpdf', 'pdf', 'entropy'],
      mods=['distributions.studentt'])

    def sym(L, a):
        m, d = L.m, mt(L)
        sg = m.matrix([[a.p*a.p, a.p*a.q], [a.p*a.q, a.q*a.q + a.r*a.r]])
        tr = m.matrix([[a.q*a.q + a.r*a.r, a.p*a.q], [a.p*a.q, a.p*a.p]])
        L.eq('symmetric about loc', d.logpdf([a.l + a.x, a.k + a.y], a.nu, [a.l, a.k], sg),
             d.logpdf([a.l - a.x, a.k - a.y], a.nu, [a.l, a.k], sg))
        L.eq('order of the coordinates', d.logpdf([a.x, a.y], a.nu, [a.l, a.k], sg),
             d.logpdf([a.y, a.x], a.nu, [a.k, a.l], tr))
        L.eq('entropy does not depend on loc', d.entropy(a.nu, [a.l, a.k], sg), d.entropy(a.nu, [0, 0], sg))
    o('symmetry', [('x', REAL()), ('y', REAL()), ('l', REAL()), ('k', REAL()), ('nu', NU), ('p', W),
                   ('q', REAL(clip=(-6, 6))), ('r', W)], sym, ['logpdf', 'entropy'])

    def dims(L, a):
        """every dimension: diagonal scale"""
        m, d = L.m, mt(L)
        x = L.seq(a.x)
        n = len(x)
        sg = m.matrix(n)
        for i in range(n):
            sg[i, i] = a.s[i]**2
        q = sum((x[i]/a.s[i])**2 for i in range(n))
        h = m.mpf(n)/2
        ld = sum(m.log(t) for t in a.s)
        L.eq('logpdf', d.logpdf(x, a.nu, [0]*n, sg), m.loggamma(a.nu/2 + h) - m.loggamma(a.nu/2)
             - h*m.log(a.nu*m.pi) - ld - (a.nu/2 + h)*m.log(1 + q/a.nu))
        L.eq('entropy', d.entropy(a.nu, [0]*n, sg), m.loggamma(a.nu/2) - m.loggamma(a.nu/2 + h)
             + h*m.log(a.nu*m.pi) + ld + (a.nu/2 + h)*(m.digamma(a.nu/2 + h) - m.digamma(a.nu/2)))
    o('diagonal', [('nu', NU), ('x', SEQ(REAL(clip=(-9, 9)), nmax=6)), ('s', SEQ(W, same_len='x'))], dims,
      ['logpdf', 'entropy'], sym=False)


# -------------------------------------------- multivariate hypergeometric

def mvhg():
    def o(name, args, body, funcs, mods=(), **k):
        ob('C18', 'multivariate_hypergeometric.' + name, args, body,
           funcs=[D + 'multivariate_hypergeometric.' + f for f in funcs],
           mods=['distributions.multivariate_hypergeometric', 'fun'] + list(mods), **k)

    def mh(L):
        return L.mod('distributions.multivariate_hypergeometric')

    def lc(m, n, k):
        return m.loggamma(n + 1) - m.loggamma(k + 1) - m.loggamma(n - k + 1)

    C = INT(0, span=9)

    def inside(L, a):
        """point k, colors k + d"""
        m = L.m
        col = L.map(lambda k, d: k + d, a.k, a.d)
        n = L.sum(a.k)
        v = L.tsum(lambda k, d: m.log(m.factorial(k + d)/(m.factorial(k)*m.factorial(d))), a.k, a.d) - \
            m.log(m.factorial(L.sum(col))/(m.factorial(n)*m.factorial(L.sum(col) - n)))
        L.eq('logpmf', mh(L).logpmf(a.k, col, n), v)
        L.eq('pmf', mh(L).pmf(a.k, col, n), m.exp(v))
    o('pmf', [('k', SEQ(C)), ('d', SEQ(C, same_len='k'))], inside, ['logpmf', 'pmf'])

    def outside(L, a):
        d = mh(L)
        col = [a.k + a.d, a.j + a.e]
        n = a.k + a.j
        for name, pt in (('sum too large', [a.k, a.j + 1]), ('sum too small', [a.k, a.j - a.t]),
                         ('negative', [-a.t, n + a.t]), ('too many of a color', [a.k + a.d + a.t, a.j - a.d - a.t]),
                         ('too many of the last color', [a.k - a.e - a.t, a.j + a.e + a.t])):
            L.eq(name, d.pmf(pt, col, n), 0)
            L.eq(name + ', log', d.logpmf(pt, col, n), -L.inf)
    o('outside', [('k', C), ('d', C), ('j', C), ('e', C), ('t', INT(1, span=5))], outside, ['logpmf', 'pmf'])

    def hyper(L, a):
        d, h = mh(L), L.mod('distributions.hypergeometric')
        g, b = a.k + a.d, a.j + a.e
        n = a.k + a.j
        L.eq('logpmf', d.logpmf([a.k, a.j], [g, b], n), h.logpmf(a.k, g + b, g, n))
        L.eq('pmf', d.pmf([a.k, a.j], [g, b], n), h.pmf(a.k, g + b, g, n))
    o('hypergeometric', [('k', C), ('d', C), ('j', C), ('e', C)], hyper, ['logpmf', 'pmf'],
      mods=['distributions.hypergeometric'])

    def hyperm(L, a):
        d, h = mh(L), L.mod('distributions.hypergeometric')
        g, b, n = a.g, a.b, a.n
        L.assume(g + b >= 2)
        L.assume(n <= g + b)
        mu = d.mean([g, b], n)
        L.eq('mean', mu[0], h.mean(g + b, g, n))
        L.eq('mean, other color', mu[1], h.mean(g + b, b, n))
        v = d.cov([g, b], n)
        L.eq('variance', v[0][0], h.var(g + b, g, n))
        L.eq('variance, other color', v[1][1], h.var(g + b, b, n))
        L.eq('covariance', v[0][1], -h.var(g + b, g, n))
        L.eq('symmetric', v[1][0], v[0][1])
    o('hypergeometric.moments', [('g', C), ('b', C), ('n', INT(0, span=15))], hyperm, ['mean', 'cov'],
      mods=['distributions.hypergeometric'])

    def mean(L, a):
        s = L.sum(a.col)
        L.assume(a.n <= s)
        L.assume(s > 0)
        mu = mh(L).mean(a.col, a.n)
        L.eq('mean', mu, L.map(lambda t: a.n*t/s, a.col))
        L.eq('sums to nsample', L.sum(mu), a.n)
    o('mean', [('col', SEQ(C)), ('n', INT(0, span=15))], mean, ['mean'])

    for n in (1, 2, 3, 4):
        def cov(L, a, n=n):
            col = [a[f'c{i}'] for i in range(n)]
            s = sum(col[1:], col[0])
            L.assume(a.n <= s)
            L.assume(s >= 2)
            v = mh(L).cov(col, a.n)
            L.eq('rows', len(v), n)
            f = a.n*(s - a.n)/(L.real(s - 1)*s*s)
            for i in range(n):
                L.eq('cols', len(v[i]), n)
                for j in range(n):
                    L.eq(f'cov[{i}][{j}]', v[i][j], f*(col[i]*(s - col[i]) if i == j else -col[i]*col[j]))
        o(f'cov.{n}', [(f'c{i}', C) for i in range(n)] + [('n', INT(0, span=15))], cov, ['cov'])

    def edge(L, a):
        d = mh(L)
        L.eq('one marble: mean', d.mean([0, 1, 0], a.n), [0, a.n, 0])
        L.eq('one marble: cov', d.cov([0, 1, 0], a.n), [[0]*3]*3)
        L.eq('no marble: mean', d.mean([0, 0], 0), [0, 0])
        L.eq('no marble: cov', d.cov([0, 0], 0), [[0, 0], [0, 0]])
        L.eq('all taken: mean', d.mean([a.c, a.k], a.c + a.k), [a.c, a.k])
        L.eq('all taken: cov', d.cov([a.c, a.k], a.c + a.k), [[0, 0], [0, 0]])
        L.eq('none taken: mean', d.mean([a.c, a.k], 0), [0, 0])
        L.eq('none taken: cov', d.cov([a.c, a.k], 0), [[0, 0], [0, 0]])
        L.eq('none taken: pmf', d.pmf([0, 0], [a.c, a.k], 0), 1)
        L.eq('all taken: pmf', d.pmf([a.c, a.k], [a.c, a.k], a.c + a.k), 1)
        L.eq('one color: pmf', d.pmf([a.c], [a.c + a.k], a.c), 1)
        L.eq('one color: mean', d.mean([a.c + a.k], a.c), [a.c])
        L.eq('one color: support', list(d.support([a.c + a.k], a.c)), [[a.c]])
    o('edges', [('n', INT(0, 1)), ('c', C), ('k', C)], edge, ['mean', 'cov', 'pmf', 'support'])

    def points(col, n):
        return [list(p) for p in itertools.product(*[range(int(t) + 1) for t in col]) if sum(p) == n]

    def total(e):
        if not isinstance(e['col'], list):
            return None         # (symbolic: stated in the body)
        return sum(int(t[2:]) if isinstance(t, str) else int(t) for t in e['col'])

    class Step:
        """one generic level of the recursion of _support_gen: the recursive call is replaced
        by its contract (it yields every point of the smaller support once; here one generic
        point), and `range` records its bounds and yields one generic element"""

        def __init__(self, L, col, n, k):
            from engine.sx import Unsupported
            mod = mh(L)
            if not hasattr(mod, '_support_gen'):
                raise Unsupported('no _support_gen')
            self.calls, self.ranges = [], []
            gen = mod._support_gen
            u = L.unknown('rest')

            def rec(c, m):
                self.calls.append((c, m))
                return [[u]]

            def rng(*r):
                lo, hi = r if len(r) == 2 else (0, r[0])
                self.ranges.append((lo, hi))
                return [k]
            d = mod.__dict__
            miss = object()
            old = {t: d.get(t, miss) for t in ('_support_gen', 'range')}
            d.update(_support_gen=rec, range=rng)
            try:
                out = list(gen(col, n))
            finally:
                for t, v in old.items():
                    if v is miss:
                        del d[t]
                    else:
                        d[t] = v
            if len(out) != 1 or len(self.calls) != 1 or len(self.ranges) != 1 or len(out[0]) != 2:
                raise Unsupported('not the recursion over the first color')
            self.point = out[0]
            self.rest = u

    def step(L, a):
        if not L.symbolic:
            col = [int(t) for t in L.seq(a.col)]
            got = [list(t) for t in mh(L).support(col, int(a.n))]
            L.true('each point once', sorted(got) == points(col, int(a.n)))
            return
        L.assume(a.n <= L.sum(a.col))
        s = Step(L, a.col, a.n, a.k)
        lo, hi = s.ranges[0]
        tail = a.col[1:]
        if a.want:
            L.assume(a.k <= a.col[0], a.k <= a.n, a.n - a.k <= L.sum(tail))
            L.le('no point missed: lower', lo, a.k)
            L.lt('no point missed: upper', a.k, hi)
        else:
            L.assume(lo <= a.k, a.k < hi)
            L.le('within the color', a.k, a.col[0])
            L.le('within the sample', a.k, a.n)
            L.le('the rest can be drawn', a.n - a.k, L.sum(tail))
        L.eq('first entry', s.point[0], a.k)
        L.eq('other entries', s.point[1], s.rest)
        L.eq('colors of the rest', L.sum(L.map(lambda t, v: (t - v)**2, s.calls[0][0], tail)), 0)
        L.eq('number of colors of the rest', L.len(s.calls[0][0]), L.len(a.col) - 1)
        L.eq('sample of the rest', s.calls[0][1], a.n - a.k)
    for want in (0, 1):
        o(f'support.step.{"complete" if want else "sound"}', [('col', SEQ(INT(0, 4), nmin=2, nmax=4)), ('n', INT(0, total)), ('k', INT(0, 4))],
          lambda L, a, want=want: step(L, _with(a, want=want)), ['support', '_support_gen'])

    def base(L, a):
        L.eq('one color', list(mh(L)._support_gen([a.c + a.d], a.c)), [[a.c]])
    o('support.base', [('c', C), ('d', C)], base, ['_support_gen'])

    def support(L, a):
        col = [int(t) for t in L.seq(a.col)]
        n = int(a.n)
        if n > sum(col):
            raise Skip()
        got = [list(t) for t in mh(L).support(col, n)]
        want = points(col, n)
        L.eq('number of points', len(got), len(want))
        L.true('each point once', sorted(got) == sorted(want))
        L.true('documented order', got == want)
    o('support', [('col', SEQ(INT(0, 4), nmax=4)), ('n', INT(0, total))], support, ['support', '_support_gen'], sym=False,
      samples=60)

    def moments(L, a):
        m, d = L.m, mh(L)
        col = [int(t) for t in L.seq(a.col)]
        n = int(a.n)
        if n > sum(col):
            raise Skip()
        pts = points(col, n)
        p = [d.pmf(t, col, n) for t in pts]
        L.eq('total probability', m.fsum(p), 1)
        mu = d.mean(col, n)
        v = d.cov(col, n)
        for i in range(len(col)):
            L.zero('mean', m.fsum(w*t[i] for w, t in zip(p, pts)) - mu[i])
            for j in range(len(col)):
                L.zero('cov', m.fsum(w*(t[i] - mu[i])*(t[j] - mu[j]) for w, t in zip(p, pts)) - v[i][j])
        L.zero('entropy', d.entropy(col, n) + m.fsum(w*m.log(w) for w in p))
    o('definition', [('col', SEQ(INT(0, 4), nmax=4)), ('n', INT(0, total))], moments,
      ['pmf', 'mean', 'cov', 'entropy'], sym=False, samples=30)

    def reject(L, a):
        d = mh(L)
        for name, f in (('mean', d.mean), ('cov', d.cov), ('entropy', d.entropy), ('support', d.support),
                        ('pmf', lambda c, n: d.pmf([a.c, a.k], c, n)),
                        ('logpmf', lambda c, n: d.logpmf([a.c, a.k], c, n))):
            L.raises(f'{name}: negative color', ValueError, lambda: f([a.c + 1, -1 - a.k], 0))
            L.raises(f'{name}: sample too large', ValueError, lambda: f([a.c, a.k], a.c + a.k + 1 + a.t))
        for f in (d.pmf, d.logpmf):
            L.raises('lengths', ValueError, lambda: f([a.c], [a.c, a.k], a.c))
            L.raises('lengths', ValueError, lambda: f([a.c, a.k, 0], [a.c, a.k], a.c))
    o('reject', [('c', C), ('k', C), ('t', C)], reject, ['mean', 'cov', 'entropy', 'support', 'pmf', 'logpmf'])
