"""
C23: data, counts and options that violate a documented requirement are
rejected with ValueError.
"""
from engine.lab import ob, REAL, POS, INT, SEQ, Dom, OPEN, Skip
from .dists import DISTS
from .families import M, fn, modname, has, clipped
from .data import COUNTS

# requirement on the data, as documented: (low, low itself allowed?, high, high itself allowed?, integers?)
# for nll; None: no bound
NLL = {
    'benini': (lambda e: e.scale, True, None, True, False),
    'benktander1': (1, True, None, True, False),
    'benktander2': (1, True, None, True, False),
    'beta': (0, False, 1, False, False),
    'betabinomial': (0, True, lambda e: e.n, True, True),
    'betaprime': (0, True, None, True, False),
    'binomial': (0, True, lambda e: e.n, True, True),
    'burr12': (0, False, None, True, False),
    'gamma': (0, True, None, True, False),
    'gompertz': (0, True, None, True, False),
    'kumaraswamy': (0, False, 1, False, False),
    'logseries': (1, True, None, True, True),
    'lognormal': (0, False, None, True, False),
    'nakagami': (lambda e: e.loc, False, None, True, False),
    'negative_binomial': (0, True, None, True, True),
    'pareto': (lambda e: e.loc + e.scale, True, None, True, False),
    'poisson': (0, True, None, True, True),
    'weibull_max': (None, True, lambda e: e.loc, False, False),
    'weibull_min': (lambda e: e.loc, False, None, True, False),
}
# for mle: the fixed parameters the call needs
MLE = {
    'benktander1': (), 'beta': (), 'betabinomial': ('n',), 'betaprime': (), 'burr12': (), 'gompertz': (),
    'kumaraswamy': (), 'lognormal': (), 'nakagami': ('loc',), 'negative_binomial': (),
    'weibull_max': ('loc',), 'weibull_min': ('loc',), 'binomial': (), 'poisson': (), 'logseries': (),
}
GRAD = {'nakagami': ('nll_grad',)}


def cases(req):
    lo, lok, hi, hok, ints = req
    out = []
    if lo is not None:
        out.append(('too-small', lambda e, t: t < (lo(e) if callable(lo) else lo)))
        if not lok:
            out.append(('at-low', lambda e, t: t == (lo(e) if callable(lo) else lo)))
    if hi is not None:
        out.append(('too-large', lambda e, t: t > (hi(e) if callable(hi) else hi)))
        if not hok:
            out.append(('at-high', lambda e, t: t == (hi(e) if callable(hi) else hi)))
    return out


def elem(req, bad):
    """sample elements around the bounds"""
    lo, lok, hi, hok, ints = req
    pool = [v for v in (lo, hi) if isinstance(v, int)]
    if ints:
        return INT(-3, 12)
    return REAL(pool=tuple(pool) + (-1, '1/2', 2))


def data(prop):
    if prop != 'C23':
        return
    for name, req in NLL.items():
        d = DISTS[name]
        for f in ('nll',) + GRAD.get(name, ()) + (('mle',) if name in MLE else ()):
            if not has(d, f):
                continue
            if f == 'mle':
                fixed = MLE[name]
            else:
                fixed = tuple(d.pn)
            args = [(n, dm) for n, dm in clipped(d.params) if n in fixed]
            cs = cases(req)
            if f == 'mle' and name in ('binomial', 'poisson', 'logseries'):
                cs = [(l, c) for l, c in cs if l == 'too-small']
            for lab, bad in cs:
                def body(L, a, f=f, fixed=fixed, bad=bad, d=d):
                    L.some(a.x, lambda t: bad(a, t))
                    F = getattr(M(L, d), f)
                    if f == 'mle':
                        L.raises('ValueError', ValueError, lambda: F(a.x, **{n: a[n] for n in fixed}))
                    else:
                        L.raises('ValueError', ValueError, lambda: F(a.x, *[a[n] for n in fixed]))
                ob('C23', f'{name}.{f}.{lab}', args + [('x', SEQ(elem(req, bad)))], body, funcs=[fn(d, f)],
                   mods=[modname(d)], samples=12)
            if req[4] and not (f == 'mle' and name == 'logseries'):
                def body(L, a, f=f, fixed=fixed, d=d):
                    m = L.m
                    L.some(a.x, lambda t: m.floor(t) != t)
                    F = getattr(M(L, d), f)
                    if f == 'mle':
                        L.raises('ValueError', ValueError, lambda: F(a.x, **{n: a[n] for n in fixed}))
                    else:
                        L.raises('ValueError', ValueError, lambda: F(a.x, *[a[n] for n in fixed]))
                ob('C23', f'{name}.{f}.noninteger', args + [('x', SEQ(OPEN(0, 9, pool=(1, 2, 3, '1/2', '5/2'))))], body,
                   funcs=[fn(d, f)], mods=[modname(d)], samples=12)


def counts(prop):
    if prop != 'C23':
        return
    for name in COUNTS:
        d = DISTS[name]
        for f in ('nll', 'mle'):
            fixed = tuple(d.pn) if f == 'nll' else MLE[name]
            args = [(n, dm) for n, dm in clipped(d.params) if n in fixed]
            good = INT(1 if name == 'logseries' else 0, (lambda e: e.n) if 'n' in fixed else None)

            def call(L, a, f=f, fixed=fixed, d=d):
                F = getattr(M(L, d), f)
                if f == 'mle':
                    return lambda: F(a.x, counts=a.c, **{n: a[n] for n in fixed})
                return lambda: F(a.x, *[a[n] for n in fixed], counts=a.c)

            def length(L, a, call=call):
                L.assume(L.len(a.c) != L.len(a.x))
                L.raises('ValueError', ValueError, call(L, a))
            ob('C23', f'{name}.{f}.counts-length', args + [('x', SEQ(good)), ('c', SEQ(INT(0)))], length,
               funcs=[fn(d, f)], mods=[modname(d)], samples=10)

            def negative(L, a, call=call):
                L.some(a.c, lambda t: t < 0)
                L.raises('ValueError', ValueError, call(L, a))
            ob('C23', f'{name}.{f}.counts-negative', args + [('x', SEQ(good)), ('c', SEQ(INT(-3, 5), same_len='x'))],
               negative, funcs=[fn(d, f)], mods=[modname(d)], samples=10)

            def fractional(L, a, call=call):
                m = L.m
                L.some(a.c, lambda t: m.floor(t) != t)
                L.raises('ValueError', ValueError, call(L, a))
            ob('C23', f'{name}.{f}.counts-noninteger',
               args + [('x', SEQ(good)), ('c', SEQ(OPEN(0, 6, pool=(1, 2, '3/2')), same_len='x'))],
               fractional, funcs=[fn(d, f)], mods=[modname(d)], samples=10)


# mle keyword parameters that have to be given along with the tested one
NEEDS = {'betabinomial': ('n',), 'nakagami': ('loc',), 'weibull_min': ('loc',), 'weibull_max': ('loc',)}


def params(prop):
    """C07 for the functions of data"""
    if prop != 'C07':
        return
    from .families import neg_dom, C07_OVER, C07_NOVAL, API
    for name, d in DISTS.items():
        if name in C07_NOVAL:
            continue
        for f in ('nll', 'nll_grad', 'nll_hess', 'nll_invhess', 'mle'):
            if not has(d, f):
                continue
            for pn, dm in d.params:
                if f == 'mle' and pn not in API[name]['mle']:
                    continue
                over = C07_OVER.get((name, pn))
                for lab, ov in (over if over is not None else [(f'{pn}-{l}', {pn: nd}) for l, nd in neg_dom(dm)]):
                    if f == 'mle':
                        keep = {pn} | set(NEEDS.get(name, ()))
                        if any(callable(v) for q in list(ov.values()) + [dm] for v in (q.lo, q.hi)):
                            keep = set(API[name]['mle'])
                    else:
                        keep = set(d.pn)
                    args = [(n, ov.get(n, q)) for n, q in d.params if n in keep]
                    elem = INT(0, 9) if d.kind == 'disc' else OPEN(0, 1)
                    names = [n for n, q in args]

                    def body(L, a, f=f, names=names, d=d):
                        F = getattr(M(L, d), f)
                        if f == 'mle':
                            L.raises('ValueError', ValueError, lambda: F(a.xx, **{n: a[n] for n in names}))
                        else:
                            L.raises('ValueError', ValueError, lambda: F(a.xx, *[a[n] for n in names]))
                    ob('C07', f'{name}.{f}.{lab}', args + [('xx', SEQ(elem, nmin=2))], body, funcs=[fn(d, f)],
                       mods=[modname(d)], samples=4)


def generate(prop):
    params(prop)
    data(prop)
    counts(prop)
