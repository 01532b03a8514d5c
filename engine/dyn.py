"""
Replay of the frame (C01) and purity (C20) contracts on the real code: bounded
executions which give failing inputs/histories for refuted obligations.
Runs under the interpreter of the repository; prints one JSON document.
"""
import sys
import os
import json
import time
import random
import signal
import inspect
import importlib
import pkgutil
from fractions import Fraction
from multiprocessing import Pool

REPO = os.environ.get('MPSCI_REPO', '/repo')
sys.path.insert(0, REPO)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True

import mpmath                                       # noqa: E402
from mpmath import mp                               # noqa: E402
from engine.lab import Env, Skip                    # noqa: E402
from contracts.dists import DISTS                   # noqa: E402
from contracts import families, data                # noqa: E402

PRECS = (53, 61, 117)
FUN = {
    'debye': [((2, ), dict(n=1)), ((1.5, ), dict(n=2, method='nsum'))],
    'digammainv': [((1.25, ), {}), ((-4, ), {}), ((-1.5,), {})],
    'faddeevaw': [((1.5, ), {})],
    'hermite_e': [((3, 0.5), {})],
    'mp_bisect': [((lambda t: t*t - 2, 0, 2), {})],
    'betaincinv': [((2, 3, 0.25), {}), ((2, 3, 0.25), dict(complement=True)), ((2, 3, 0.25), dict(method='bisect'))],
    'roots_legendre': [((5, ), {}), ((3, ), {}), ((2,), {}), ((1,), {}), ((4,), {})],
    'logbeta': [((2, 3.5), {})],
    'multivariate_logbeta': [(([2, 3.5, 1], ), {})],
    'logbinomial': [((7, 3), {})],
    'logsumexp': [(([1, 2.5, -3], ), {}), (([1, 2.5, -3], ), dict(weights=[1, 0.5, 2]))],
    'marcumq': [((1, 0.5, 0.75), {}), ((2, 0, 1.5), {})],
    'cmarcumq': [((1, 0.5, 0.75), {}), ((2, 0, 1.5), {})],
    'inv_powm1': [((0.5, 2), {})],
    'pow1pm1': [((0.5, 2.5), {})],
    'inv_pow1pm1': [((0.5, 2.5), {})],
    'spherical_besselj': [((2, 1.5), {})],
    'spherical_bessely': [((2, 1.5), {})],
    'spherical_besseli': [((2, 1.5), {})],
    'spherical_besselk': [((2, 1.5), {})],
    'wright_bessel': [((0.5, 1, 2), {}), ((0.5, 0.5, 2), {}), ((0.5, 0, 2), {})],
    'xlogy': [((2, 1.5), {})],
    'xlog1py': [((2, 1.5), {})],
}
X = [3.5, 1.25, 2, 7.75, 2]
Y = [2.5, 0.25, 3, 4.75, 4]
W = [1, 2.5, 3, 0.5, 1]
STATS = {
    'anova_oneway': [(([1, 2.5, 4], [2.5, 3, 7.5], [1, 0.5]), {})],
    'mean': [((X, ), {}), ((X, ), dict(weights=W))],
    'var': [((X, ), {}), ((X, ), dict(ddof=1))],
    'std': [((X, ), {}), ((X, ), dict(ddof=1))],
    'variation': [((X, ), {})],
    'gmean': [((X, ), {}), ((X, ), dict(weights=W)), (([0, 1],), {})],
    'hmean': [((X, ), {}), ((X, ), dict(weights=W)), (([0, 1],), {})],
    'pmean': [((X, ), dict(p=2.5)), ((X, ), dict(p=mp.inf)), ((X, ), dict(p=1.5, weights=W))],
    'lehmer_mean': [((X, ), dict(p=2.5)), ((X, ), dict(p=mp.inf)), ((X, ), dict(p=2, weights=W))],
    'unique_counts': [(([3, 1, 2, 3], ), {})],
    'boxcox': [((1.5, 0.25), {}), ((1.5, 0), {})],
    'boxcox1p': [((1.5, 0.25), {}), ((1.5, 0), {})],
    'inv_boxcox': [((1.5, 0.25), {}), ((1.5, 0), {})],
    'inv_boxcox1p': [((1.5, 0.25), {}), ((1.5, 0), {})],
    'boxcox_llf': [((0.5, X), {}), ((0, X), {})],
    'boxcox_mle': [((X, ), {})],
    'yeojohnson': [((1.5, 0.25), {}), ((-1.5, 2), {}), ((-1.5, 0.25), {})],
    'inv_yeojohnson': [((1.5, 0.25), {}), ((-1.5, 2), {}), ((-0.5, 0.25), {})],
    'yeojohnson_llf': [((0.5, X), {})],
    'yeojohnson_mle': [((X, ), {})],
    'fisher_exact': [(([[3, 4], [5, 2]], ), {}), (([[3, 4], [5, 2]], ), dict(alternative='less'))],
    'chisquare': [(([3, 4, 5], [4, 4, 4]), {})],
    'gtest': [(([3, 4, 5], [4, 4, 4]), {})],
    'odds_ratio': [(([[3, 4], [5, 2]], ), {}), (([[3, 4], [5, 2]], ), dict(kind='sample', alternative='less'))],
    'pearsonr': [((X, Y), {}), ((X, Y), dict(alternative='less'))],
    'pearsonr_ci': [((0.5, 9, 0.125), {}), ((0.5, 9, 0.125), dict(alternative='greater'))],
}
MULTI = {
    ('dirichlet', 'logpdf'): [(([0.25, 0.25, 0.5], [1.5, 2, 3]), {})],
    ('dirichlet', 'pdf'): [(([0.25, 0.25, 0.5], [1.5, 2, 3]), {})],
    ('dirichlet', 'mean'): [(([1.5, 2, 3], ), {})],
    ('dirichlet', 'cov'): [(([1.5, 2, 3], ), {})],
    ('dirichlet', 'entropy'): [(([1.5, 2, 3], ), {})],
    ('multivariate_t', 'logpdf'): [(([1, 2], 3.5, [0, 0.5], mp.matrix([[2, 0.5], [0.5, 1]])), {})],
    ('multivariate_t', 'pdf'): [(([1, 2], 3.5, [0, 0.5], mp.matrix([[2, 0.5], [0.5, 1]])), {})],
    ('multivariate_t', 'entropy'): [((3.5, [0, 0.5], mp.matrix([[2, 0.5], [0.5, 1]])), {})],
    ('multivariate_hypergeometric', 'support'): [(([2, 3, 1], 3), {})],
    ('multivariate_hypergeometric', 'logpmf'): [(([1, 1, 1], [2, 3, 1], 3), {})],
    ('multivariate_hypergeometric', 'pmf'): [(([1, 1, 1], [2, 3, 1], 3), {})],
    ('multivariate_hypergeometric', 'mean'): [(([2, 3, 1], 3), {})],
    ('multivariate_hypergeometric', 'cov'): [(([2, 3, 1], 3), {})],
    ('multivariate_hypergeometric', 'entropy'): [(([2, 3, 1], 3), {})],
}
for _f in ('support', 'support_pmf', 'mode', 'mean'):
    MULTI['fishers_noncentral_hypergeometric', _f] = [((2.5, 16, 8, 10), {})]
for _f in ('pmf', 'cdf', 'sf'):
    MULTI['fishers_noncentral_hypergeometric', _f] = [((4, 2.5, 16, 8, 10), {})]
EXTRA = {
    ('gamma', 'nll_hess'): 'x', ('gamma', 'nll_invhess'): 'x', ('gamma', 'nll_grad'): 'x', ('nakagami', 'nll_grad'): 'x',
}


def num(v):
    v = Fraction(v)
    if v.denominator == 1:
        return int(v)
    return float(v) if v.denominator < 2**20 else mp.mpf(v.numerator)/v.denominator


def dist_samples(mod, fname, f, rng):
    d = DISTS.get(mod)
    if d is None:
        return []
    out = []
    for _ in range(2):
        env = Env()
        try:
            for n, dm in families.clipped(d.params):
                env[n] = dm.sample(rng, env)
        except Skip:
            continue
        ps = [num(env[n]) for n in d.pn]
        pos = [p.name for p in inspect.signature(f).parameters.values()]
        first = [n for n in pos if n not in d.pn]
        try:
            if fname in ('nll', 'mle', 'mom', 'nll_grad', 'nll_hess', 'nll_invhess'):
                dm = data.DATA.get(mod) or data.E(lambda e: env.get('mu'), None)
                xs = []
                for _ in range(5):
                    xs.append(num(dm.sample(rng, env)))
                if fname == 'mle':
                    fx = data.MLE.get(mod, ((), (), ''))[1]
                    out.append(((xs,), {n: num(env[n]) for n in fx}))
                    if mod in data.MLE and data.MLE[mod][2] == 'all':
                        kw = {n: num(env[n]) for n in data.MLE[mod][0][:1] + tuple(fx)}
                        out.append(((xs,), kw))
                    if 'counts' in pos:
                        out.append(((xs,), dict(counts=[1, 2, 1, 3, 1], **{n: num(env[n]) for n in fx})))
                elif fname == 'mom':
                    out.append(((xs,), {}))
                else:
                    out.append(((xs, *ps), {}))
                    if 'counts' in pos:
                        out.append(((xs, *ps), dict(counts=[1, 2, 1, 3, 1])))
            elif fname == 'noncentral_moment':
                out.append(((2, *ps), {}))
            elif fname == 'interval_prob':
                x = [num(families.XDom(d).sample(rng, env)) for _ in '12']
                out.append(((min(x), max(x), *ps), {}))
            elif mod == 'pareto' and fname == 'var':
                out.append(((ps[0],), dict(loc=ps[1], scale=ps[2])))
            elif not first:
                out.append((tuple(ps), {}))
            elif first[0] in ('p', 'q') and fname.startswith('inv') or fname.startswith('inv'):
                out.append(((rng.choice((0.25, 0.625)), *ps), {}))
            else:
                out.append(((num(families.XDom(d).sample(rng, env)), *ps), {}))
        except Skip:
            continue
    return out


def public():
    """[(module, name, function, samples)]"""
    out = []
    rng = random.Random(7)
    pk = importlib.import_module('mpsci.distributions')
    for mi in sorted(pkgutil.iter_modules(pk.__path__), key=lambda m: m.name):
        if mi.name.startswith('_') or mi.ispkg:
            continue
        m = importlib.import_module('mpsci.distributions.' + mi.name)
        for n in sorted(getattr(m, '__all__', [])):
            f = getattr(m, n, None)
            if inspect.isfunction(f):
                out.append((mi.name, n, f, MULTI.get((mi.name, n)) or dist_samples(mi.name, n, f, rng)))
    for pkn, tab in (('fun', FUN), ('stats', STATS)):
        m = importlib.import_module('mpsci.' + pkn)
        for n in sorted(dir(m)):
            f = getattr(m, n)
            if inspect.isfunction(f) and not n.startswith('_'):
                out.append((pkn, n, f, tab.get(n, [])))
    return out


class Late(BaseException):
    pass


def alarm(*a):
    raise Late()


def guarded(f, args, kw, limit):
    """('ok', value) | ('exc', e) | ('late', None)"""
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return 'ok', f(*args, **kw)
    except Late:
        return 'late', None
    except Exception as e:
        return 'exc', e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def snap(v):
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple((id(t), snap(t)) for t in v))
    if isinstance(v, dict):
        return ('dict', tuple((k, snap(t)) for k, t in v.items()))
    if isinstance(v, mp.matrix):
        return ('matrix', v.rows, v.cols, tuple(repr(t._mpf_) if hasattr(t, '_mpf_') else repr(t) for t in v))
    if hasattr(v, '_mpf_'):
        return repr(v._mpf_)
    return repr(v)


def snapargs(args, kw):
    return tuple(snap(a) for a in args), tuple((k, snap(v)) for k, v in kw.items())


def fresh(v):
    """a new mutable copy of the argument"""
    if isinstance(v, list):
        return [fresh(t) for t in v]
    if isinstance(v, dict):
        return {k: fresh(t) for k, t in v.items()}
    if isinstance(v, mp.matrix):
        return v.copy()
    return v


def show(v):
    return repr(v)[:200] if not callable(v) else getattr(v, '__name__', 'function')


class Fault(Exception):
    pass


def inside_mpsci(fr):
    """all frames between the driver and this one belong to the package (or to
    mpmath's precision managers)"""
    while fr is not None:
        fn = fr.f_code.co_filename
        if fn.endswith('engine/dyn.py') and fr.f_code.co_name == 'guarded':
            return True
        if '/mpsci/' in fn or fn.endswith('dyn.py'):
            fr = fr.f_back
            continue
        if fr.f_code.co_name == 'g' and 'ctx_mp' in fn:
            fr = fr.f_back
            continue
        return False
    return False


NOWRAP = {'extradps', 'extraprec', 'workdps', 'workprec', 'mpf', 'mpc', 'matrix', 'constant', 'isinf', 'isnan',
          'isfinite', 'autoprec', 'maxcalls', 'memoize', 'default', 'clone'}


class Inject:
    def __init__(self):
        self.count = 0
        self.at = None
        self.names = {}

    def install(self):
        import types
        for n in dir(mp):
            if n.startswith('_') or n in NOWRAP:
                continue
            try:
                f = getattr(mp, n)
            except Exception:
                continue
            if isinstance(f, (types.FunctionType, types.MethodType, types.BuiltinFunctionType)):
                self.names[n] = f
                try:
                    setattr(mp, n, self.wrap(n, f))
                except Exception:
                    pass

    def wrap(self, n, f):
        def w(*a, **k):
            fr = sys._getframe(1)
            if '/mpsci/' in fr.f_code.co_filename and inside_mpsci(fr):
                self.count += 1
                if self.at == self.count:
                    raise Fault(f'mp.{n} raises')
            return f(*a, **k)
        w.__name__ = n
        return w


HOSTILE = ['abc', None, float('nan'), -1, 0, float('inf'), float('-inf'), 10**6]


def work01(job):
    mod, name, i, seconds = job
    f, samples = FUNS[i][2], FUNS[i][3]
    res = dict(fn=f'{mod}.{name}', runs=0, faults=0, ok=0, bad=[])
    t0 = time.time()
    inj = INJ

    def check(args, kw, prec, what, sn):
        if mp.prec != prec:
            res['bad'].append(dict(kind='precision', fn=res['fn'], args=[show(a) for a in args],
                                   kwargs={k: show(v) for k, v in kw.items()}, prec_before=prec, prec_after=mp.prec,
                                   outcome=what))
        if snapargs(args, kw) != sn:
            res['bad'].append(dict(kind='arguments', fn=res['fn'], args_after=[show(a) for a in args],
                                   kwargs_after={k: show(v) for k, v in kw.items()}, before=str(sn)[:300],
                                   outcome=what))
        mp.prec = 53

    def run(args, kw, prec, fault=None, limit=1.5):
        args, kw = [fresh(a) for a in args], fresh(kw)
        sn = snapargs(args, kw)
        inj.count, inj.at = 0, fault
        mp.prec = prec
        k, v = guarded(f, args, kw, limit)
        inj.at = None
        if k == 'late':
            mp.prec = 53
            return k, 0
        res['runs'] += 1
        what = 'returned' if k == 'ok' else f'raised {type(v).__name__}: {v}'[:120]
        check(args, kw, prec, what, sn)
        return k, inj.count

    for args, kw in samples:
        for prec in PRECS:
            t1 = time.time()
            k, n = run(args, kw, prec)
            dt = time.time() - t1
            if k == 'ok':
                res['ok'] += 1
            if k == 'late' or time.time() - t0 > seconds:
                break
        if k == 'late':
            continue
        for at in sorted({1, 2, 3, n//2, n - 1, n} - {0, -1}):
            if dt > 0.4 or at > n:
                continue
            run(args, kw, 61, fault=at)
            res['faults'] += 1
        for p in range(len(args) + len(kw)):
            for h in HOSTILE:
                a2, k2 = list(args), dict(kw)
                if p < len(args):
                    if callable(args[p]):
                        continue
                    if isinstance(args[p], list):
                        q = list(args[p])
                        if q:
                            q[len(q)//2] = h
                        a2[p] = q
                    else:
                        a2[p] = h
                else:
                    k2[list(kw)[p - len(args)]] = h
                if time.time() - t0 > seconds:
                    break
                run(a2, k2, 61, limit=0.5)
    return res


def canon(v):
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [canon(t) for t in v]
    if isinstance(v, range):
        return ['range', str(v)]
    if isinstance(v, mp.matrix):
        return ['matrix', v.rows, v.cols] + [canon(t) for t in v]
    if hasattr(v, '_mpf_'):
        return ['mpf'] + [str(t) for t in v._mpf_]
    if hasattr(v, '_mpc_'):
        return ['mpc'] + [[str(t) for t in q] for q in v._mpc_]
    if hasattr(v, '__dataclass_fields__'):
        return ['dc'] + [canon(getattr(v, k)) for k in v.__dataclass_fields__]
    if inspect.isgenerator(v):
        return ['gen'] + [canon(t) for t in v]
    return repr(v)


def differ(a, b, prec):
    if a == b:
        return False
    if isinstance(a, list) and isinstance(b, list) and a and b and a[0] == b[0] == 'mpf':
        fa, fb = (mp.make_mpf(tuple(int(t) for t in q[1:])) for q in (a, b))
        old = mp.prec
        mp.prec = 4*prec
        try:
            if mp.isnan(fa) and mp.isnan(fb):
                return False
            if mp.isinf(fa) or mp.isinf(fb) or mp.isnan(fa) or mp.isnan(fb):
                return True
            d = abs(fa - fb)
            return bool(d > mp.ldexp(max(abs(fa), abs(fb), mp.mpf(1)*0 + mp.ldexp(1, -prec)), -prec//2))
        finally:
            mp.prec = old
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        if a and a[0] == 'mpc':
            return any(differ(['mpf'] + x, ['mpf'] + y, prec) for x, y in zip(a[1:], b[1:]))
        return any(differ(x, y, prec) for x, y in zip(a, b))
    return True


def outcome(f, args, kw, prec, limit=2.0):
    mp.prec = prec
    try:
        k, v = guarded(f, [fresh(a) for a in args], fresh(kw), limit)
        if k == 'late':
            return None, None
        if k == 'exc':
            return ['exc', type(v).__name__], None
        return canon(v), v
    except Late:
        return None, None
    finally:
        mp.prec = 53


def pristine(f, args, kw, prec):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            c, _ = outcome(f, args, kw, prec)
            os.write(w, json.dumps(c).encode())
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    while True:
        t = os.read(r, 65536)
        if not t:
            break
        buf += t
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return json.loads(buf)
    except ValueError:
        return None


def scramble(v):
    """modify a returned mutable object in place"""
    try:
        if isinstance(v, list):
            for t in v:
                scramble(t)
            if v:
                v[0] = mp.mpf(12345)
            v.append(mp.mpf(777))
            v.reverse()
        elif isinstance(v, tuple):
            for t in v:
                scramble(t)
        elif isinstance(v, dict):
            v['scrambled'] = 1
        elif isinstance(v, mp.matrix):
            v[0, 0] = mp.mpf(12345)
    except Exception:
        pass


def work20(job):
    """one module: every history runs in this process, every reference value in
    a fork of the untouched process"""
    mod, ix, seconds = job
    res = dict(module=mod, runs=0, refs=0, bad=[])
    t0 = time.time()
    rng = random.Random(mod)
    calls = []
    for i in ix:
        _, name, f, samples = FUNS[i]
        var = list(samples[:3])
        if len(samples) > 1 and samples[0][1] == samples[1][1] and len(samples[0][0]) == len(samples[1][0]):
            (a, kw), (b, _) = samples[:2]
            for j in range(len(a)):
                c = list(a)
                c[j] = b[j]
                var.append((tuple(c), kw))
        for a, kw in samples[:1]:
            for j, v in enumerate(a):
                if isinstance(v, list) and v and not isinstance(v[0], list):
                    q = list(v)
                    q[-1] = q[0]
                    var.append((a[:j] + (q,) + a[j + 1:], kw))
                elif isinstance(v, (int, float)) and not isinstance(v, bool):
                    var.append((a[:j] + ((v + 1) if isinstance(v, int) else v*0.5,) + a[j + 1:], kw))
        calls.append((name, f, var))
    refs = {}
    for name, f, var in calls:
        t1 = time.time()
        for k, (a, kw) in enumerate(var):
            for prec in (53, 200):
                if time.time() - t1 > seconds*0.5 or time.time() - t0 > seconds*3:
                    continue
                refs[name, k, prec] = pristine(f, a, kw, prec)
                res['refs'] += 1
    order = [(name, f, k, a, kw) for name, f, var in calls for k, (a, kw) in enumerate(var)]
    hist = []
    for rnd, precs in enumerate(((53, 200), (200, 53), (200,))):
        if rnd:
            rng.shuffle(order)
        for name, f, k, a, kw in order:
            for prec in precs:
                ref = refs.get((name, k, prec))
                if ref is None or time.time() - t0 > seconds*6:
                    continue
                got, v = outcome(f, a, kw, prec)
                if got is None:
                    continue
                res['runs'] += 1
                if differ(ref, got, prec):
                    res['bad'].append(dict(fn=f'{mod}.{name}', args=[show(t) for t in a],
                                           kwargs={q: show(t) for q, t in kw.items()}, prec=prec,
                                           in_fresh_process=str(ref)[:300], after_history=str(got)[:300],
                                           history=[h for h in hist if h['fn'] == name][-6:]))
                scramble(v)
                hist.append(dict(fn=name, args=[show(t) for t in a], prec=prec, returned_object_modified=True))
        if len(res['bad']) > 5:
            break
    # the same list object with other contents
    for name, f, var in calls:
        for k, (a, kw) in enumerate(var[:2]):
            for j, v in enumerate(a):
                if not (isinstance(v, list) and v and isinstance(v[0], (int, float))):
                    continue
                if time.time() - t0 > seconds*7:
                    break
                lst = list(v)
                args = list(a)
                args[j] = lst
                mp.prec = 61
                guarded(f, args, dict(kw), 1)
                lst[-1] = lst[0]
                lst[0], lst[len(lst)//2] = lst[len(lst)//2], lst[0]
                other = list(a)
                other[j] = list(lst)
                ref = pristine(f, other, kw, 61)
                mp.prec = 61
                k2, v2 = guarded(f, args, dict(kw), 1)
                mp.prec = 53
                if ref is None or k2 == 'late':
                    continue
                got = canon(v2) if k2 == 'ok' else ['exc', type(v2).__name__]
                res['runs'] += 1
                if differ(ref, got, 61):
                    res['bad'].append(dict(fn=f'{mod}.{name}', args=[show(t) for t in args],
                                           note='the list was passed before with other contents',
                                           in_fresh_process=str(ref)[:300], after_history=str(got)[:300]))
    mp.prec = 53
    return res


FUNS = []
INJ = Inject()


def init(prop):
    if prop == 'C01':
        INJ.install()


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    seconds = {'quick': 2.0, 'thorough': 20.0}[tier]
    FUNS.extend(public())
    out = dict(functions=len(FUNS), without_samples=[f'{m}.{n}' for m, n, _, s in FUNS if not s], results=[])
    if prop == 'C01':
        jobs = [(m, n, i, seconds) for i, (m, n, _, _) in enumerate(FUNS)]
        fn = work01
    else:
        mods = {}
        for i, (m, n, _, _) in enumerate(FUNS):
            mods.setdefault(m if m not in ('fun', 'stats') else f'{m}.{n}', []).append(i)
        jobs = [(m.split('.')[0], ix, seconds) for m, ix in mods.items()]
        fn = work20
    with Pool(int(os.environ.get('DYN_JOBS', '8')), initializer=init, initargs=(prop,), maxtasksperchild=1
              if prop == 'C20' else 40) as p:
        for r in p.imap_unordered(fn, jobs, chunksize=1):
            out['results'].append(r)
    json.dump(out, sys.stdout)


if __name__ == '__main__':
    main()
