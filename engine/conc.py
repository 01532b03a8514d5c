"""
Concrete side: runs contracts on the real code (real mpmath, real mpsci from
MPSCI_REPO) in a separate process.  Line-JSON protocol on stdin/stdout.
"""
import sys
import os
import json
import time
import signal
import traceback
from fractions import Fraction

REPO = os.environ.get('MPSCI_REPO', '/repo')
sys.path.insert(0, REPO)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

import mpmath                                       # noqa: E402
from mpmath import mp                               # noqa: E402
import importlib                                    # noqa: E402
from engine.lab import REG, Env, Skip               # noqa: E402


class TimeUp(BaseException):
    pass


class GoalFail(Exception):
    pass


NOCONV = ('Could not find root within given tolerance', 'NoConvergence',
          'maximum number of', 'does not converge', 'Failed to converge', 'failed to converge',
          'findroot found invalid', 'could not be factorized', 'matrix is numerically singular')


def is_noconv(e):
    s = f'{type(e).__name__} {e}'
    return any(t in s for t in NOCONV)


class ConcLab:
    symbolic = False

    def __init__(self):
        self.m = mp
        self.goals = []
        self.inf = mp.inf

    def mod(self, name):
        return importlib.import_module('mpsci.' + name)

    def real(self, x):
        return mp.mpf(x)

    def q(self, a, b=1):
        return mp.mpf(a) / b

    def num(self, x):
        return x

    def to_float(self, x):
        return float(x)

    def assume(self, *conds):
        for c in conds:
            if not c:
                raise Skip()

    def eq(self, name, a, b, tol=None):
        self.goals.append((name, 'eq', a, b, tol))

    def ne(self, name, a, b):
        self.goals.append((name, 'ne', a, b, None))

    def le(self, name, a, b):
        self.goals.append((name, 'le', a, b, None))

    def lt(self, name, a, b):
        self.goals.append((name, 'lt', a, b, None))

    def true(self, name, cond):
        self.goals.append((name, 'true', bool(cond), True, None))

    def cond(self, c):
        return bool(c)

    def raises(self, name, exc, thunk):
        try:
            v = thunk()
        except exc as e:
            if type(e) is not exc and is_noconv(e):
                raise Skip()
            self.goals.append((name, 'true', True, True, None))
        except Skip:
            raise
        except Exception as e:
            self.goals.append((name, 'raises', f'{type(e).__name__}: {e}', exc.__name__, None))
        else:
            self.goals.append((name, 'raises', f'returned {show(v)}', exc.__name__, None))

    def deriv(self, f, x, n=1, singular=None):
        return mp.diff(f, x, n)

    def some(self, x, cond):
        self.assume(any(cond(t) for t in x))

    def seq(self, x):
        return list(x)

    def sum(self, it):
        return mp.fsum(list(it))

    def isseq(self, x):
        return False

    def map(self, f, *seqs):
        return [f(*t) for t in zip(*seqs)]

    def tsum(self, f, *seqs):
        return mp.fsum(self.map(f, *seqs))

    def len(self, s):
        return len(s)

    def range(self, *a):
        return range(*(int(t) for t in a))

    def ind(self, cond):
        return self.m.mpf(1) if cond else self.m.mpf(0)

    def not_constant(self, x):
        if len(set(x)) < 2:
            raise Skip()

    def minimum(self, s):
        return min(s)

    def maximum(self, s):
        return max(s)

    def score(self, f, hats, xs, counts=None):
        cs = counts if counts is not None else [1]*len(xs)
        out = []
        for k in range(len(hats)):
            ts = [mp.mpf(c) * mp.diff(lambda t: f(x, *(list(hats[:k]) + [t] + list(hats[k+1:]))), hats[k])
                  for x, c in zip(xs, cs)]
            out.append((mp.fsum(ts), mp.fsum([abs(t) for t in ts]) + 1))
        return out

    def rootdom(self, doms):
        pass

    def zero(self, name, v, scale=None, tol=None):
        if scale is None:
            scale = 1
        self.goals.append((name, 'eq', v + scale, scale, tol or '1e-15'))

    def ufun(self, name, concrete=None, at_ninf=None, at_inf=None):
        return concrete

    def unknown(self, name, concrete=None):
        return concrete()

    def same_type(self, name, a, b):
        self.goals.append((name, 'true', type(a) is type(b), True, None))


def conv(v):
    if isinstance(v, str):
        if v.startswith('i:'):
            return int(v[2:])
        if v == 'inf':
            return mp.inf
        if v == '-inf':
            return -mp.inf
        f = Fraction(v)
        return mp.mpf(f.numerator) / f.denominator
    if isinstance(v, list):
        return [conv(t) for t in v]
    if isinstance(v, dict):
        return {k: conv(t) for k, t in v.items()}
    return v


def show(v, n=30):
    try:
        if isinstance(v, (list, tuple)):
            return '[' + ', '.join(show(t, n) for t in v[:12]) + ']'
        return mp.nstr(v, n) if isinstance(v, (mp.mpf, mp.mpc)) else str(v)[:300]
    except Exception:
        return repr(type(v))


def flat(v):
    if isinstance(v, mpmath.matrix):
        return [v.rows, v.cols] + [v[i, j] for i in range(v.rows) for j in range(v.cols)]
    if isinstance(v, range):
        return list(v)
    if isinstance(v, (list, tuple)):
        r = [len(v)]
        for t in v:
            r += flat(t) if isinstance(t, (list, tuple, range, mpmath.matrix)) else [t]
        return r
    return [v]


def isnum(x):
    return isinstance(x, (int, float, mp.mpf, mp.mpc, Fraction)) or type(x).__name__ in ('mpf', 'mpc', 'constant')


def diff(a, b):
    """(kind, distance, scale): 'ok' exactly equal, 'num' numeric distance, 'bad' different"""
    if a is b:
        return ('ok', 0, 0)
    fa, fb = flat(a), flat(b)
    if len(fa) != len(fb):
        return ('bad', None, None)
    worst = ('ok', 0, 0)
    wr = -1
    for x, y in zip(fa, fb):
        if x is None or y is None or isinstance(x, str) or isinstance(y, str):
            if not (x == y):
                return ('bad', None, None)
            continue
        if not isnum(x) or not isnum(y):
            if x == y:
                continue
            return ('bad', None, None)
        x, y = mp.mpmathify(x), mp.mpmathify(y)
        if mp.isnan(x) or mp.isnan(y):
            if mp.isnan(x) and mp.isnan(y):
                continue
            return ('bad', None, None)
        if mp.isinf(x) or mp.isinf(y):
            if x == y:
                continue
            return ('bad', None, None)
        d = abs(x - y)
        if d == 0:
            continue
        s = max(abs(x), abs(y))
        if d / s > wr:
            wr = d / s
            worst = ('num', d, s)
    return worst


def run_once(ob, args, dps, tight=False):
    """-> (status, detail) status in ok/skip/fail"""
    lab = ConcLab()
    with mp.workdps(dps):
        a = Env({k: conv(v) for k, v in args.items()})
        try:
            ob.body(lab, a)
        except Skip:
            return 'skip', None
        except TimeUp:
            raise
        except RecursionError:
            return 'skip', 'recursion'
        except Exception as e:
            if is_noconv(e):
                return 'skip', 'noconv'
            tb = traceback.extract_tb(e.__traceback__)
            if any('calculus/optimization.py' in f.filename for f in tb):
                return 'skip', 'noconv'         # raised while findroot iterates
            where = [f'{os.path.relpath(f.filename, REPO)}:{f.lineno}' for f in tb if REPO in f.filename]
            if 'mpmath' in tb[-1].filename and not where:
                return 'skip', f'mpmath: {type(e).__name__}: {e}'
            return 'fail', [('exception', 'exc', f'{type(e).__name__}: {e}', ' '.join(where[-2:]), None)]
        bad = []
        n = 0
        for name, kind, l, r, tol in lab.goals:
            n += 1
            if kind == 'eq':
                k, d, s = diff(l, r)
                if k == 'ok':
                    continue
                if k == 'num':
                    t = mp.mpf(tol or ob.tol or '1e-20')
                    if tight:
                        if tol or ob.tol:
                            continue
                        t = mp.mpf(10)**(4 - dps)
                    if d <= t * s:
                        continue
                    if d == s and s < mp.mpf(10)**(10 - dps):
                        # one side is 0, the other below the rounding level of
                        # quantities of order 1: cancellation
                        continue
                    bad.append((name, 'eq', l, r, (d, s)))
                else:
                    bad.append((name, 'eq', l, r, None))
            elif kind == 'ne':
                if l == r:
                    bad.append((name, 'ne', l, r, None))
            elif kind in ('le', 'lt'):
                d = l - r
                if (d > 0 if kind == 'le' else d >= 0):
                    bad.append((name, kind, l, r, (abs(d), max(abs(l), abs(r)))))
            elif kind in ('true', 'raises'):
                if l is not True:
                    bad.append((name, kind, l, r, None))
        if bad:
            return 'fail', bad
        return ('ok', n) if n else ('skip', None)


def persistent(ob, args, dps):
    """a difference below the tolerance that does not change with the precision"""
    was = None
    for d in (dps, int(dps*2.4), int(dps*3.6)):
        st, det = run_once(ob, args, d, True)
        if st != 'fail':
            return None
        now = {b[0]: b for b in det if b[1] == 'eq' and b[4] is not None and b[4][0] < b[4][1]}
        if was is not None:
            now = {k: b for k, b in now.items() if k in was
                   and abs(b[4][0] - was[k][4][0]) <= b[4][0]*mp.mpf('1e-3')}
        if not now:
            return None
        was = now
    return [[b[0], b[1], show(b[2]), show(b[3])] for b in was.values()]


def judge(ob, args, dps=50, tight=False):
    st, det = run_once(ob, args, dps)
    if st == 'ok' and tight:
        try:
            p = persistent(ob, args, dps)
        except TimeUp:
            p = None
        if p:
            return dict(status='fail', detail=p, dps=[dps, int(dps*3.6)])
    if st != 'fail':
        return dict(status=st, detail=det if isinstance(det, (str, int)) else None)
    first = {b[0]: b for b in det}
    desc = [[b[0], b[1], show(b[2]), show(b[3])] for b in det]
    # confirm: the difference must persist at a higher precision
    hi = int(dps * 2.4)
    try:
        st2, det2 = run_once(ob, args, hi)
    except TimeUp:
        return dict(status='unconfirmed', detail=desc)
    if st2 != 'fail':
        return dict(status='ok', detail='rounding')
    conf = []
    for b in det2:
        f = first.get(b[0])
        if f is None:
            continue
        if (b[4] is None) != (f[4] is None) or b[1] != f[1]:
            continue
        if b[4] is not None:
            d1, d2 = f[4][0], b[4][0]
            if d2 < d1 * mp.mpf(10) ** (-min(15, dps // 3)):
                continue
        if b[1] == 'exc' and b[2].split(':')[0] != f[2].split(':')[0]:
            continue
        conf.append([b[0], b[1], show(b[2]), show(b[3])])
    if not conf:
        return dict(status='ok', detail='rounding')
    return dict(status='fail', detail=conf, dps=[dps, hi])


def load_contracts(prop):
    import contracts
    contracts.load(prop)


def _alarm(*a):
    raise TimeUp()


def main():
    import faulthandler
    prop = sys.argv[1]
    load_contracts(prop)
    signal.signal(signal.SIGALRM, _alarm)
    out = sys.stdout
    sys.stdout = sys.stderr
    for line in sys.stdin:
        req = json.loads(line)
        ob = REG.obs[req['ob']]
        lim = req.get('limit', 10)
        dps = req.get('dps', 50)
        t0 = time.time()
        p0 = mp.prec
        try:
            signal.setitimer(signal.ITIMER_REAL, lim)
            try:
                r = judge(ob, req['args'], dps, req.get('tight', False))
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except TimeUp:
            r = dict(status='timeout')
        except BaseException as e:
            r = dict(status='error', detail=f'{type(e).__name__}: {e} ' +
                     ''.join(traceback.format_exc().splitlines(True)[-4:]))
        mp.prec = 53
        r['t'] = time.time() - t0
        out.write(json.dumps(r) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
