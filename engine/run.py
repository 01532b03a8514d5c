"""
Runner: decides all obligations of one property.

  proved       every path of the contract, executed on the current source of
               /repo, has all its goals discharged by the verifier
  bounded      not (fully) discharged; the same contract was executed on the
               real code for the stated number of inputs instead
  violated     a concrete input on which the real code breaks the contract,
               confirmed at a second, higher precision
"""
import os
import sys
import json
import time
import ast
import math
import select
import signal
import subprocess
import multiprocessing as mp
import traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MPSCI_REPO', '/repo')
PYREAL = os.environ.get('MPSCI_PY', '/opt/venv/bin/python')


class ConcProc:
    def __init__(self, prop):
        self.prop = prop
        self.p = None

    def start(self):
        env = dict(os.environ, MPSCI_REPO=REPO, PYTHONDONTWRITEBYTECODE='1')
        self.p = subprocess.Popen([PYREAL, os.path.join(VERIF, 'engine', 'conc.py'), self.prop],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, text=True, bufsize=1)

    def stop(self):
        if self.p:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
        self.p = None

    def ask(self, req, limit):
        if self.p is None or self.p.poll() is not None:
            self.start()
            extra = 30
        else:
            extra = 5
        req = dict(req, limit=limit)
        try:
            self.p.stdin.write(json.dumps(req) + '\n')
            self.p.stdin.flush()
        except BrokenPipeError:
            self.stop()
            return dict(status='error', detail='concrete worker died')
        r, _, _ = select.select([self.p.stdout], [], [], limit + extra)
        if not r:
            self.stop()
            return dict(status='timeout')
        line = self.p.stdout.readline()
        if not line:
            self.stop()
            return dict(status='error', detail='concrete worker died')
        return json.loads(line)


def enc(v, sort='r'):
    if isinstance(v, list):
        return [enc(t, sort) for t in v]
    v = Fraction(v)
    if sort == 'i':
        return f'i:{v.numerator}'
    return f'{v.numerator}/{v.denominator}'


def encode(ob, env):
    out = {}
    for n, d in ob.args:
        out[n] = enc(env[n], d.elem.sort if d.sort == 'seq' else d.sort)
    return out


_consts = {}


def module_consts(mods):
    """numeric literals in the modules under contract: extra sample values"""
    out = set()
    for m in mods:
        if m not in _consts:
            s = set()
            try:
                t = ast.parse(open(os.path.join(REPO, 'mpsci', *m.split('.')) + '.py').read())
                for n in ast.walk(t):
                    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and \
                            not isinstance(n.value, bool) and abs(n.value) < 1e4 and n.value == n.value:
                        s.add(Fraction(n.value))
                    if isinstance(n, ast.Constant) and isinstance(n.value, str):
                        try:
                            f = Fraction(n.value)
                            if abs(f) < 10**4:
                                s.add(f)
                        except (ValueError, ZeroDivisionError):
                            pass
            except OSError:
                pass
            _consts[m] = s
        out |= _consts[m]
    return sorted(out)


class Settings:
    def __init__(self, tier):
        th = tier == 'thorough'
        self.tier = tier
        self.sym_budget = 60.0 if th else 14.0
        self.n_proved = 6 if th else 3
        self.n_bounded = 120 if th else 18
        self.n_cheap = 1000 if th else 90       # cheap inputs: more of them within `cheap` seconds
        self.cheap = 10.0 if th else 1.5
        self.conc_budget = 240.0 if th else 14.0
        self.conc_limit = 30.0 if th else 6.0
        self.total = 720.0 if th else 420.0
        self.hang = 180.0 if th else 60.0


def mild(ob, seed, dic):
    from .lab import rng_for, Skip

    def wild(v):
        if isinstance(v, (list, tuple)):
            return sum(wild(t) for t in v)
        if isinstance(v, bool) or not isinstance(v, (int, float, Fraction)):
            return 0
        try:
            return abs(math.log2(abs(v))) if v else 1
        except (OverflowError, ValueError):
            return 1000
    c = []
    for i in range(30):
        try:
            env = ob.sample_args(rng_for(seed, ob.id + '|mild', i), dic)
        except Skip:
            continue
        except Exception:
            return []
        c.append((sum(wild(v) for v in env.values()), i, env))
    c.sort(key=lambda t: t[:2])
    return [t[2] for t in c[:2]]


def decide_ob(ob, st, seed, conc, t_end, first=(), nosym=False):
    from . import symlab
    from .lab import rng_for, Skip
    r = dict(id=ob.id, funcs=ob.funcs, violations=[], evals=0, skips=0, timeouts=0, errors=[])
    left = max(1.0, t_end - time.time())
    inputs = []
    failing = []
    if nosym:
        # the solver did not stop at its own time limit and the worker was ended
        r['sym'] = dict(status='solver-hang', paths=0, goals=0, proved=0, time=0, z3=0)
        r['why'] = ['unsupported: the solver ignored its time limit']
    elif ob.sym:
        sb = ob.budget or st.sym_budget
        try:
            s = symlab.run_symbolic(ob, min(sb, max(2.0, left)))
            failing = s.pop('failing')
            r['sym'] = {k: s[k] for k in ('status', 'paths', 'goals', 'proved', 'time', 'z3', 'solverfail')}
            r['why'] = sorted(set(f'{f.kind}: {f.why}' for f in failing))[:4]
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            r['sym'] = dict(status='engine-error', paths=0, goals=0, proved=0, time=0, z3=0)
            r['errors'].append('engine: ' + traceback.format_exc()[-600:])
    else:
        r['sym'] = dict(status='not-attempted', paths=0, goals=0, proved=0, time=0, z3=0)
    proved = r['sym']['status'] == 'proved'
    if not ob.conc:
        return r
    n = (ob.samples or (st.n_proved if proved else st.n_bounded))
    if ob.samples and st.tier == 'thorough':
        n *= 5
    if proved:
        n = min(n, st.n_proved)
    for kargs in first:
        inputs.append(('known', kargs))
    for f in failing[:12]:
        try:
            for env in symlab.directed_inputs(ob, f, seed, want=4 if len(failing) < 6 else 2,
                                              seconds=1.5):
                inputs.append(('path', env))
        except Exception as e:
            r['errors'].append(f'directed: {type(e).__name__}: {e}')
    dic = module_consts(ob.mods)
    if not proved:
        # two moderate inputs first: quick to evaluate where others may time out
        inputs[len(first):len(first)] = [('mild', env) for env in mild(ob, seed, dic)]
    i = 0
    tries = 0
    t0 = time.time()
    budget = min(st.conc_budget, max(1.5, t_end - time.time()))
    done = 0
    while True:
        if inputs:
            tag, env = inputs.pop(0)
        else:
            if (done >= n and (proved or done >= st.n_cheap or time.time() - t0 > st.cheap)) or tries > 6 * max(n, done) + 20:
                break
            tries += 1
            try:
                env = ob.sample_args(rng_for(seed, ob.id, i), dic)
                i += 1
            except Skip:
                i += 1
                continue
            tag = 'sample'
        if time.time() - t0 > budget:
            r['cut'] = True
            break
        a = env if tag == 'known' else encode(ob, env)
        res = conc.ask(dict(ob=ob.id, args=a, tight=not proved), st.conc_limit)
        s = res['status']
        if s == 'unconfirmed' and not r.get('again'):
            # the confirmation ran out of time: once more, at lower precisions and with more time
            r['again'] = True
            res2 = conc.ask(dict(ob=ob.id, args=a, dps=32), 25.0 if st.tier != 'thorough' else 120.0)
            if res2['status'] in ('ok', 'fail'):
                res, s = res2, res2['status']
        if s == 'ok':
            r['evals'] += 1
            done += tag == 'sample'
            r.setdefault('example', a)
        elif s == 'skip':
            r['skips'] += 1
        elif s == 'timeout' or s == 'unconfirmed':
            r['timeouts'] += 1
            done += 1
            if s == 'unconfirmed':
                r['errors'].append(f'unconfirmed difference {a} {res["detail"]}')
        elif s == 'error':
            r['errors'].append(str(res.get('detail'))[-400:])
            done += 1
        elif s == 'fail':
            r['evals'] += 1
            done += 1
            if not ob.funcs:
                # a lemma over specification functions only: no code of /repo
                # is involved, so a difference (a numerical derivative at a
                # branch point, say) says nothing about the code
                r['errors'].append(f'lemma differs {a} {res["detail"]}'[:400])
                continue
            r['violations'].append(dict(args=a, goals=res['detail'], dps=res.get('dps'), source=tag))
            if len(r['violations']) >= (60 if first else 8):
                break
    r['conc_time'] = time.time() - t0
    return r


def _worker(prop, tier, seed, qin, qout, t_end, first, retry=None):
    from .lab import REG
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    st = Settings(tier)
    conc = ConcProc(prop)
    try:
        while True:
            oid, nosym = (retry, True) if retry else (qin.get(), False)
            retry = None
            if oid is None:
                qout.put(('done', os.getpid()))
                break
            qout.put(('start', os.getpid(), oid))
            try:
                res = decide_ob(REG.obs[oid], st, seed, conc, t_end, first.get(oid, ()), nosym)
            except BaseException:
                res = dict(id=oid, funcs=(), violations=[], evals=0, skips=0, timeouts=0,
                           errors=['worker: ' + traceback.format_exc()[-800:]],
                           sym=dict(status='engine-error', paths=0, goals=0, proved=0, time=0, z3=0))
            qout.put(res)
    finally:
        conc.stop()


def run_obs(prop, ids, tier, seed, jobs=None, first=None):
    from .loader import init
    from .lab import REG
    init()
    st = Settings(tier)
    t_end = time.time() + st.total
    jobs = jobs or min(8, os.cpu_count() or 8, max(1, len(ids)))
    ctx = mp.get_context('fork')
    qin, qout = ctx.Queue(), ctx.Queue()
    ids = sorted(ids, key=lambda i: -(REG.obs[i].samples or 0))
    for i in ids:
        qin.put(i)
    for _ in range(jobs):
        qin.put(None)
    def spawn(retry=None):
        p = ctx.Process(target=_worker, args=(prop, tier, seed, qin, qout, t_end, first or {}, retry))
        p.start()
        ps[p.pid] = p

    ps, busy = {}, {}
    for _ in range(jobs):
        spawn()
    out = {}
    import queue
    while len(out) < len(ids):
        try:
            r = qout.get(timeout=5)
            if isinstance(r, dict):
                out[r['id']] = r
            elif r[0] == 'start':
                busy[r[1]] = (r[2], time.time())
            else:
                busy.pop(r[1], None)
        except queue.Empty:
            if not any(p.is_alive() for p in ps.values()):
                break
            if time.time() > t_end + 180:
                break
            # a worker that died without an answer
            for pid, (oid, t) in list(busy.items()):
                if not ps[pid].is_alive() and oid not in out:
                    del ps[pid], busy[pid]
                    spawn(oid)
        for pid, (oid, t) in list(busy.items()):
            lim = max(REG.obs[oid].budget or 0, st.sym_budget) + st.conc_budget + st.hang
            if oid not in out and time.time() - t > lim and ps[pid].is_alive():
                ps[pid].kill()
                ps[pid].join()
                del ps[pid], busy[pid]
                spawn(oid)
    for p in ps.values():
        p.join(timeout=5)
        if p.is_alive():
            p.terminate()
    return out
