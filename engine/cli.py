"""
Command line of the checks: decides all obligations of one property, writes
the evidence file and the replay files, prints the verdict.
"""
import argparse
import collections
import fnmatch
import json
import os
import shutil
import subprocess
import sys
import time
from fractions import Fraction

from .run import run_obs, VERIF, REPO, ConcProc, Settings

TRUSTED = [
    'engine/*.py: the verifier (symbolic execution of the real source, term normaliser, rule base); z3 for the '
    'linear and polynomial side conditions',
    'mpmath is replaced by its mathematical meaning (exact real arithmetic; assumed contracts on mp.* functions, '
    'listed in engine/smp.py and engine/rules.py)',
    'numerical root finders and quadratures (mp.findroot, mp.quad, mp.nsum): assumed to return a root/the value when '
    'they return; their failure to converge is outside the claim',
    'contracts/*.py: the specification functions are the documented definitions',
    'CPython semantics of the constructs the loader executes natively (classes, generators, decorators)',
]
ASSUME = [
    'machine arithmetic (mpmath floats) treated as mathematical: rounding is not modelled by the proofs; precision '
    'management is covered by C01/C13 only',
    'obligations reported as bounded were not discharged; for them only the stated number of concrete executions of '
    'the real code was made',
]


def known_lines(prop):
    """entries `known: property=.. ob=.. args={..} when=<expr> :: what`"""
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if not os.path.exists(p):
        return out
    for line in open(p):
        line = line.strip()
        if not line.startswith('known: property=' + prop + ' '):
            continue
        head, what = line.split(' :: ', 1)
        rest = head[len('known: property=' + prop + ' '):]
        assert rest.startswith('ob=')
        ob, rest = rest[3:].split(' args=', 1)
        args, when = rest.split(' when=', 1)
        out.append(dict(ob=ob.strip(), args=json.loads(args), when=when.strip(), what=what.strip()))
    return out


def num(v):
    if isinstance(v, list):
        return [num(t) for t in v]
    return Fraction(v[2:]) if v.startswith('i:') else Fraction(v)


def is_known(k, oid, args):
    if not fnmatch.fnmatch(oid, k['ob']):
        return False
    try:
        return bool(eval(k['when'], {'__builtins__': {}, 'abs': abs, 'len': len},
                         {n: num(v) for n, v in args.items()}))
    except Exception:
        return False


def replay_file(path):
    d = json.load(open(path))
    if 'args' not in d:
        print(json.dumps(d, indent=1))
        return 1
    c = ConcProc(d['property'])
    r = c.ask(dict(ob=d['obligation'], args=d['args']), 120)
    c.stop()
    print(json.dumps(r, indent=1))
    return 1 if r['status'] == 'fail' else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=('quick', 'thorough'))
    ap.add_argument('--only', default=None, help='obligations whose id contains this (no evidence is written)')
    ap.add_argument('--func', default=None, help='obligations on a function whose name contains this (no evidence is written)')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--jobs', type=int, default=None)
    ap.add_argument('--replay', default=None)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay_file(a.replay)
    t0 = time.time()
    import contracts
    from .lab import REG
    contracts.load(a.prop)
    ids = [i for i in REG.obs if i.startswith(a.prop + ':') and (not a.only or a.only in i)]
    if a.func:
        a.only = a.only or a.func
        ids = [i for i in ids if any(a.func in f for f in REG.obs[i].funcs)]
        if not ids:
            return 0
    known = known_lines(a.prop)
    stat = contracts.static(a.prop, a.tier) if not a.only or a.only == 'static' else None
    if not ids and stat is None:
        print(f'{a.prop}: no obligations', file=sys.stderr)
        return 2
    res = run_obs(a.prop, ids, a.tier, a.seed, a.jobs, {i: [k['args'] for k in known if k['ob'] == i] for i in ids}) \
        if ids else {}
    cnt = collections.Counter()
    viol, kf = [], {}
    proved, bounded, none, funcs = [], [], [], set()
    tot = collections.Counter()
    samples = []
    errors = []
    for i in ids:
        r = res.get(i)
        if r is None:
            cnt['missing'] += 1
            none.append(i)
            continue
        funcs.update(r['funcs'])
        st = r['sym']['status']
        for k in ('paths', 'goals', 'proved'):
            tot['sym_' + k] += r['sym'].get(k, 0)
        tot['evals'] += r['evals']
        tot['timeouts'] += r['timeouts']
        tot['skips'] += r['skips']
        tot['ms'] += int(1000 * r['sym'].get('time', 0))
        tot['z3ms'] += int(1000 * r['sym'].get('z3', 0))
        tot['solverfail'] += r['sym'].get('solverfail', 0) or 0
        cnt[st] += 1
        new = []
        for v in r['violations']:
            m = [k for k in known if is_known(k, i, v['args'])]
            if m:
                kf[m[0]['what']] = m[0]
            else:
                new.append(v)
        if new:
            viol.append((i, new, r))
        if st == 'proved' and not r['violations']:
            proved.append(i)
        elif r['evals']:
            bounded.append(dict(id=i, executions=r['evals'], why=(r.get('why') or [st])[:2]))
        else:
            none.append(i)
        if r.get('example') and len(samples) < 4:
            samples.append(dict(obligation=i, args=r['example']))
        errors += [f'{i}: {e[-200:]}' for e in r['errors'][:1]]
        if a.v:
            if st != 'proved':
                print('  --', st, i, r.get('why'), 'evals', r['evals'], 'to', r['timeouts'], 'skips', r['skips'],
                      '%.1fs' % (r['sym']['time'] + r.get('conc_time', 0)))
            elif r['evals'] == 0:
                print('  ** no evals', i)
            if r['errors']:
                print('ERR', i, r['errors'][0][-300:])
    # ------------------------------------------------------------- verdict
    rdir = os.path.join(VERIF, 'replays', a.prop)
    if not a.only:
        shutil.rmtree(rdir, ignore_errors=True)
    lines = []
    for i, vs, r in viol:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, ''.join(ch if ch.isalnum() or ch in '._-' else '_' for ch in i) + '.json')
        v = vs[0]
        json.dump(dict(property=a.prop, obligation=i, functions=list(r['funcs']), args=v['args'],
                       failed_goals=v['goals'], precisions_dps=v.get('dps'), found_by=v.get('source'),
                       verifier=dict(r['sym'], failing_paths=r.get('why')), more=vs[1:4],
                       replay=f'python3-vt check.py {a.prop} --replay {path}'), open(path, 'w'), indent=1)
        print(f'  {i}: {json.dumps(v["goals"])[:300]} at {json.dumps(v["args"])[:300]}')
        lines.append(f'VIOLATION property={a.prop} replay={path}')
    if stat:
        for s in stat['violations']:
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, ''.join(ch if ch.isalnum() or ch in '._-' else '_' for ch in s['id']) + '.json')
            json.dump(dict(property=a.prop, **s), open(path, 'w'), indent=1, default=str)
            print(f'  {s["id"]}: {s["what"]}')
            lines.append(f'VIOLATION property={a.prop} replay={path}' +
                         ('' if s.get('input') else ' no-failing-input-found'))
    for w, k in kf.items():
        print(f'KNOWN-FINDING: property={a.prop} {w}')
    for l in lines:
        print(l)
    tot['evals'] += stat.get('executions', 0) if stat else 0
    nob = len(ids) + (stat['obligations'] if stat else 0)
    ndis = len(proved) + (stat['discharged'] if stat else 0)
    wall = time.time() - t0
    if not a.only:
        cov = dict(
            obligations=nob, discharged=ndis,
            checker_cmd=f'python3-vt check.py {a.prop} --tier {a.tier}',
            trusted_base=(TRUSTED if ids else []) + (stat.get('trusted', []) if stat else []),
            backend=('engine (symbolic execution + normalisation) with z3 %s' % z3v()) if ids else
            'contracts/frames.py (modular dataflow over the source: precision, ownership and purity contracts)',
            functions_under_contract=sorted(funcs | set(stat['functions'] if stat else ())),
            proof_paths=tot['sym_paths'], proof_goals=tot['sym_goals'], proof_goals_discharged=tot['sym_proved'],
            solver_s=round(tot['z3ms'] / 1000, 2), verifier_s=round(tot['ms'] / 1000, 2),
            paths_ending_in_assumed_solver_failure=tot['solverfail'],
            bounded_obligations=[b for b in bounded],
            undecided_without_execution=none,
            concrete_executions=tot['evals'], concrete_timeouts=tot['timeouts'],
            concrete_skipped_outside_precondition=tot['skips'],
            samples=samples, engine_messages=errors[:20])
        if stat:
            cov['static'] = stat.get('report')
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as f:
            json.dump(dict(property=a.prop, tier=a.tier, seed=a.seed, level='proof', coverage=cov,
                           assumptions=(ASSUME if ids else []) + (stat.get('assumptions', []) if stat else []),
                           wall_s=round(wall, 2), violations=len(lines)), f, indent=1)
    print(f'{a.prop}: {nob} obligations, {ndis} discharged, {len(bounded)} bounded, '
          f'{len(none)} without an answer, {tot["evals"]} concrete executions, '
          f'{len(lines)} violations, {wall:.1f} s')
    if lines:
        return 1
    if ids and len(none) > max(3, 0.5 * len(ids)):
        print('too many obligations without an answer: ' + '; '.join(errors[:3]), file=sys.stderr)
        return 2
    return 0


def z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'
