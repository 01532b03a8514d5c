"""Contracts on the real code.  load(prop) registers the obligations of one
property in engine.lab.REG."""
import json
import os
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(prop):
    if prop in ('C01', 'C20'):
        return
    from . import dists, families, helpers
    families.generate(prop)
    helpers.generate(prop)
    from . import extra, reject
    extra.generate(prop)
    reject.generate(prop)


TRUST = {
    'C01': ['contracts/frames.py: the modular frame analysis; mp.extradps, extraprec, workdps and workprec restore the '
            'precision they changed on every exit; no function of mpmath leaves another precision behind, returned or '
            'raised; mpmath functions do not modify their arguments (other than through the listed mutators)'],
    'C20': ['contracts/frames.py: the modular purity analysis; functools.lru_cache keyed by its arguments; mpmath '
            'functions return new objects and keep only caches keyed by precision'],
}
ASSUMED = {
    'C01': ['callbacks handed in by the caller do not change the precision', 'asynchronous exceptions '
            '(KeyboardInterrupt inside a context manager\'s entry) and concurrent threads are outside the claim'],
    'C20': ['single-threaded use; the module attributes are not reassigned by the user'],
}


def dynamic(prop, tier, python):
    p = subprocess.run([python, os.path.join(VERIF, 'engine', 'dyn.py'), prop, tier], stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=780, text=True)
    if p.returncode:
        raise RuntimeError(p.stderr[-2000:])
    return json.loads(p.stdout)


def static(prop, tier='quick', python='/opt/venv/bin/python'):
    """obligations decided by the whole-source analysis (contracts.frames),
    with the executions of engine/dyn.py as source of failing inputs"""
    if prop not in ('C01', 'C20'):
        return None
    from . import frames
    obs = frames.analyse(prop)
    try:
        dyn = dynamic(prop, tier, python)
        err = None
    except Exception as e:
        dyn, err = dict(functions=0, without_samples=[], results=[]), str(e)[-1500:]
    found = {}
    for r in dyn['results']:
        for b in r['bad']:
            found.setdefault(b['fn'], []).append(b)

    def short(q):
        parts = q.split('.')
        return '.'.join(parts[-2:])

    viol, used = [], set()
    for o in obs:
        if not o['bad']:
            continue
        v = dict(id=o['id'], what='; '.join(o['bad'])[:400], functions=[o['fn'].id] if o['fn'] else [],
                 verifier=o['bad'])
        fn = short(o['fn'].id) if o['fn'] else None
        for q, bs in found.items():
            m, n = q.split('.')
            if fn is not None and (fn == q or (fn.split('.')[-1] == n and m in ('fun', 'stats'))):
                v['input'] = bs[0]
                used.add(q)
        viol.append(v)
    for q, bs in found.items():
        if q not in used:
            viol.insert(0, dict(id=f'{prop}:{q}:execution', what=json.dumps(bs[0])[:400], functions=[q],
                                input=bs[0], more=bs[1:4]))
    viol.sort(key=lambda v: 'input' not in v)
    return dict(obligations=len(obs), discharged=sum(1 for o in obs if not o['bad']),
                functions=sorted({o['fn'].id for o in obs if o['fn'] is not None}), violations=viol[:12],
                trusted=TRUST[prop], assumptions=ASSUMED[prop], executions=sum(r['runs'] for r in dyn['results']),
                report=dict(refuted=[dict(id=o['id'], why=o['bad']) for o in obs if o['bad']][:50],
                            replayed_functions=dyn['functions'],
                            functions_without_completed_execution=[r['fn'] for r in dyn['results']
                                                                   if 'ok' in r and not r['ok']],
                            executions=sum(r['runs'] for r in dyn['results']),
                            injected_exceptions=sum(r.get('faults', 0) for r in dyn['results']),
                            replay_error=err))
