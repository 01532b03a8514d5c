"""python3 tools/trybug.py [ID ...]: run the check of each planted bug on a scratch copy with the bug applied"""
import json, os, shutil, subprocess, sys, tempfile, time
ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
for i in ids:
    d = f'/verif/seeded/{i}'
    prop = json.load(open(d + '/meta.json'))['property']
    tmp = tempfile.mkdtemp(prefix='try_', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo', tmp + '/repo'], check=True)
        subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=tmp + '/repo', check=True)
        t = time.time()
        r = subprocess.run(['python3-vt', 'check.py', prop], cwd='/verif', capture_output=True, text=True,
                           env=dict(os.environ, MPSCI_REPO=tmp + '/repo'))
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        print(i, prop, 'CAUGHT' if r.returncode == 1 and v else f'MISSED rc={r.returncode}', len(v), '%.0fs' % (time.time() - t),
              [l.split('/')[-1] for l in v[:3]], flush=True)
        rf = '/verif/tools/bugresults.json'
        res = json.load(open(rf)) if os.path.exists(rf) else {}
        res[i] = prop + ': ' + ', '.join(l.split('/')[-1].split('.json')[0].split('_', 1)[-1] for l in v[:2]) if v else 'missed'
        json.dump(res, open(rf, 'w'), indent=1, sort_keys=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
