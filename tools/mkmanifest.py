"""regenerates MANIFEST.json from properties.jsonl and the list of claimed checks"""
import json
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
CLAIM = json.load(open('/verif/tools/claimed.json'))
NA = {
 'C21': 'rounding error at a given working precision is not expressible in the contracts used here: the verifier '
        'treats mpmath numbers as exact reals (machine arithmetic as mathematical); needs a floating-point error '
        'analysis, a different technique',
 'C22': 'liveness of mp.findroot/mp.quad/mp.nsum: their convergence is an assumed contract on the dependency, no '
        'variant function is available for iterations inside mpmath',
}
NOTE = ('Each clause is executed symbolically on the current source for all arguments in the stated domain; discharged '
        'clauses hold for exact real arithmetic under the assumed contracts on mpmath (engine/smp.py, engine/rules.py). '
        'Clauses the engine cannot discharge are counted as bounded (concrete executions of the real code at two '
        'precisions), listed in the evidence file, and not counted as proved.')
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIM:
        checks.append(dict(property=i, quick_cmd=f'python3-vt check.py {i}',
                           thorough_cmd=f'python3-vt check.py {i} --tier thorough',
                           technique='contract-based deductive verification: ' + CLAIM[i].get(
                               'technique', 'symbolic execution of the real functions against sidecar contracts, z3 and '
                               'a term normaliser discharge the goals; counterexamples replayed on the real code'),
                           level='proof', level_note=CLAIM[i].get('note', NOTE)))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'not claimed yet: its contracts are not written')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='see DESIGN.md; findings in KNOWN_FINDINGS'), open('/verif/MANIFEST.json', 'w'), indent=1)
