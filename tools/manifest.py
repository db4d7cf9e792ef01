"""Regenerates MANIFEST.json from checks.py: python3 tools/manifest.py"""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
import checks
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NA = getattr(checks, 'NOT_APPLICABLE', {})
out = dict(version=1, setup_cmd='./setup.sh', checks=[], not_applicable=[],
           notes='All checks: symbolic execution of the LLVM IR of /repo with '
           'SMT; see DESIGN.md. known_findings.txt lists recorded defects.')
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        out['checks'].append(dict(
            property=i, quick_cmd='./check.py %s --tier quick' % i,
            thorough_cmd='./check.py %s --tier thorough' % i,
            technique='symbolic execution of the compiled C++ (LLVM IR) with '
            'SMT (z3, cvc5) and native counterexample replay',
            level='other',
            level_note='Holds for all values of the symbolic inputs within '
            'the stated bounds (%s). Trusts: doubles as exact reals, models '
            'of libm and the C++ runtime in engine/stubs.py, the IR executor '
            'and the solvers.' % c.get('bounds', 'see evidence')))
    else:
        out['not_applicable'].append(dict(
            property=i, reason=NA.get(i, 'check not built yet')))
json.dump(out, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(out['checks']), 'checks', len(out['not_applicable']), 'n/a')
