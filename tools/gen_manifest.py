#!/opt/veriftools/pyvenv/bin/python
"""Writes MANIFEST.json from checks/props.py (claimed) and NOT_APPLICABLE below."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/engine', V + '/checks']
import props

NA = {}
TODO = 'no check has been built for it yet'
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NOTE = ('Every path of the compiled code (LLVM IR of /repo/src, regenerated on each run) is executed symbolically for the operand shapes listed in '
        'the evidence file, and each assertion is discharged by an SMT solver for all values of those shapes; no claim outside them. '
        'Trusted: clang -O1 and its agreement with the shipped compiler (sampled by native replay), the engine, z3/cvc5, '
        'models of the C++ runtime and libm; operator new never fails. A violation is reported only after native replay. ')
checks = []
for i in ids:
    if i in props.PROPS:
        P = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                           technique='symbolic execution of the compiled LLVM IR, assertions decided by SMT (z3, cvc5)', level='model_checking',
                           level_note=NOTE + 'Bounds (quick): ' + P.bounds['quick']))
m = dict(version=1, setup_cmd='python3-vt tools/selfcheck.py', checks=checks,
         not_applicable=[dict(property=i, reason=NA.get(i, TODO)) for i in ids if i not in props.PROPS],
         notes='No hooks: /repo is checked as it is. See DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in m['not_applicable']])
