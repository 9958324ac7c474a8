#!/opt/veriftools/pyvenv/bin/python
"""replay.py FILE: rebuild the native driver from /repo's current tree and run a recorded counterexample against it."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'engine'))
import run

r = json.load(open(sys.argv[1]))
print('property %s, %s' % (r['property'], r['label']))
print('inputs', json.dumps(r['inputs']))
b = run.Build(py=r['harness'] == 'h_py')
try:
    n = run.Native(os.path.join(b.dir, 'driver'))
    if ' ; ' in r['request']:
        print('fresh    :', ' '.join(n.run(r['request'].split(' ; ')[-1]))[:2000])
    print('native   :', ' '.join(n.run(r['request']))[:2000])
    n.close()
    n = run.Native(b.asan(), asan=True)
    print('sanitizer:', ' '.join(n.run(r['request']))[:2000])
    n.close()
    print('recorded :', r['confirmed'])
finally:
    b.clean()
