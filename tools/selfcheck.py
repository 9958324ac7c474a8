#!/opt/veriftools/pyvenv/bin/python
"""Setup: confirms the tools the checks need are there and that the engine can load the current tree. Builds nothing that is kept."""
import os
import shutil
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/engine', V + '/checks']
for t in ('clang++', 'g++', 'llvm-link', 'c++filt'):
    if not shutil.which(t):
        sys.exit('missing tool ' + t)
import z3
import run
import machine as mc
b = run.Build()
try:
    mc.Program(b.ll)
finally:
    b.clean()
os.makedirs(V + '/evidence', exist_ok=True)
print('ok: z3', z3.get_version_string())
