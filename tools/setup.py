"""nothing to build: checks that the tools are there and the engine imports"""
import os, sys, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import z3, vc.verifier
print('z3', z3.get_version_string())
for d in ('evidence', 'work', 'replay'): os.makedirs(os.path.join(H, d), exist_ok=True)
assert os.path.exists('/opt/venv/bin/python')
