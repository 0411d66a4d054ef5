#!/usr/bin/env python3-vt
"""Setup: the tools the checks need are present and the engine imports."""
import sys, os, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3, cvc5, ir, exec, contracts, verify, props  # noqa
for t in (verify.CLANG, 'g++'): subprocess.run([t, '--version'], check=True, stdout=subprocess.DEVNULL)
print('engine ready; z3', z3.get_version_string(), 'cvc5', cvc5.__version__)
