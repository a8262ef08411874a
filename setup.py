#!/usr/bin/env python3
"""setup: nothing to build, only check that the installed tools the verifier needs are there"""
import subprocess, sys, py_compile, glob, os
import z3
for t in (['/usr/bin/clang++-18', '--version'], ['/usr/bin/opt', '--version'], ['cvc5', '--version'], ['g++', '--version']):
    subprocess.run(t, check=True, stdout=subprocess.DEVNULL)
h = os.path.dirname(os.path.abspath(__file__))
for f in glob.glob(h + '/vcg/*.py') + glob.glob(h + '/specs/*.py') + [h + '/check.py']:
    compile(open(f).read(), f, 'exec')
print('z3', z3.get_version_string(), 'ok')
