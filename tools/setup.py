#!/usr/bin/env python3
"""setup: nothing to compile; checks that the interpreter, the code under test and the solver load"""
import subprocess, sys
r = subprocess.run(['/opt/venv/bin/python', '-c',
  "import sys; sys.path.insert(0,'/repo'); sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); sys.dont_write_bytecode=True; import numpy, z3; print(z3.get_version_string(), numpy.__version__)"])
sys.exit(r.returncode)
