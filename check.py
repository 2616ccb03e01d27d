#!/usr/bin/env python3
"""python3 check.py <ID> [--tier quick|thorough] [--seed N] [--only TASK] [--replay FILE] [-v]"""
import os, sys
PY = '/opt/venv/bin/python'
if os.environ.get('PYVC_STARTED') != '1':
    env = dict(os.environ, PYVC_STARTED='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONWARNINGS='ignore')
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)
here = os.path.dirname(os.path.abspath(__file__))
repo = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [repo, here]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')  # z3 only; everything else comes from /opt/venv
from lib.harness import main
sys.exit(main(sys.argv[1:]))
