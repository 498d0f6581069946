#!/usr/bin/env python3
"""Nothing to build: report whether the interpreter and Hypothesis are where the checks expect them."""
import subprocess
import sys

code = ("import sys,glob;[sys.path.append(p) for p in glob.glob('/opt/veriftools/pyvenv/lib/python3*/site-packages')];"
        "import numpy,scipy,sympy,bitarray,h5py,mpi4py,matplotlib,hypothesis;print('hypothesis',hypothesis.__version__)")
sys.exit(subprocess.run(["/opt/venv/bin/python", "-c", code]).returncode)
