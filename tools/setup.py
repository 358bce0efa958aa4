#!/usr/bin/env python3
"""Nothing is built: makes sure that the interpreter can import the library under test and Hypothesis."""
import os, subprocess, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import env as E
os.makedirs(E.EVIDENCE, exist_ok=True)
scratch = tempfile.mkdtemp(prefix='vf-setup-')
try:
    r = subprocess.call([E.PYTHON, '-c', 'from vf import core; core.load_library(); import hypothesis, scipy, matplotlib; '
                                         'print("ready:", hypothesis.__version__)'], env=E.child_env(scratch), cwd=scratch)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
sys.exit(r)
