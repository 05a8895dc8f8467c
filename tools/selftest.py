#!/usr/bin/env python3
"""setup: the toolchain is there, the specification parses, the Python parts compile"""
import glob
import os
import py_compile
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import sqlrun

with tempfile.TemporaryDirectory() as d:
    for f in glob.glob(os.path.join(HERE, "*.py")):
        py_compile.compile(f, cfile=os.path.join(d, "x.pyc"), doraise=True)
    for f in sorted(glob.glob(os.path.join(ROOT, "spec", "*.tla"))):
        p = subprocess.run(["java", "-cp", sqlrun.JAR, "tla2sany.SANY", f], capture_output=True, text=True, cwd=os.path.join(ROOT, "spec"))
        if p.returncode or "*** Errors" in p.stdout:
            print(p.stdout[-2000:])
            sys.exit(1)
for t in ("gcc", "flex", "bison", "java"):
    if subprocess.run(["which", t], capture_output=True).returncode:
        print("missing: " + t)
        sys.exit(1)
print("ready")
