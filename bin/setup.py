#!/usr/bin/env python3
"""Builds the driver and parses every module of the specification."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import *
build_driver()
bad = 0
for f in sorted(glob.glob(os.path.join(SPEC, "*.tla"))):
    p = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY", f], cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or "Semantic errors" in p.stdout or "Could not parse" in p.stdout:
        print(p.stdout)
        bad = 1
sys.exit(bad)
