#!/usr/bin/env python3
"""Checks that the specification parses and the harness builds."""
import glob, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *

run = Run("setup")
try:
    for f in sorted(glob.glob(os.path.join(SPEC, "*.tla"))):
        r = sh(["java", "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tla2sany.SANY", f], cwd=SPEC)
        if r.returncode or "*** Errors" in r.stdout or "Fatal" in r.stdout:
            print(r.stdout)
            sys.exit(1)
    run.build_driver()
    print("ready")
finally:
    run.close()
