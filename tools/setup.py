#!/usr/bin/env python3
"""Checks that the harness compiles here (each check builds what it needs itself)."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from check import goenv
r = subprocess.run(["go", "build", "./mon", "./gen"], cwd=os.path.join(V, "harness"), env=goenv())
sys.exit(r.returncode)
