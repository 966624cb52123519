#!/usr/bin/env python3
"""Checks that the tools every check needs are here; each check builds its own harness from /repo."""
import os, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missing = [t for t in ("g++", "mpicxx", "mpirun") if not shutil.which(t)]
if missing:
    print("missing:", missing)
    sys.exit(1)
os.makedirs(os.path.join(ROOT, "build", "obj"), exist_ok=True)
os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
print("ok")
