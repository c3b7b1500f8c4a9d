#!/usr/bin/env python3
"""Warms the build cache: builds the simulation binaries once."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simbuild
d = os.path.join(simbuild.VERIF, ".cache")
os.makedirs(d, exist_ok=True)
os.makedirs(os.path.join(simbuild.VERIF, "evidence"), exist_ok=True)
out = tempfile.mkdtemp(prefix="setup-", dir=d)
try:
    print(simbuild.build(out, race=True, cli=True))
finally:
    shutil.rmtree(out, ignore_errors=True)
