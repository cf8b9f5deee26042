#!/usr/bin/env python3
"""Offline sanity of the toolchain, and a warm build cache. The checks rebuild what they need themselves."""
import os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import check
check.ensure_gomod()
import tempfile
d = tempfile.mkdtemp(prefix="verif-setup-")
try:
    for pkg in ("core", "hd", "cmdt"):
        for v in ("plain", "race"):
            check.build(dict(pkg=pkg), v, d)
finally:
    shutil.rmtree(d, ignore_errors=True)
print("setup ok")
