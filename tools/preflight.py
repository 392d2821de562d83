#!/usr/bin/env python3
"""Nothing to build: verifies that the tools the checks rely on are present."""
import os, shutil, sys
missing = [t for t in ("/opt/venv/bin/python", "/opt/veriftools/pyvenv/lib/python3.12/site-packages/hypothesis", "/opt/venv/bin/clang-format") if not os.path.exists(t)]
missing += [t for t in ("gcc", "g++") if not shutil.which(t)]
if missing:
    print("missing:", missing)
    sys.exit(1)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
print("ok")
