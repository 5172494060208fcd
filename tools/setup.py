#!/usr/bin/env python3
"""setup_cmd: makes sure the tools the checks need are there."""
import os, shutil, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missing = [t for t in ("g++", "clang++", "python3", "cargo") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: " + ", ".join(missing))
os.makedirs(os.path.join(root, "build"), exist_ok=True)
print("ok")
