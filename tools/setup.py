#!/usr/bin/env python3
"""Checks that the tools the checks need are present; every check builds from /repo by itself."""
import shutil
import sys

missing = [t for t in ("g++", "clang++", "python3") if not shutil.which(t)]
if missing:
    print("missing: " + ", ".join(missing))
    sys.exit(1)
print("ready")
