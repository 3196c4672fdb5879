#!/usr/bin/env python3
"""Nothing is cached between runs; this only verifies that the tools the checks use are present."""
import shutil, sys
miss = [t for t in ("cmake", "ninja", "clang", "clang++", "gcc", "g++", "valgrind") if not shutil.which(t)]
if miss:
    sys.exit("missing tools: " + " ".join(miss))
print("ok")
