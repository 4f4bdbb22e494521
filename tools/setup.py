#!/usr/bin/env python3
"""Nothing to prepare: every check builds what it needs from /repo in a scratch directory."""
import shutil, sys
for t in ("gcc", "make", "go", "python3"):
    if not shutil.which(t): sys.exit("missing " + t)
print("ok")
