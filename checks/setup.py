#!/usr/bin/env python3
"""Nothing has to be prepared: every check builds what it needs from /repo's
working tree in /verif/build.  This only says whether the tools are there."""
import shutil
import sys
missing = [t for t in ("ninja", "g++", "clang++", "ar", "pkg-config") if not shutil.which(t)]
if missing:
    print("missing tools:", " ".join(missing))
    sys.exit(1)
print("tools present")
