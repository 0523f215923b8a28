#!/usr/bin/env python3
"""Nothing is prebuilt: every check compiles what it needs from /repo. This only verifies the tools."""
import shutil, sys
missing = [t for t in ("g++", "python3") if not shutil.which(t)]
print("missing:", missing) if missing else print("ok")
sys.exit(1 if missing else 0)
