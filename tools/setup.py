#!/usr/bin/env python3
"""setup_cmd: checks that the tools the framework relies on are there. The
checker itself is built by each check from /repo's current tree."""
import compileall, os, shutil, sys
top = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
for t in ("g++", "python3"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
ok = all(compileall.compile_dir(os.path.join(top, d), quiet=1) for d in ("checks", "lib"))
sys.exit(0 if ok else 1)
