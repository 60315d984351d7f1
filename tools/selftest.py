#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks rely on are present (each check builds its own harness from /repo)."""
import shutil, subprocess, sys, os
bad = [t for t in ("g++", "clang++") if not shutil.which(t)]
if bad:
    print("missing: " + ", ".join(bad)); sys.exit(1)
import spec
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for k, s in spec.SPECS.items():
    if not os.path.exists(os.path.join(here, "harness", s["src"])):
        print("no harness for " + k); sys.exit(1)
print("ok: %d properties" % len(spec.SPECS))
