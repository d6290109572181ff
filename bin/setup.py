#!/usr/bin/env python3
"""Builds every harness once, so that the checks only rebuild what depends on /repo."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import common as C
rc = 0
for name in sorted(C.REPO_PACKAGES):
    if not os.path.isdir(os.path.join(C.VERIF, "harness", name)):
        continue
    try:
        print(name, C.build(name, 1500))
    except C.ToolError as e:
        print("setup of %s failed: %s" % (name, e))
        rc = 1
try:
    import wasmbuild
    print("analysis", len(wasmbuild.analysis("forward")))
except (C.ToolError, OSError) as e:
    print("the Rust analysis could not be built: %s" % e)
sys.exit(rc)
