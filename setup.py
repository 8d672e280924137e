#!/usr/bin/env python3
"""Checks that the tools the checks use are there. Nothing is built here: every check rebuilds
what it needs from /repo's current working tree."""
import shutil, sys
missing = [t for t in ("cargo", "verus", "python3") if not shutil.which(t)]
if missing: sys.exit("missing: %s" % missing)
