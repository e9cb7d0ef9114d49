#!/usr/bin/env python3
"""Builds every harness of every registered check once, so that checks start from
warm objects.  Checks rebuild whatever /repo's current tree makes stale."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B  # noqa: E402
from props import PROPS  # noqa: E402

want = sorted({(r.name, r.flavor) for p in PROPS.values() for r in p["runs"]})
exes, n = B.build(want)
print(f"{len(exes)} harnesses, {n} compilations")
