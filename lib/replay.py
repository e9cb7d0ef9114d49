#!/usr/bin/env python3
"""replay.py FILE: runs the one case a VIOLATION line points to."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B  # noqa: E402
from run import env_for  # noqa: E402

v = json.load(open(sys.argv[1]))
exes, _ = B.build([(v["harness"], v["flavor"])])
exe = exes[(v["harness"], v["flavor"])]
cmd = [exe, "--seed", str(v["seed"])]
if v["family"]:
    cmd += ["--family", v["family"], "--index", str(v["index"])]
if v.get("valgrind"):
    cmd = ["valgrind", "-q", "--error-exitcode=95", *cmd]
os.execvpe(cmd[0], cmd, env_for(v["flavor"]))
