"""Records a fix: addfix.py PROPERTY COMMIT-SUBJECT-PART WHAT"""
import json, os, subprocess, sys
pid, sub, what = sys.argv[1:4]
log = [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()]
h = [a for a, b in log if sub in b]
assert len(h) == 1, h
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.jsonl")
open(f, "a").write(json.dumps({"property": pid, "status": "fixed", "commit": h[0], "what": f"fixed: property={pid} {h[0]} {what}"}) + "\n")
