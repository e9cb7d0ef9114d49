#!/usr/bin/env python3
"""plant.py SEED... [--checks C01,C02] : development aid.  Applies a planted bug to a
scratch copy of the repository and reports whether it builds, passes the stable tests,
whether its demonstration tells the trees apart, and whether its property's check
(against the scratch copy) catches it."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant"
R = W + "/repo"

def sh(cmd, cwd=R, env=None, timeout=1800):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, timeout=timeout)

def fresh():
    os.makedirs(W, exist_ok=True)
    if not os.path.exists(R):
        subprocess.check_call(["git", "clone", "-q", "/repo", R])
    sh("git fetch -q origin && git reset -q --hard origin/HEAD && git clean -fdq -e _build")

def stable():
    b = sh(f"CC=gcc CXX=g++ cmake -S /opt/vp/subset -B {R}/_build -G Ninja -DREPO={R} -DCMAKE_BUILD_TYPE=RelWithDebInfo "
           f"-DFETCHCONTENT_FULLY_DISCONNECTED=ON && ninja -C {R}/_build")
    if b.returncode:
        return "build failed " + b.stdout[-800:]
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    names = sorted({s.split("::")[0] for s in base})
    os.makedirs(f"{R}/_build/reports", exist_ok=True)
    sh(f"python3 /opt/vp/run_tests.py {R}/_build/bin {R}/_build/reports/lines.txt " + " ".join(names))
    sh(f"python3 /opt/vp/results.py {W}/out.json lines:{R}/_build/reports/lines.txt")
    got = set(json.load(open(W + "/out.json"))["passed"])
    return "ok" if set(base) <= got else "tests lost: %s" % (set(base) - got)

def demo(d):
    work = W + "/demo"
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree(d, work, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    p = sh(f"bash {work}/demo.sh", timeout=300)
    return p.returncode, p.stdout[-400:]

args = [a for a in sys.argv[1:] if not a.startswith("--")]
checks = next((a.split("=")[1].split(",") for a in sys.argv if a.startswith("--checks=")), None)
for s in args:
    d = os.path.join(V, "seeded", s)
    meta = json.load(open(d + "/meta.json"))
    fresh()
    if "--fast" not in sys.argv:
        print(s, "clean demo:", demo(d), flush=True)
    a = sh(f"git apply --check {d}/patch.diff && git apply {d}/patch.diff")
    if a.returncode:
        print(s, "APPLY FAILED", a.stdout)
        continue
    if "--fast" not in sys.argv:
        print(s, "stable:", stable(), flush=True)
        print(s, "patched demo:", demo(d), flush=True)
    for c in checks or [meta["property"]]:
        p = sh(f"python3 {V}/lib/run.py {c} " + ("thorough" if "--thorough" in sys.argv else "quick"), env={"VH_REPO": R, "VH_BUILD": W + "/build"}, timeout=7200)
        lines = [x for x in p.stdout.splitlines() if x.startswith("VIOLATION")]
        print(s, c, "exit", p.returncode, "CAUGHT" if p.returncode == 1 and lines else "MISSED", flush=True)
        print("\n".join(p.stdout.splitlines()[-4:])[:1500])
