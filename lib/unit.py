"""Development aid, not a check: builds the repository's own unit tests against the
whole library (through the logging shim) and runs them.  unit.py [TEST...]"""
import concurrent.futures as cf
import os
import subprocess
import sys

import build as B

UT = ["gradient_checking_cost_function_test_utils"]


def main():
    with B.Lock():
        B.generated_headers()
        ldir = os.path.join(B.BUILD, "rel", "lib")
        os.makedirs(ldir, exist_ok=True)
        objs, n = B.compile_all([(s, "rel", ldir) for s in B.lib_sources()])
    libs = list(objs.values())
    d = os.path.join(B.REPO, "internal", "ceres")
    util = [os.path.join(d, f) for f in os.listdir(d)
            if f.endswith(".cc") and ("test_util" in f or f in ("numeric_diff_test_utils.cc",))]
    tdir = os.path.join(B.BUILD, "unit")
    os.makedirs(tdir, exist_ok=True)
    with B.Lock():
        uo, _ = B.compile_all([(s, "rel", tdir, ("-DCERES_HAS_GTEST",)) for s in util])
    tests = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(d) if f.endswith("_test.cc"))

    def one(t):
        exe = os.path.join(tdir, t)
        r = subprocess.run([B.CXX, *B.COMMON, "-O1", "-DNDEBUG", "-DCERES_HAS_GTEST", os.path.join(d, t + ".cc"), "-o", exe, "-fuse-ld=lld",
                            "-Wl,--start-lib", *uo.values(), *libs, "-Wl,--end-lib", "-lgmock_main", "-lgmock", "-lgtest",
                            *["-l" + a for a in B.ABSL], "-lm"], capture_output=True, text=True)
        if r.returncode:
            return t, "BUILD", r.stderr[:600]
        try:
            r = subprocess.run([exe], capture_output=True, text=True, cwd=tdir, timeout=600)
        except subprocess.TimeoutExpired:
            return t, "TIMEOUT", ""
        os.unlink(exe) if r.returncode == 0 else None
        return t, "ok" if r.returncode == 0 else "FAIL", "" if r.returncode == 0 else r.stdout[-800:] + r.stderr[-300:]

    bad = 0
    with cf.ThreadPoolExecutor(B.JOBS) as ex:
        for t, st, msg in ex.map(one, tests):
            bad += st != "ok"
            print(t, st, msg, flush=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
