#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough] : builds what the property's harnesses need from
/repo's working tree, runs them in shards, and turns what the monitors saw into a
verdict.  Exit 0: held on everything explored.  Exit 1 with VIOLATION lines: broken.
Any other exit: the check itself could not decide (build or harness trouble)."""

import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B  # noqa: E402
from props import PROPS, Run  # noqa: E402

VERIF = B.VERIF
SAN = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=0:"
                    "max_malloc_fill_size=1048576:malloc_fill_byte=255:"
                    "allocator_may_return_null=0:handle_abort=0:symbolize=1:"
                    "detect_odr_violation=0:quarantine_size_mb=32",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
    "LSAN_OPTIONS": "exitcode=96:print_suppressions=0",
    "TSAN_OPTIONS": "halt_on_error=1:abort_on_error=0:exitcode=66:second_deadlock_stack=1:"
                    "history_size=4",
}
MAX_CRASHES = 3  # per shard


def env_for(flavor):
    e = dict(os.environ)
    e.update(SAN)
    e.pop("VH_LOG", None)
    e.pop("VH_VLOG", None)
    return e


def signature(text, rc):
    """A key for an abnormal end: what the sanitizer or the library said."""
    m = re.search(r"VH-FATAL (\S+?):\d+ (.*)", text)
    if m:
        return "check-failed:%s:%s" % (os.path.basename(m[1]), re.sub(r"[-+0-9.e]+", "#", m[2])[:80].strip())
    m = re.search(r"SUMMARY: (\w+): (\S+)(?: (\S+?):\d+)?(?::\d+)?(?: in (.*))?", text)
    if m:
        kind = m[2]
        if m[1] == "UndefinedBehaviorSanitizer":
            k = re.search(r"runtime error: (.*)", text)
            kind = re.sub(r"[-+0-9.e]+|0x[0-9a-f]+", "#", k[1])[:60] if k else kind
        where = ""
        for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) (\S+)", text):
            if "/repo/" in f[1]:
                where = os.path.basename(f[1].split(":")[0])
                break
        return "%s:%s:%s" % (m[1], kind, where)
    m = re.search(r"Assertion `(.*?)' failed", text)
    if m:
        return "assertion:" + m[1][:80]
    m = re.search(r"terminate called after throwing[^\n]*", text)
    if m:
        return m[0][:100]
    return "exit:%d" % rc


class Harness:
    def __init__(self, pid, run, exe, tier, seed, work):
        self.pid, self.run, self.exe, self.tier, self.seed, self.work = pid, run, exe, tier, seed, work
        self.viol, self.inconclusive, self.results = [], [], []
        self.lock = threading.Lock()

    def cmd(self, *extra):
        c = [self.exe, "--seed", str(self.seed), *extra]
        if self.run.valgrind:
            c = ["valgrind", "-q", "--error-exitcode=95", "--track-origins=no",
                 "--undef-value-errors=yes", "--leak-check=no"] + c
        return c

    def launch(self, args, log, timeout):
        with open(log, "wb") as f:
            try:
                p = subprocess.Popen(self.cmd(*args), stdout=f, stderr=subprocess.STDOUT,
                                     env=env_for(self.run.flavor), cwd=self.work,
                                     start_new_session=True)
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = 99
        with open(log, "rb") as f:
            return rc, f.read().decode("utf-8", "replace")

    def parse(self, text):
        out = []
        for m in re.finditer(r"^VH-VIOL (\{.*\})$", text, re.M):
            try:
                out.append(json.loads(m[1]))
            except ValueError:
                pass
        return out

    def progress(self, path):
        import struct
        try:
            with open(path, "rb") as f:
                o, i, inc = struct.unpack("<QQQ", f.read(24))
                fam = f.read(64).split(b"\0")[0].decode()
            return o, i, inc, fam
        except (OSError, struct.error):
            return None

    def shard(self, k):
        start, crashes = 0, 0
        scale = self.run.quick if self.tier == "quick" else self.run.thorough
        base = os.path.join(self.work, f"{self.run.name}.{self.run.flavor}.{k}")
        part = 0
        while True:
            out, log, prog = f"{base}.{part}.json", f"{base}.{part}.log", f"{base}.prog"
            if os.path.exists(prog):
                os.unlink(prog)
            args = ["--scale", str(scale), "--shard", str(k), "--shards", str(self.run.shards),
                    "--start", str(start), "--out", out, "--progress", prog, "--cpu",
                    str(self.run.cpu), "--wall", str(self.run.wall)]
            rc, text = self.launch(args, log, self.run.total)
            with self.lock:
                for v in self.parse(text):
                    self.viol.append(v)
            if os.path.exists(out):
                with open(out) as f:
                    r = json.load(f)
                with self.lock:
                    self.results.append(r)
                if rc in (0, 1, 4):
                    return
                # finished, then something complained at exit: leaks, races
                with self.lock:
                    self.viol.append({"key": "at-exit:" + signature(text, rc), "family": "",
                                      "index": 0, "msg": tail(text), "args": args})
                return
            if rc == 3:
                with self.lock:
                    self.inconclusive.append("harness error: " + tail(text))
                return
            pr = self.progress(prog)
            if pr is None or rc == -9:
                with self.lock:
                    self.inconclusive.append(f"shard {k} ended with {rc} before any case: {tail(text)}")
                return
            ordinal, index, in_case, fam = pr
            if rc in (97, 98, 99):
                # a watchdog: decide by running that case alone, with a fresh budget
                rc2, text2 = self.launch(["--family", fam, "--index", str(index), "--cpu",
                                          str(self.run.cpu * 2), "--wall", str(self.run.wall)],
                                         log + ".again", self.run.wall * 2)
                if rc2 in (97, 98, 99):
                    with self.lock:
                        self.viol.append({"key": f"hang:{fam}", "family": fam, "index": index,
                                          "msg": "no end within %d s of CPU or %d s" % (self.run.cpu * 2, self.run.wall)})
                elif rc2 in (0, 1):
                    with self.lock:
                        self.viol += self.parse(text2)
                else:
                    with self.lock:
                        self.viol.append({"key": f"crash:{fam}:" + signature(text2, rc2), "family": fam,
                                          "index": index, "msg": tail(text2)})
            else:
                with self.lock:
                    self.viol.append({"key": f"crash:{fam}:" + signature(text, rc), "family": fam,
                                      "index": index, "msg": tail(text)})
            crashes += 1
            part += 1
            start = ordinal + 1
            # enough is known; what is left to run may well hang again and again
            if crashes >= MAX_CRASHES or (self.viol and self.tier == "quick" and time.time() - STARTED > 240):
                return


STARTED = time.time()


def tail(text, n=1500):
    lines = [x for x in text.splitlines() if x.strip()]
    for i, x in enumerate(lines):
        if "ERROR: " in x or "runtime error" in x or "VH-FATAL" in x or "WARNING: ThreadSanitizer" in x:
            return "\n".join(lines[i:i + 14])[:n]
    return "\n".join(lines[-8:])[-n:]


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                if line.strip():
                    k = json.loads(line)
                    if k["property"] == pid and k["status"] == "known":
                        out.append(k)
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = PROPS[pid]
    t0 = time.time()
    runs = [r for r in prop["runs"] if (tier == "thorough" or r.quick > 0)]
    try:
        exes, ncomp = B.build(sorted({(r.name, r.flavor) for r in runs}))
    except B.BuildError as e:
        print("BUILD-FAILED " + str(e))
        return 3
    tb = time.time() - t0
    work = tempfile.mkdtemp(prefix="vh-")
    viol, inconclusive, results = [], [], []
    try:
        hs = [Harness(pid, r, exes[(r.name, r.flavor)], tier, seed, work) for r in runs]
        jobs = [(h, k) for h in hs for k in range(h.run.shards)]
        # a run that uses several threads itself takes several slots
        sem = Slots(B.JOBS)

        def go(j):
            h, k = j
            with sem.take(h.run.threads):
                h.shard(k)
        with ThreadPoolExecutor(max(1, len(jobs))) as ex:
            list(ex.map(go, jobs))
        for h in hs:
            for v in h.viol:
                v["harness"] = h.run.name
                v["flavor"] = h.run.flavor
                v["valgrind"] = h.run.valgrind
            viol += h.viol
            inconclusive += h.inconclusive
            results.append((h.run, h.results))
    finally:
        shutil.rmtree(work, ignore_errors=True)

    counts, sigs, samples, cases, perf = {}, set(), [], 0, {}
    for run, rs in results:
        for r in rs:
            for k, v in r["cases"].items():
                cases += v
                perf[f"{run.name}.{run.flavor}:{k}"] = perf.get(f"{run.name}.{run.flavor}:{k}", 0) + v
            for k, v in r["counts"].items():
                counts[k] = counts.get(k, 0) + v
            sigs.update(run.name + s for s in r["sigs"])
            samples += r["samples"]

    # judge
    known = known_findings(pid)
    seen_known, new = {}, {}
    for v in viol:
        hit = next((k for k in known if re.fullmatch(k["key"], v["key"])), None)
        if hit:
            seen_known.setdefault(hit["key"], v)
        else:
            new.setdefault(v["key"], v)
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    for n, (key, v) in enumerate(sorted(new.items())):
        path = os.path.join(rdir, f"{pid}-{n}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "seed": seed, **v,
                       "replay": f"python3 lib/replay.py {path}"}, f, indent=1)
        if n < 25:
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  key={key} harness={v['harness']}.{v['flavor']} family={v['family']} index={v['index']} seed={seed}")
            print("  " + v["msg"].replace("\n", "\n  ")[:1200])
    ev = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": cases,
            "distinct_nontrivial": len(sigs),
            "rule": prop["rule"],
            "samples": samples[:12],
            "events": counts,
            "cases_per_family": perf,
        },
        "assumptions": prop.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} {tier} seed={seed}: {cases} cases, {len(sigs)} distinct, "
          f"{sum(counts.values())} events, {len(new)} violations, {ncomp} compiled in {tb:.0f} s, "
          f"total {time.time() - t0:.0f} s")
    if new:
        return 1
    if inconclusive:
        for x in inconclusive[:5]:
            print("INCONCLUSIVE " + x[:1500])
        return 4
    missing = [f"{r.name}: no case ran" for r, rs in results if not any(x["cases"] for x in rs)]
    missing += [f"event '{e}' was never observed" for e in prop.get("must_see", []) if not counts.get(e)]
    if missing:
        print("INCONCLUSIVE " + "; ".join(missing))
        return 4
    return 0


class Slots:
    def __init__(self, n):
        self.n, self.free, self.cv = n, n, threading.Condition()

    def take(self, k):
        slots = self
        k = min(k, self.n)

        class T:
            def __enter__(self):
                with slots.cv:
                    slots.cv.wait_for(lambda: slots.free >= k)
                    slots.free -= k

            def __exit__(self, *a):
                with slots.cv:
                    slots.free += k
                    slots.cv.notify_all()
        return T()


if __name__ == "__main__":
    sys.exit(main())
