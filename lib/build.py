"""Content-addressed builder: compiles /repo's Ceres sources and the harnesses of
/verif straight from the current working tree.

An object is reused only when the command line and the *content* of every
non-system file its compilation read are unchanged (or when the preprocessed
text, line markers removed, is unchanged, e.g. after a comment edit).  Time
stamps are never consulted, so it does not matter how the tree was laid out.
"""

import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VH_REPO", "/repo")
BUILD = os.environ.get("VH_BUILD", os.path.join(VERIF, "build"))
CXX = "clang++"
JOBS = int(os.environ.get("VH_JOBS", os.cpu_count() or 4))

UB = ("signed-integer-overflow,shift,bounds,return,float-cast-overflow,bool,enum,"
      "integer-divide-by-zero,vla-bound,unreachable,nonnull-attribute,"
      "returns-nonnull-attribute")
COMMON = ["-std=c++17", "-w", "-isystem", "/usr/include/eigen3",
          "-I" + os.path.join(VERIF, "shim"), "-I" + os.path.join(BUILD, "gen"),
          "-I" + os.path.join(REPO, "internal"), "-I" + os.path.join(REPO, "include"),
          "-I" + os.path.join(VERIF, "harness"),
          "-DCERES_STATIC_DEFINE", "-pthread", "-fno-omit-frame-pointer",
          "-gline-tables-only"]
FLAVORS = {
    # assertions (Eigen's and DCHECK) on, stack variables poisoned with a NaN pattern
    "asan": dict(cflags=["-O1", "-fsanitize=address," + UB, "-fno-sanitize-recover=all",
                         "-ftrivial-auto-var-init=pattern"],
                 ldflags=["-fsanitize=address," + UB]),
    # what a user builds: optimised, assertions off
    "rel": dict(cflags=["-O2", "-DNDEBUG"], ldflags=[]),
    "tsan": dict(cflags=["-O1", "-fsanitize=thread", "-DNDEBUG"],
                 ldflags=["-fsanitize=thread"]),
    # with the floating-point exceptions left visible; used under valgrind
    "vg": dict(cflags=["-O1", "-DNDEBUG", "-DVH_VALGRIND"], ldflags=[]),
}
ABSL = ["absl_str_format_internal", "absl_strings", "absl_strings_internal",
        "absl_raw_hash_set", "absl_hashtablez_sampler", "absl_exponential_biased",
        "absl_hash", "absl_city", "absl_low_level_hash", "absl_time", "absl_time_zone",
        "absl_civil_time", "absl_synchronization", "absl_graphcycles_internal",
        "absl_stacktrace", "absl_symbolize", "absl_debugging_internal",
        "absl_demangle_internal", "absl_malloc_internal", "absl_int128",
        "absl_throw_delegate", "absl_bad_optional_access", "absl_bad_variant_access",
        "absl_base", "absl_spinlock_wait", "absl_raw_logging_internal",
        "absl_log_severity"]


# Which library files the harnesses needed when they were last linked against all of
# them; only saves compilations.
HINTS = os.path.join(VERIF, "lib/members.json")


class BuildError(Exception):
    pass


def sha(data):
    return hashlib.sha256(data).hexdigest()


_file_sha = {}


def file_sha(path):
    if path not in _file_sha:
        try:
            with open(path, "rb") as f:
                _file_sha[path] = sha(f.read())
        except OSError:
            _file_sha[path] = None
    return _file_sha[path]


def generated_headers():
    """config.h and export.h, as the project's CMake makes them for a static library
    with Eigen as the only sparse back end."""
    on = {"CERES_USE_EIGEN_SPARSE", "CERES_NO_CUDA", "CERES_NO_CUDSS", "CERES_NO_LAPACK",
          "CERES_NO_SUITESPARSE", "CERES_NO_CHOLMOD_PARTITION", "CERES_NO_EIGEN_METIS",
          "CERES_NO_ACCELERATE_SPARSE"}
    with open(os.path.join(REPO, "cmake/config.h.in")) as f:
        text = re.sub(r"@([^@ $\n]+)@",
                      lambda m: ("" if m[1] in on else "// ") + "#define " + m[1], f.read())
    export = ("#ifndef CERES_EXPORT_H\n#define CERES_EXPORT_H\n#define CERES_EXPORT\n"
              "#define CERES_NO_EXPORT\n#define CERES_DEPRECATED __attribute__ ((__deprecated__))\n"
              "#define CERES_DEPRECATED_EXPORT CERES_EXPORT CERES_DEPRECATED\n"
              "#define CERES_DEPRECATED_NO_EXPORT CERES_NO_EXPORT CERES_DEPRECATED\n#endif\n")
    d = os.path.join(BUILD, "gen/ceres/internal")
    os.makedirs(d, exist_ok=True)
    for name, t in (("config.h", text), ("export.h", export)):
        p = os.path.join(d, name)
        if not os.path.exists(p) or open(p).read() != t:
            with open(p, "w") as f:
                f.write(t)


def lib_sources():
    out = []
    for pat in ("internal/ceres/*.cc", "internal/ceres/generated/*.cc"):
        for s in sorted(glob.glob(os.path.join(REPO, pat))):
            b = os.path.basename(s)
            if any(x in b for x in ("_test.cc", "benchmark", "test_util", ".cu.cc")):
                continue
            if b.startswith(("cuda_", "accelerate_", "suitesparse")) and b not in (
                    "cuda_block_sparse_crs_view.cc",):
                # compiled to nothing in this configuration
                pass
            out.append(s)
    return out


def deps_of(dfile):
    with open(dfile) as f:
        text = f.read().replace("\\\n", " ")
    return [p for p in text.split(":", 1)[1].split()
            if not p.startswith(("/usr/", "/lib/"))]


def compile_one(src, flavor, objdir, extra=()):
    """Returns (object path, compiled?)."""
    rel = os.path.relpath(src, REPO) if src.startswith(REPO + "/") else os.path.relpath(src, VERIF)
    name = rel.replace("/", "__")
    obj = os.path.join(objdir, name + ".o")
    meta = obj + ".json"
    cmd = [CXX, *FLAVORS[flavor]["cflags"], *COMMON, *extra]
    ckey = sha(" ".join(cmd).encode())
    old = None
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            with open(meta) as f:
                old = json.load(f)
        except ValueError:
            old = None
        if old and old["cmd"] == ckey and all(file_sha(p) == h for p, h in old["deps"].items()):
            return obj, False
    tmp = obj + ".tmp%d" % os.getpid()
    dfile = tmp + ".d"
    pp = None
    if old and old["cmd"] == ckey and old.get("pp"):
        r = subprocess.run([*cmd, "-E", "-P", "-MD", "-MF", dfile, "-MT", "x", src],
                           capture_output=True)
        if r.returncode == 0:
            pp = sha(r.stdout)
            if pp == old["pp"]:
                old["deps"] = {p: file_sha(p) for p in deps_of(dfile)}
                os.unlink(dfile)
                with open(meta, "w") as f:
                    json.dump(old, f)
                return obj, False
    r = subprocess.run([*cmd, "-MD", "-MF", dfile, "-MT", "x", "-c", src, "-o", tmp],
                       capture_output=True, text=True)
    if r.returncode != 0:
        for p in (tmp, dfile):
            if os.path.exists(p):
                os.unlink(p)
        raise BuildError(f"{src} ({flavor})\n{r.stderr[:1500]}")
    if pp is None:
        q = subprocess.run([*cmd, "-E", "-P", src], capture_output=True)
        pp = sha(q.stdout) if q.returncode == 0 else ""
    deps = {p: file_sha(p) for p in deps_of(dfile)}
    os.unlink(dfile)
    os.replace(tmp, obj)
    with open(meta, "w") as f:
        json.dump({"cmd": ckey, "deps": deps, "pp": pp, "sha": sha(open(obj, "rb").read())}, f)
    return obj, True


def obj_sha(obj):
    with open(obj + ".json") as f:
        return json.load(f)["sha"]


def compile_all(jobs):
    """jobs: [(src, flavor, objdir, extra)]; compiles in parallel, slow ones first."""
    def size(j):
        meta = os.path.join(j[2], j[0].rsplit("/", 1)[-1])
        b = os.path.basename(j[0])
        weight = 5 if ("covariance_impl" in b or j[0].startswith(VERIF)) else \
            3 if "schur_eliminator" in b or "partitioned" in b or "eigensparse" in b else 1
        return -weight
    errors, out, n = [], {}, 0
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(compile_one, *j): j for j in sorted(jobs, key=size)}
        for fu in cf.as_completed(futs):
            j = futs[fu]
            try:
                obj, did = fu.result()
                out[(j[0], j[1])] = obj
                n += did
            except BuildError as e:
                errors.append(str(e))
    if errors:
        raise BuildError("\n".join(errors[:3]))
    return out, n


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        _file_sha.clear()
        return self

    def __exit__(self, *a):
        self.f.close()


def link(objs, exe, flavor, members_file=None):
    key = sha(json.dumps([flavor, [(o, obj_sha(o)) for o in objs]]).encode())
    kfile = exe + ".key"
    if os.path.exists(exe) and os.path.exists(kfile) and open(kfile).read() == key:
        return True, ""
    cmd = [CXX, *FLAVORS[flavor]["ldflags"], "-pthread", "-fuse-ld=lld", "-o", exe + ".tmp",
           objs[0], "-Wl,--start-lib", *objs[1:], "-Wl,--end-lib"]
    if members_file:
        cmd.append("-Wl,--trace")
    cmd += ["-l" + a for a in ABSL] + ["-lgmock", "-lgtest", "-lm"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        return False, r.stderr[-3000:]
    os.replace(exe + ".tmp", exe)
    if members_file:
        used = set(r.stdout.split())
        with open(members_file, "w") as f:
            json.dump([o for o in objs[1:] if o in used], f)
    with open(kfile, "w") as f:
        f.write(key)
    return True, ""


def build(harnesses):
    """harnesses: [(name, flavor)] with source /verif/harness/<name>.cc.
    Returns {(name, flavor): exe}.  Compiles only the library files each harness was
    seen to need; falls back to the whole library when that no longer links."""
    with Lock():
        generated_headers()
        srcs = lib_sources()
        try:
            with open(HINTS) as f:
                hints = json.load(f)
        except (OSError, ValueError):
            hints = {}
        bindir = os.path.join(BUILD, "bin")
        os.makedirs(bindir, exist_ok=True)
        jobs, plan = {}, []
        for name, flavor in harnesses:
            ldir = os.path.join(BUILD, flavor, "lib")
            hdir = os.path.join(BUILD, flavor, "harness")
            os.makedirs(ldir, exist_ok=True)
            os.makedirs(hdir, exist_ok=True)
            hsrc = os.path.join(VERIF, "harness", name + ".cc")
            mfile = os.path.join(bindir, f"{name}.{flavor}.members")
            need = srcs
            used = None
            if os.path.exists(mfile):
                with open(mfile) as f:
                    used = {os.path.basename(o) for o in json.load(f)}
            elif f"{name}.{flavor}" in hints:
                used = set(hints[f"{name}.{flavor}"])
            if used is not None:
                need = [s for s in srcs
                        if os.path.relpath(s, REPO).replace("/", "__") + ".o" in used]
            jobs[(hsrc, flavor)] = (hsrc, flavor, hdir)
            for s in need:
                jobs[(s, flavor)] = (s, flavor, ldir)
            plan.append((name, flavor, hsrc, need, mfile, ldir))
        objs, n = compile_all(list(jobs.values()))
        out, redo = {}, []
        with cf.ThreadPoolExecutor(max(1, JOBS // 2)) as ex:
            def one(p):
                name, flavor, hsrc, need, mfile, ldir = p
                exe = os.path.join(bindir, f"{name}.{flavor}")
                full = len(need) == len(srcs)
                ok, err = link([objs[(hsrc, flavor)]] + [objs[(s, flavor)] for s in need], exe,
                               flavor, mfile if full else None)
                return p, exe, ok, err, full
            for p, exe, ok, err, full in ex.map(one, plan):
                if ok:
                    out[(p[0], p[1])] = exe
                elif full:
                    raise BuildError("link of %s failed:\n%s" % (p[0], err))
                else:
                    redo.append((p, exe))
        if redo:
            jobs = {(s, p[1]): (s, p[1], p[5]) for p, _ in redo for s in srcs}
            o2, m = compile_all(list(jobs.values()))
            n += m
            for (name, flavor, hsrc, need, mfile, ldir), exe in redo:
                ok, err = link([objs[(hsrc, flavor)]] + [o2[(s, flavor)] for s in srcs], exe,
                               flavor, mfile)
                if not ok:
                    raise BuildError("link of %s failed:\n%s" % (name, err))
                out[(name, flavor)] = exe
        return out, n


def write_hints():
    out = {}
    for p in sorted(glob.glob(os.path.join(BUILD, "bin/*.rel.members"))):
        with open(p) as f:
            out[os.path.basename(p)[:-len(".members")]] = sorted(os.path.basename(o) for o in json.load(f))
    with open(HINTS, "w") as f:
        json.dump(out, f, indent=1)


if __name__ == "__main__":
    if sys.argv[1:] == ["--hints"]:
        write_hints()
        sys.exit(0)
    t0 = time.time()
    want = [tuple(a.split(":")) if ":" in a else (a, "asan") for a in sys.argv[1:]]
    try:
        exes, n = build(want)
    except BuildError as e:
        print(e)
        sys.exit(2)
    for e in exes.values():
        print(e)
    print(f"{n} compiled, {time.time() - t0:.1f} s")
