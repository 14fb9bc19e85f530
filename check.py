#!/usr/bin/env python3
"""Runs the check of one property against the current tree of /repo.

  check.py Pnn quick|thorough      exit 0: held, 1: VIOLATION, other: error
  check.py --setup                 prepares (optional) build directories
"""
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
MC = os.path.join(VERIF, "mc")

sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402

VARIANTS = {
    # lib with AddressSanitizer: memory errors become crashes, i.e. violations
    "asan": ("-Wno-error -w -fsanitize=address -fno-omit-frame-pointer", []),
    # as shipped (RelWithDebInfo)
    "plain": ("-Wno-error -w", []),
    # every memory access calls the runtime of mc/race_rt.cxx (not TSan's)
    "tsan": ("-Wno-error -w -fsanitize=thread", []),
}
COMPILE = {
    "asan": ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "plain": ["-O2", "-g"],
    "tsan": ["-O1", "-g"],
}


def log(*a):
    print(*a, flush=True)


def tree_hash(dirs, extra=""):
    h = hashlib.sha256(extra.encode())
    for d in dirs:
        if os.path.isfile(d):
            files = [d]
        else:
            files = []
            for root, ds, fs in os.walk(d):
                ds[:] = sorted(x for x in ds
                               if x not in (".git", "_build", "__pycache__"))
                files += [os.path.join(root, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode())
            try:
                with open(f, "rb") as fd:
                    h.update(fd.read())
            except OSError:
                pass
    return h.hexdigest()[:16]


def repo_hash(extra=""):
    dirs = [os.path.join(REPO, x) for x in
            ("src", "fast_positive", "cmake", "CMakeLists.txt",
             "VERSION.txt", "VERSION")]
    return tree_hash([d for d in dirs if os.path.exists(d)], extra)


def run(cmd, timeout, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, timeout=timeout, **kw)


class BuildError(Exception):
    pass


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def prune(pattern, keep):
    for d in glob.glob(os.path.join(BUILD, pattern)):
        if os.path.basename(d) != keep:
            if os.path.isdir(d):
                shutil.rmtree(d, ignore_errors=True)
            else:
                try:
                    os.unlink(d)
                except OSError:
                    pass


def build_lib(variant):
    flags, opts = VARIANTS[variant]
    name = "lib-%s-%s" % (variant, repo_hash(flags))
    d = os.path.join(BUILD, name)
    stamp = os.path.join(d, "ok")
    if os.path.exists(stamp):
        return d
    prune("lib-%s-*" % variant, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    cmd = ["cmake", "-S", REPO, "-B", d, "-G", "Ninja",
           "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DBUILD_TESTING=OFF",
           "-DFPTU_ENABLE_TESTS=OFF", "-DPROVIDE_VERSIONINFO=OFF",
           "-DBUILD_SHARED_LIBS=OFF", "-DINTERPROCEDURAL_OPTIMIZATION=OFF",
           "-DCMAKE_CXX_FLAGS=" + flags, "-DCMAKE_C_FLAGS=-w"] + opts
    r = run(cmd, 120)
    if r.returncode:
        raise BuildError("cmake failed:\n" + r.stdout.decode(errors="replace"))
    r = run(["ninja", "-C", d, "-j8"], 400)
    if r.returncode:
        raise BuildError("build failed:\n" +
                         r.stdout.decode(errors="replace")[-4000:])
    if not os.path.exists(os.path.join(d, "src", "libfptu.a")):
        raise BuildError("libfptu.a is absent")
    open(stamp, "w").close()
    return d


def build_harness(spec):
    """returns the path of the harness binary"""
    variant = spec.get("lib", "asan")
    lib = build_lib(variant) if variant else None
    src = os.path.join(MC, spec["harness"] + ".cxx")
    std = spec.get("std", "gnu++20")
    flags = (["-std=" + std, "-w", "-DNDEBUG"] + COMPILE[variant or "plain"] +
             spec.get("cflags", []))
    key = tree_hash([MC], repo_hash(" ".join(flags) + (variant or "")))
    name = "bin-%s-%s" % (spec["harness"], key)
    out = os.path.join(BUILD, name)
    if os.path.exists(out):
        return out
    prune("bin-%s-*" % spec["harness"], name)
    cmd = ["g++"] + flags + ["-I" + REPO, "-I" + MC]
    if lib:
        cmd += ["-I" + lib]
    objs = []
    for i, (x, xflags) in enumerate(spec.get("objects", [])):
        o = "%s.%d.o" % (out, i)
        c = cmd + xflags + ["-c", os.path.join(MC, x), "-o", o]
        r = run(c, 400)
        if r.returncode:
            raise BuildError("harness build failed:\n" + " ".join(c) + "\n" +
                             r.stdout.decode(errors="replace")[-6000:])
        objs.append(o)
    cmd += [] if objs else [src]
    cmd += objs + [x.replace("@REPO@", REPO).replace("@MC@", MC)
                    for x in spec.get("sources", [])]
    if lib:
        cmd += [os.path.join(lib, "src", "libfptu.a")]
    cmd += ["-pthread"] + spec.get("libs", []) + ["-o", out + ".tmp"]
    r = run(cmd, 400)
    if r.returncode:
        raise BuildError("harness build failed:\n" + " ".join(cmd) + "\n" +
                         r.stdout.decode(errors="replace")[-6000:])
    os.rename(out + ".tmp", out)
    return out


def load_findings(prop):
    """known findings: (file with the failing history, pattern, text)"""
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) history=(\S+) "
                         r"match=/(.*?)/ (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append((os.path.join(VERIF, m.group(2)), m.group(3),
                            m.group(4)))
    return res


def main():
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        with Lock():
            for v in VARIANTS:
                build_lib(v)
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER",
                                                                "quick")
    spec = PROPS[prop]
    t0 = time.time()
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    for f in glob.glob(os.path.join(evdir, "replay", prop + "-*")):
        os.unlink(f)
    with Lock():
        binary = build_harness(spec)
    t_build = time.time() - t0

    deadline = 480 if tier == "quick" else 690
    out = os.path.join(BUILD, "out-%s.json" % prop)
    if os.path.exists(out):
        os.unlink(out)
    env = dict(os.environ)
    env.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:"
                   "allocator_may_return_null=1" + spec.get("asan", ""))
    base = [binary, "--prop", prop, "--tier", tier] + spec.get("args", [])
    r = run(base + ["--out", out, "--deadline", str(deadline)],
            deadline + 120, env=env, cwd=BUILD)
    text = r.stdout.decode(errors="replace")
    if not os.path.exists(out) or r.returncode not in (0, 1, 3):
        log(text[-4000:])
        log("check error: harness ended with %d" % r.returncode)
        return 3
    res = json.load(open(out))
    status = 0
    replays = []
    for i, v in enumerate(res["violations"][:4]):
        f = os.path.join(evdir, "replay", "%s-%d.txt" % (prop, i))
        with open(f, "w") as fd:
            fd.write("property: %s\nitem: %s\npath: %s\n" %
                     (prop, v["item"], " ".join(map(str, v["path"]))))
            fd.write("kind: %s\nmessage: %s\nstep: %s\n" %
                     (v["kind"], v["msg"], v["what"]))
            fd.write("how to replay: python3 check.py is not needed, run\n"
                     "  %s --replay %s\n" % (" ".join(base), f))
        rr = run(base + ["--replay", f], 300, env=env, cwd=BUILD)
        rt = rr.stdout.decode(errors="replace")
        with open(f, "a") as fd:
            fd.write("--- output of the replay (exit %d):\n%s" %
                     (rr.returncode, rt[-20000:]))
        if rr.returncode == 1:
            replays.append((f, v))
        else:
            log("not reproduced by the replay: %s / %s" %
                (v["item"], v["msg"]))
            log(rt[-1500:])
    if replays:
        status = 1
    elif res["violations"]:
        status = 3
    if res["errors"] and status == 0:
        log("check error:", "; ".join(res["errors"]))
        status = 3

    findings = []
    if status == 0:
        for hist, pattern, txt in load_findings(prop):
            rr = run(base + ["--replay", hist], 300, env=env, cwd=BUILD)
            rt = rr.stdout.decode(errors="replace")
            if rr.returncode == 0:
                continue  # does not fail any more
            if rr.returncode == 1 and re.search(pattern, rt, re.S):
                log("KNOWN-FINDING: property=%s %s" % (prop, txt))
                findings.append(txt)
                continue
            f = os.path.join(evdir, "replay", "%s-f.txt" % prop)
            shutil.copy(hist, f)
            with open(f, "a") as fd:
                fd.write("\n--- output of the replay (exit %d):\n%s" %
                         (rr.returncode, rt[-20000:]))
            if rr.returncode == 1:
                replays.append((f, {"item": "known history", "msg":
                                    "fails in another way: " + rt[-300:],
                                    "what": ""}))
                status = 1
            else:
                log("check error: replay of %s ended with %d\n%s" %
                    (hist, rr.returncode, rt[-1000:]))
                status = 3

    complete = (res["items_done"] == res["items"] and not res["capped"] and
                not res["time_up"])
    cov = {
        "states": res["states"],
        "transitions": res["transitions"],
        "traces_validated_against_impl": res["traces"],
        "samples": res["samples"] or ["(none)"],
        "exhaustive": bool(complete and status == 0),
        "work_items": res["items"],
        "work_items_completed": res["items_done"],
        "items_capped": res["capped"],
        "items_cut_by_depth_bound": res["cut_depth"],
        "executions": res["executions"],
        "state_checks": res["checks"],
        "distinct_outcomes": res["outcomes"],
        "counters": res["counters"],
        "bounds": spec["bounds"],
        "build_s": round(t_build, 1),
        "known_findings": findings,
        "violations": len(replays),
    }
    if res.get("space"):
        cov["space"] = res["space"]
    ev = {"property": prop, "tier": tier,
          "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": spec.get("level", "model_checking"), "coverage": cov,
          "wall_s": round(time.time() - t0, 1)}
    with open(os.path.join(evdir, prop + ".json"), "w") as fd:
        json.dump(ev, fd, indent=1)
    log("%s %s: states=%d transitions=%d executions=%d items=%d/%d "
        "exhaustive=%s build=%.0fs total=%.0fs" %
        (prop, tier, res["states"], res["transitions"], res["executions"],
         res["items_done"], res["items"], cov["exhaustive"], t_build,
         time.time() - t0))
    for f, v in replays:
        log("  %s: %s [%s]" % (v["item"], v["msg"], v["what"]))
        log("VIOLATION property=%s replay=%s" % (prop, f))
    return status


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    try:
        sys.exit(main())
    except BuildError as e:
        log(str(e))
        log("check error: cannot build")
        sys.exit(3)
    except subprocess.TimeoutExpired as e:
        log("check error: timeout of", e.cmd)
        sys.exit(3)
