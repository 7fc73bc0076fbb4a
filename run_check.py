#!/usr/bin/env python3
"""Builds and runs the check of one property: run_check.py C01 [--tier quick|thorough] | --setup | --replay FILE."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "/usr/bin/clang++-18"
sys.path.insert(0, VERIF)
from targets import CHECKS, TARGETS, FLAVORS, CONVERTER_SRCS  # noqa: E402

ENV = dict(os.environ, LC_ALL="C.UTF-8",
           ASAN_OPTIONS="detect_leaks=0:detect_container_overflow=0:abort_on_error=0:exitcode=99:handle_abort=1:allocator_may_return_null=0:hard_rss_limit_mb=3500:symbolize=0:print_legend=0",
           UBSAN_OPTIONS="halt_on_error=1:exitcode=98:print_stacktrace=0")
for k in ("CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS", "LD_PRELOAD"):
    ENV.pop(k, None)


# Seconds a check may take, its build included, before what is left of its enumeration is cut short (and the evidence
# says so).  Nothing is cut on the tree as it is; a change that slows the code or multiplies its schedules may need it.
BUDGET = float(os.environ.get("VERIF_BUDGET", "690"))


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(repr(p).encode())
    return h.hexdigest()[:20]


def tree_digest(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, dn, fn in sorted(os.walk(d)):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(root, f)
                if f.endswith((".h", ".cc", ".proto", ".inc", ".py", ".pml", ".tla", ".cfg")) or root.startswith(os.path.join(REPO, "src")):
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()[:20]


def gen_protos():
    """google/api/http.proto and the bookstore proto -> build/gen (does not depend on /repo/_build)."""
    out = os.path.join(BUILD, "gen")
    stamp = os.path.join(out, ".done")
    bookstore = os.path.join(VERIF, "harness", "mc.proto")
    key = digest(open(bookstore, "rb").read(), "v3")
    if os.path.exists(stamp) and open(stamp).read() == key:
        return out
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    api = os.path.join(out, "protos")
    import zipfile
    z = zipfile.ZipFile("/usr/share/java/proto-google-common-protos.jar")
    names = ["google/api/http.proto", "google/api/annotations.proto"]
    for n in names:
        z.extract(n, api)
    r = sh(["protoc", "-I" + api, "--cpp_out=" + out] + names)
    if r.returncode:
        raise BuildError(r.stdout)
    r = sh(["protoc", "-I" + os.path.dirname(bookstore), "--cpp_out=" + out, "--descriptor_set_out=" + os.path.join(out, "mc.desc"), "--include_imports", "mc.proto"])
    if r.returncode:
        raise BuildError(r.stdout)
    with open(stamp, "w") as f:
        f.write(key)
    return out


def repo_srcs(kind):
    d = os.path.join(REPO, "src")
    all_ = sorted(f for f in os.listdir(d) if f.endswith(".cc"))
    if kind == "core":
        return [os.path.join(d, f) for f in all_ if f not in CONVERTER_SRCS]
    if kind == "all":
        return [os.path.join(d, f) for f in all_]
    raise ValueError(kind)


def compile_one(cmd, obj):
    t = obj + ".%d.tmp.o" % os.getpid()
    r = sh(cmd + ["-o", t])
    if r.returncode:
        return (obj, r.stdout)
    os.replace(t, obj)
    return (obj, None)


def build(target, flavor, jobs):
    """Returns the path of the binary, (re)building whatever is not up to date with the sources."""
    spec = TARGETS[target]
    gen = gen_protos()
    flags = FLAVORS[flavor]["cxx"] + spec.get("cxx", [])
    inc = []
    for i in spec.get("inc", []):
        inc += ["-I" + os.path.join(VERIF, "harness", i)]
    inc += ["-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(REPO, "src/include"), "-I" + REPO, "-I" + gen]
    tree = tree_digest(os.path.join(REPO, "src"), os.path.join(VERIF, "harness"))
    srcs = [(s, spec.get("repo_cxx", [])) for s in repo_srcs(spec["repo"])]
    if "repo_only" in spec:
        srcs = [s for s in srcs if os.path.basename(s[0]) in spec["repo_only"]]
    for s in spec["srcs"]:
        if isinstance(s, str):
            s = (s, [])
        srcs.append((os.path.join(VERIF, "harness", s[0]), list(s[1])))
    for s in spec.get("gen", []):
        srcs.append((os.path.join(gen, s), ["-w"]))
    key = digest(tree, flags, inc, srcs, spec.get("libs"), FLAVORS[flavor])
    bdir = os.path.join(BUILD, "bin")
    os.makedirs(bdir, exist_ok=True)
    exe = os.path.join(bdir, "%s.%s.%s" % (target, flavor, key))
    if os.path.exists(exe):
        return exe
    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)
    futs, objs = [], []
    for s, extra in srcs:
        f = flags + extra
        if "!plain" in extra:  # not instrumented, whatever the flavor
            f = ["-std=c++20", "-O2", "-g1", "-w"] + [e for e in extra if e[0] != "!"]
        i = [x for x in inc if not x.endswith("/shim")] if "!real" in extra else inc  # the real protobuf headers
        isgen = s.startswith(gen)
        k = digest(open(s, "rb").read(), f) if isgen else digest(tree, s, f, i)
        obj = os.path.join(odir, os.path.basename(s).replace(".cc", "") + "." + k + ".o")
        objs.append(obj)
        if os.path.exists(obj):
            continue
        futs.append(jobs.submit(compile_one, [CXX] + f + i + ["-c", s], obj))
    for fu in futs:
        obj, err = fu.result()
        if err is not None:
            raise BuildError(err)
    t = exe + ".%d.tmp" % os.getpid()
    r = sh([CXX] + FLAVORS[flavor]["link"] + objs + ["-o", t] + spec.get("libs", []) + ["-lpthread", "-ldl"])
    if r.returncode:
        raise BuildError(r.stdout)
    os.replace(t, exe)
    return exe


def prune():
    """Keeps the build folder small: drops objects and binaries not used for a while."""
    for d in ("obj", "bin"):
        p = os.path.join(BUILD, d)
        if not os.path.isdir(p):
            continue
        fs = sorted((os.path.getmtime(os.path.join(p, f)), os.path.join(p, f)) for f in os.listdir(p))
        for _, f in fs[:-300]:
            try:
                os.unlink(f)
            except OSError:
                pass


def load_known():
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                d = dict(kv.split("=", 1) for kv in line[len("finding:"):].split(" | ")[0].split())
                d["text"] = line.split(" | ", 1)[1] if " | " in line else ""
                known.append(d)
    return known


def known_keys(prop):
    return ";" + "".join(k["key"] + ";" for k in load_known() if k.get("property") == prop)


def run(prop, tier):
    t0 = time.time()
    check = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        gen_protos()
        with cf.ThreadPoolExecutor(8) as jobs, cf.ThreadPoolExecutor(8) as tops:
            futs = [tops.submit(build, r["target"], r["flavor"], jobs) for r in check["runs"] if tier in r.get("tiers", (tier,))]
            exes = [f.result() for f in futs]
        prune()
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
    runs = [r for r in check["runs"] if tier in r.get("tiers", (tier,))]
    spaces, violation, err = [], None, None
    tb = time.time()
    work = os.path.join(BUILD, "work.%d" % os.getpid())
    os.makedirs(work)
    try:
        for n, (r, exe) in enumerate(zip(runs, exes)):
            rest = max(t0 + BUDGET - time.time(), 20.0)
            budget = rest if n + 1 == len(runs) else 0.6 * rest
            out = os.path.join(work, "out.json")
            if os.path.exists(out):
                os.unlink(out)
            cmd = [exe, "--prop", prop, "--tier", tier, "--out", out, "--work", work, "--known", known_keys(prop), "--budget", "%.1f" % budget] + r.get("args", [])
            p = sh(cmd, cwd=work)
            log = p.stdout[-3000:]
            try:
                res = json.load(open(out))
            except Exception as e:  # noqa: BLE001
                err = "the harness %s gave no result (exit %d): %s %s" % (os.path.basename(exe), p.returncode, e, log)
                break
            for s in res["spaces"]:
                s["build"] = r["flavor"]
                s["harness"] = r["target"]
                spaces.append(s)
            if "violation" in res:
                v = res["violation"]
                violation = dict(property=prop, target=r["target"], flavor=r["flavor"], tier=tier, args=r.get("args", []), log=log, **v)
                break
            if p.returncode != 0:
                err = "%s exit %d: %s %s" % (os.path.basename(exe), p.returncode, res.get("error", ""), log)
                break
    finally:
        shutil.rmtree(work, ignore_errors=True)
    states = sum(s["states"] for s in spaces)
    trans = sum(s["transitions"] for s in spaces)
    cases = sum(s["cases"] for s in spaces)
    cut = [s["space"] for s in spaces if s["truncated"]]
    samples = []
    for s in spaces:
        for x in s["samples"][:2]:
            samples.append(s["space"] + ": " + x)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": check.get("level", "model_checking"),
        "coverage": {
            "states": states, "transitions": trans, "traces_validated_against_impl": cases,
            "samples": samples[:60] or ["(none: stopped at the violation)"],
            "exhaustive": violation is None and err is None and not cut,
            "rule": "states: distinct canonical model states / observed outcomes; transitions: operations executed on the real code; traces: complete cases whose every step was compared with the reference model",
            "spaces": [{k: s[k] for k in ("space", "harness", "build", "what", "units", "cases", "transitions", "states", "states_capped", "truncated", "wall_s")} for s in spaces],
        },
        "assumptions": check.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "build_s": round(tb - t0, 2),
        "violations": 1 if violation else 0,
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in load_known():
        if k.get("property") == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    if violation:
        rp = os.path.join(VERIF, "replays", "%s.%s.%s.json" % (prop, violation["space"], digest(violation)))
        violation["replay_with"] = "python3 run_check.py --replay " + os.path.relpath(rp, VERIF)
        with open(rp, "w") as f:
            json.dump(violation, f, indent=1)
        print("property %s violated in space %s (harness %s, build %s)" % (prop, violation["space"], violation["target"], violation["flavor"]))
        print("  case: " + violation["case_text"][:1500])
        print("  " + violation["message"][:1500])
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(rp, VERIF)))
        return 1
    if err:
        print("error of the check: " + err)
        return 2
    if cut:
        print("%s: the time budget of %d s cut short: %s" % (prop, BUDGET, ", ".join(cut)))
    print("%s %s: held on %d cases, %d operations, %d distinct states in %d spaces (build %.1f s, run %.1f s)" % (prop, tier, cases, trans, states, len(spaces), tb - t0, time.time() - tb))
    return 0


def replay(path):
    v = json.load(open(path))
    with cf.ThreadPoolExecutor(8) as jobs:
        exe = build(v["target"], v["flavor"], jobs)
    cmd = [exe, "--prop", v["property"], "--tier", v["tier"], "--space", v["space"], "--unit", str(v["unit"]), "--case", str(v["case"]), "--known", known_keys(v["property"])] + v["args"]
    print(" ".join(cmd))
    p = sh(cmd)
    print(p.stdout)
    return p.returncode


def main():
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        os.makedirs(BUILD, exist_ok=True)
        gen_protos()
        return 0
    if a[:1] == ["--replay"]:
        return replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    try:
        return run(a[0], tier)
    except BuildError as e:
        print("the build failed:\n" + str(e)[-6000:])
        return 2


if __name__ == "__main__":
    sys.exit(main())
