#!/usr/bin/env python3
"""Builds and runs the property-based checks of one property.

  check.py C01                     quick or thorough, by $VERIF_TIER (quick)
  check.py C01 --tier thorough
  check.py C01 --replay FILE       re-runs one saved case and prints it
  check.py --build                 builds every harness (optional warm-up)

Exit 0: held on everything explored.  Exit 1: a VIOLATION line was printed.
Exit 2: the check itself could not run.
"""
import argparse
import concurrent.futures
import fcntl
import hashlib
import json
import os
import shutil
import struct
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = os.cpu_count() or 8

SAN = ["-fsanitize=address,undefined,float-cast-overflow",
       "-fno-sanitize-recover=undefined,float-cast-overflow"]
TSAN = ["-fsanitize=thread"]
COMMON = ["-g1", "-O1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
          "-Wno-psabi", "-w"]


def sources(sub="src", but=("src/RustFFI.cpp",)):
    """The C++ sources below /repo/<sub>: /repo's own build globs them too."""
    found = []
    for root, _, files in os.walk(os.path.join(REPO, sub)):
        found += [os.path.relpath(os.path.join(root, f), REPO)
                  for f in files if f.endswith(".cpp")]
    return sorted(f for f in found if f not in but)


GEN_SRCS = sources()

# group -> sources in /verif/harness, sources in /repo, extra flags
GROUPS = {
    "expected": dict(h=["expected.cpp", "expected_a.cpp", "expected_b.cpp",
                        "expected_c.cpp", "expected_d.cpp"], r=[], std="c++23", san=SAN, fuzz=False),
    "util": dict(h=["util.cpp"], r=["src/util/Cancellation.cpp"], san=SAN),
    "geometry": dict(h=["geometry.cpp"], r=[], san=SAN),
    "constraints": dict(h=["constraints.cpp"], r=[], san=SAN),
    "builder": dict(h=["builder.cpp"],
                    r=GEN_SRCS, san=SAN),
    "generator": dict(h=["generator.cpp"], r=GEN_SRCS, san=SAN),
    "outcome": dict(h=["outcome.cpp"], r=GEN_SRCS, san=SAN, clock=True),
    "ffi": dict(h=["ffi.cpp"], r=GEN_SRCS + ["src/RustFFI.cpp"], san=SAN,
                ffi=True, clock=True),
    "threads": dict(h=["threads.cpp"], r=GEN_SRCS, san=TSAN, fuzz=False),
    "wild": dict(h=["wild.cpp"], r=GEN_SRCS, san=SAN),
    "rust": dict(rust=True),
}
CHECKS = json.load(open(os.path.join(VERIF, "checks.json")))


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class CheckError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, subdirs, files in os.walk(d):
            subdirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                if not f.endswith((".cpp", ".rs", ".pyc")):
                    h.update(os.path.relpath(p, d).encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read() + b"\0")
    return h.hexdigest()


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


def compile_obj(cxx, flags, src, headers):
    key = sha(cxx, " ".join(flags), open(src, "rb").read(), headers, src)
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = run([cxx, *flags, "-c", src, "-o", tmp])
        if r.returncode != 0:
            raise CheckError("cannot compile %s:\n%s" % (src, r.stdout[-6000:]))
        os.replace(tmp, obj)
    return obj


def ffi_header():
    """Generates what cxx-build would from the bridge in lib.rs."""
    out = os.path.join(BUILD, "ffi")
    r = run([sys.executable, os.path.join(VERIF, "tools", "bridge_header.py"),
             os.path.join(REPO, "src", "lib.rs"), out])
    if r.returncode != 0:
        raise CheckError("cannot read the bridge in lib.rs:\n" + r.stdout)
    return out


def build_group(name, pool, fuzz=False):
    g = GROUPS[name]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    cxx = "clang++" if fuzz else "g++"
    incs = [os.path.join(REPO, "include"), os.path.join(REPO, "src"),
            os.path.join(VERIF, "model"), os.path.join(VERIF, "engine"),
            os.path.join(VERIF, "harness")]
    extra = []
    if g.get("ffi"):
        incs += [ffi_header(), os.path.join(VERIF, "model", "ffi")]
    san = list(g["san"])
    if fuzz:
        san = ["-fsanitize=fuzzer,address,undefined,float-cast-overflow",
               "-fno-sanitize-recover=undefined,float-cast-overflow", "-fno-sanitize=vptr"]
    flags = ["-std=" + g.get("std", "c++20"), *COMMON, *san, *extra]
    headers = tree_hash(incs)
    incflags = ["-I" + i for i in incs]
    main = "fuzz_main.cpp" if fuzz else "pbt_main.cpp"
    srcs = [os.path.join(VERIF, "engine", main)]
    srcs += [os.path.join(VERIF, "harness", s) for s in g["h"]]
    srcs += [os.path.join(REPO, s) for s in g["r"]]
    objs = list(pool.map(lambda s: compile_obj(cxx, flags + incflags, s, headers), srcs))
    key = sha(*objs, " ".join(flags))
    exe = os.path.join(BUILD, "%s-%s%s" % (name, key, "-fuzz" if fuzz else ""))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = run([cxx, *flags, *objs, "-o", tmp, "-pthread", "-ldl"])
        if r.returncode != 0:
            raise CheckError("cannot link %s:\n%s" % (name, r.stdout[-6000:]))
        os.replace(tmp, exe)
    return exe


ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=0:"
                        "max_allocation_size_mb=2048:hard_rss_limit_mb=3000:"
                        "detect_stack_use_after_return=0:handle_abort=0",
           UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1",
           TSAN_OPTIONS="hard_rss_limit_mb=3072:halt_on_error=1:exitcode=66:second_deadlock_stack=1")
ENV.pop("LSAN_OPTIONS", None)


def prefix(group):
    """ThreadSanitizer may need an address space that is not randomised."""
    if GROUPS[group].get("san") is TSAN and subprocess.run(
            ["setarch", "-R", "true"], stderr=subprocess.DEVNULL).returncode == 0:
        return ["setarch", "-R"]
    return []


def known_for(prop):
    path = os.path.join(VERIF, "known_findings.json")
    entries = json.load(open(path))["findings"]
    return [e for e in entries if e["property"] == prop and e["status"] == "known"]


def run_binary(exe, prop, tier, seed, known, group, scale):
    out = os.path.join(BUILD, "out-%s-%s-%d.json" % (prop, group, os.getpid()))
    if os.path.exists(out):
        os.remove(out)
    cmd = [exe, "--prop", prop, "--tier", tier, "--seed", str(seed), "--out", out,
           "--replay-dir", os.path.join(VERIF, "replays"), "--jobs", str(JOBS),
           "--cap", "150" if tier == "quick" else "3000", "--scale", str(scale)]
    for e in known:
        cmd += ["--known", e["id"]]
    r = subprocess.run(prefix(group) + cmd, env=ENV, stdout=sys.stderr)
    if r.returncode not in (0, 1) or not os.path.exists(out):
        raise CheckError("harness %s ended with %d" % (group, r.returncode))
    res = json.load(open(out))
    os.remove(out)
    if not res["violation"] and any(s["evaluations"] == 0 for s in res["subs"]):
        raise CheckError("harness %s evaluated nothing" % group)
    return res


def salvage(exe, env, prop, work, replay):
    """Writes the replay of a case that ended the fuzzer, such as a sanitizer's."""
    for f in sorted(os.listdir(work)):
        if not f.startswith("a") or "slow-unit" in f:
            continue
        trail = work + "/trail"
        try:
            r = subprocess.run([exe, work + "/" + f], env=dict(env, PBT_TRAIL=trail), text=True,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, errors="replace", timeout=300)
        except subprocess.TimeoutExpired:
            continue
        if r.returncode == 0 or not os.path.exists(trail + ".sub"):
            continue
        if not os.path.exists(replay):
            raw = open(trail, "rb").read()
            n = struct.unpack_from("<I", raw)[0]
            what = next((l for l in r.stderr.splitlines() if "ERROR" in l or "runtime error" in l), "the process ended")
            with open(replay, "w") as o:
                o.write("property %s\nsub %s\nseed 0\nchoices %s\nmessage %s\n" % (
                    prop, open(trail + ".sub").read().strip(),
                    " ".join(map(str, struct.unpack_from("<%dQ" % n, raw, 8))), what))
        return


def run_fuzz(exe, real, prop, seed, known, group, seconds):
    """Coverage-guided search over the same properties."""
    work = os.path.join(BUILD, "fuzz-%s-%s-%d" % (prop, group, os.getpid()))
    os.makedirs(work + "/corpus", exist_ok=True)
    replay = os.path.join(VERIF, "replays", "%s-fuzz.replay" % prop)
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    if os.path.exists(replay):
        os.remove(replay)
    env = dict(ENV, PBT_PROP=prop, PBT_KNOWN=" ".join(e["id"] for e in known),
               PBT_FUZZ_REPLAY=replay)
    procs = []
    for j in range(JOBS):
        procs.append(subprocess.Popen(
            [exe, work + "/corpus", "-seed=%d" % (seed * 100 + j + 1),
             "-max_total_time=%d" % seconds, "-max_len=4096", "-len_control=20",
             # Where the harness moves the clock, libFuzzer cannot time a case.
             "-timeout=%d" % (0 if GROUPS[group].get("clock") else 60), "-rss_limit_mb=3500", "-print_final_stats=1", "-reload=1",
             "-artifact_prefix=%s/a%d-" % (work, j)],
            env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
            errors="replace"))
    execs, failed, corpus = 0, None, 0
    texts, until = [], time.time() + seconds + 180
    for p in procs:
        try:
            texts.append(p.communicate(timeout=max(1, until - time.time()))[1])
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            texts.append("")
    for p, text in zip(procs, texts):
        for line in text.splitlines():
            if line.startswith("stat::number_of_executed_units:"):
                execs += int(line.split()[-1])
        if p.returncode not in (0, -9):
            failed = text[-3000:]
    corpus = len(os.listdir(work + "/corpus"))
    violation = None
    if failed is not None and not os.path.exists(replay):
        salvage(exe, env, prop, work, replay)
    if failed is not None and os.path.exists(replay):
        # Confirm on the other build, from the replay file alone.
        again = [subprocess.run([real, "--replay", replay], env=ENV,
                                stdout=subprocess.DEVNULL).returncode for _ in range(3)]
        if again == [1, 1, 1]:
            violation = dict(sub="fuzz", replay=replay,
                             message=open(replay).read().split("message ", 1)[-1][:500])
        else:
            log("fuzz failure did not reproduce:", failed)
    elif failed is not None:
        log("fuzzer ended abnormally:", failed)
    shutil.rmtree(work, ignore_errors=True)
    return dict(executions=execs, corpus=corpus, seconds=seconds, violation=violation)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--build", action="store_true")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--fuzz-seconds", type=int, default=120)
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    os.makedirs(BUILD, exist_ok=True)
    pool = concurrent.futures.ThreadPoolExecutor(JOBS)

    if a.build:
        for g in {x for c in CHECKS.values() for x in c["groups"]}:
            if not GROUPS[g].get("rust"):
                build_group(g, pool)
        return 0

    if a.prop not in CHECKS:
        log("no such check:", a.prop)
        return 2
    spec = CHECKS[a.prop]
    start = time.time()
    known = known_for(a.prop)

    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        results, fuzz = {}, {}
        exes = {}
        for g in spec["groups"]:
            if GROUPS[g].get("rust"):
                sys.path.insert(0, os.path.join(VERIF, "tools"))
                import rust_check
                exes[g] = rust_check.build(REPO, VERIF, BUILD)
            else:
                exes[g] = build_group(g, pool)
        fcntl.flock(lock, fcntl.LOCK_UN)
        if a.replay:
            codes = [2]
            for g, exe in exes.items():
                r = subprocess.run(prefix(g) + [exe, "--replay", a.replay], env=ENV)
                codes.append(r.returncode)
                if r.returncode in (0, 1):
                    return r.returncode
            return codes[-1]
        for g, exe in exes.items():
            results[g] = run_binary(exe, a.prop, a.tier, a.seed, known, g, a.scale)
            if results[g]["violation"]:
                break
        violation = next((r["violation"] for r in results.values() if r["violation"]), None)
        if a.tier == "thorough" and not violation:
            for g in spec["groups"]:
                if GROUPS[g].get("rust") or GROUPS[g].get("fuzz") is False:
                    continue
                fexe = build_group(g, pool, fuzz=True)
                fuzz[g] = run_fuzz(fexe, exes[g], a.prop, a.seed, known, g, a.fuzz_seconds)
                violation = violation or fuzz[g]["violation"]
    except CheckError as e:
        log("ERROR:", e)
        return 2

    subs = [s for r in results.values() for s in r["subs"]]
    findings = [f for r in results.values() for f in r["findings"]]
    listed = {e["id"]: e for e in known}
    evidence = {
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results.values()),
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in results.values()),
            "discarded": sum(r["discarded"] for r in results.values()),
            "rule": " || ".join("%s: %s" % (s["name"], s["rule"]) for s in subs),
            "samples": [x for r in results.values() for x in r["samples"]],
            "checks": subs,
            "known_findings_hit": [f for f in findings if f["id"] in listed],
            "unstable_cases": any(r["unstable"] for r in results.values()),
            "time_cap_reached": any(r["capped"] for r in results.values()),
            "coverage_guided": fuzz,
            "exhaustive": False,
        },
        "assumptions": spec["assumptions"],
        "wall_s": round(time.time() - start, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for f in findings:
        if f["id"] in listed:
            print("KNOWN-FINDING: property=%s %s: %s" % (a.prop, f["id"], listed[f["id"]]["what"]))
    cov = evidence["coverage"]
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d discarded, %.1f s" % (
        a.prop, a.tier, a.seed, cov["evaluations"], cov["distinct_nontrivial"],
        cov["discarded"], evidence["wall_s"]))
    if violation:
        print("  %s: %s" % (violation["sub"], violation["message"]))
        print("VIOLATION property=%s replay=%s" % (a.prop, violation["replay"]))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
