#!/usr/bin/env python3
"""Confirms planted changes: plant.py ID... (none: all) [--no-check] [--demo-only]

In a scratch copy: the patch applies, the subset builds and its tests pass, the
demonstration passes without and fails with the change; then whether the
property's quick check catches it.
"""
import json, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
WORK = "/tmp/plant"


def sh(cmd, cwd=None, env=None, timeout=1200):
    r = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=env, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout


def main():
    flags = [a for a in sys.argv[1:] if a.startswith("--")]
    ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(SEEDED))
    shutil.rmtree(WORK, ignore_errors=True)
    os.makedirs(WORK)
    repo, sub, build = WORK + "/repo", WORK + "/subset", WORK + "/build"
    sh("git clone -q /repo %s" % repo)
    os.makedirs(sub)
    text = open("/opt/vp/subset/CMakeLists.txt").read().replace("/repo", repo)
    open(sub + "/CMakeLists.txt", "w").write(text)
    for i in ids:
        d = os.path.join(SEEDED, i)
        meta = json.load(open(d + "/meta.json"))
        place = WORK + "/demo-" + i
        shutil.copytree(d, place)
        for f in ("patch.diff", "meta.json"):
            os.remove(place + "/" + f)
        note = []
        rc, out = sh(["bash", place + "/demo.sh"], cwd=repo)
        note.append("clean demo rc=%d" % rc)
        if rc: note.append(out[-1500:])
        rc, out = sh(["git", "apply", d + "/patch.diff"], cwd=repo)
        if rc: note.append("PATCH DOES NOT APPLY " + out)
        rc, out = sh("cmake -S %s -B %s -G Ninja >/dev/null && cmake --build %s && ctest --test-dir %s" % (sub, build, build, build))
        note.append("build+tests rc=%d" % rc)
        if rc: note.append(out[-1500:])
        rc, out = sh(["bash", place + "/demo.sh"], cwd=repo)
        note.append("patched demo rc=%d (%s)" % (rc, out.strip().splitlines()[-1] if out.strip() else ""))
        if "--no-check" not in flags:
            env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick")
            rc, out = sh([sys.executable, VERIF + "/check.py", meta["property"]], env=env)
            note.append("check %s rc=%d %s" % (meta["property"], rc, [l for l in out.splitlines() if "VIOLATION" in l or "ERROR" in l] or out.splitlines()[-3:]))
        sh("git checkout -q -- . && git clean -fdq", cwd=repo)
        shutil.rmtree(place)
        print(i, "|", " | ".join(note), flush=True)
    shutil.rmtree(WORK, ignore_errors=True)


main()
