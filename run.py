#!/usr/bin/env python3
"""Driver: builds the harnesses of one property from /repo's working tree, runs
the exhaustive exploration, writes evidence/<id>.json.

exit 0  property held on everything explored
exit 1  violation(s); a line  VIOLATION property=<id> replay=<path>  each
exit 2  the check itself failed (no verdict)
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CISTA_REPO", "/repo")
sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402

CXX = {"gcc": "g++", "clang": "clang++-18"}


def known_keys(prop):
    keys = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                d = dict(x.split("=", 1) for x in line[6:].split(" | ")[0].split() if "=" in x)
                if d.get("property") == prop:
                    # known: property=P key=<target>/<key> | text
                    keys[d["key"]] = line.split(" | ", 1)[1]
    return keys


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build(bdir, t):
    exe = os.path.join(bdir, t["name"])
    cxx = CXX[t.get("cxx", "gcc")]
    san = t.get("san", "address")
    flags = ["-std=" + t.get("std", "c++17"), t.get("opt", "-O1"), "-g1", "-fno-omit-frame-pointer", "-w",
             "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "lib"),
             "-I" + os.path.join(VERIF, "checks"), "-DFMT_HEADER_ONLY"]
    if san:
        flags += ["-fsanitize=" + san, "-fno-sanitize-recover=all"]
    flags += t.get("flags", [])
    if t.get("gen"):
        src = os.path.join(bdir, t["name"] + ".gen.cc")
        r = sh([sys.executable, os.path.join(VERIF, "checks", t["gen"]), src] + t.get("gen_args", []))
        if r.returncode:
            return exe, r.returncode, r.stdout
        srcs = [src]
    else:
        srcs = [os.path.join(VERIF, "checks", s) for s in t["src"]]
    if t.get("two_step"):  # compile with flags that must not reach the linker
        r = sh([cxx] + flags + t["two_step"] + ["-c"] + srcs + ["-o", exe + ".o"])
        if r.returncode:
            return exe, r.returncode, r.stdout
        r = sh([cxx, exe + ".o", "-o", exe] + t.get("ld", []))
        return exe, r.returncode, r.stdout
    r = sh([cxx] + flags + srcs + ["-o", exe] + t.get("ld", []))
    return exe, r.returncode, r.stdout


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    P = PROPS[prop]
    targets = [t for t in P["targets"] if tier == "thorough" or not t.get("thorough_only")]
    if only:
        targets = [t for t in targets if t["name"] == only or t["name"].startswith(only)]
    base = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, "build")
    os.makedirs(base, exist_ok=True)
    bdir = tempfile.mkdtemp(prefix=prop + ".", dir=base)
    try:
        return run(prop, tier, seed, t0, P, targets, bdir)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(bdir, ignore_errors=True)


def run(prop, tier, seed, t0, P, targets, bdir):
    evp = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    with cf.ThreadPoolExecutor(8) as ex:
        built = list(ex.map(lambda t: build(bdir, t), targets))
    for t, (exe, rc, out) in zip(targets, built):
        if rc != 0:
            print(out[-6000:])
            print("BUILD-ERROR property=%s target=%s" % (prop, t["name"]))
            return 2
    t_build = time.time() - t0
    known = known_keys(prop)
    cap_total = 650.0 if tier == "quick" else 6 * 3600.0
    scen, violations, hit_known, samples = [], [], {}, []
    internal = False
    for t, (exe, _, _) in zip(targets, built):
        left = max(20.0, cap_total - (time.time() - t0))
        outp = exe + ".json"
        scratch = exe + ".scratch"
        os.makedirs(scratch, exist_ok=True)
        cmd = [exe, "--tier", tier, "--out", outp, "--jobs", str(t.get("jobs", 8)),
               "--cap", str(left), "--hang", str(t.get("hang", 12))]
        for k in known:
            tn, kk = k.split("/", 1)
            if tn == t["name"]:
                cmd += ["--known", kk]
        env = dict(os.environ)
        env["MC_SCRATCH"] = scratch
        env.pop("ASAN_OPTIONS", None)
        with open(exe + ".err", "wb") as err:
            r = subprocess.run(cmd, stdout=err, stderr=err, cwd=scratch, env=env)
        try:
            res = json.load(open(outp))
        except Exception as e:  # noqa
            print(open(exe + ".err", errors="replace").read()[-3000:])
            print("CHECK-ERROR property=%s target=%s rc=%s %s" % (prop, t["name"], r.returncode, e))
            internal = True
            continue
        if res["internal_error"] and not any(s["violations"] for s in res["scenarios"]):
            print(open(exe + ".err", errors="replace").read()[-3000:])
            print("CHECK-ERROR property=%s target=%s (internal)" % (prop, t["name"]))
            internal = True
        for s in res["scenarios"]:
            for k, n in s["known"]:
                hit_known.setdefault(t["name"] + "/" + k, 0)
                hit_known[t["name"] + "/" + k] += n
            for v in s["violations"][:1]:
                v["target"] = t["name"]
                v["scenario"] = s["name"]
                v["stderr"] = open(exe + ".err", errors="replace").read()[-4000:]
                violations.append(v)
            for x in s.pop("samples"):
                samples.append({"target": t["name"], "scenario": s["name"], "history": x.strip().split("\n")})
            scen.append(dict(target=t["name"], **{k: v for k, v in s.items() if k not in ("violations", "known")}))
        shutil.rmtree(scratch, ignore_errors=True)
    cov = {
        "states": sum(s["states"] for s in scen),
        "transitions": sum(s["transitions"] for s in scen),
        "traces_validated_against_impl": sum(s["executions"] for s in scen),
        "samples": samples[:16],
        "exhaustive": all(s["exhausted"] for s in scen) and not violations,
        "scenarios": scen,
        "bounds": P.get("bounds", ""),
        "states_are": "distinct states of the reference model (hashed), over all scenarios",
        "transitions_are": "distinct edges of the explored choice tree (operation / environment step executed on the real code)",
        "build_s": round(t_build, 1),
        "known_findings_met": hit_known,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": P.get("level", "model_checking"),
          "coverage": cov, "assumptions": P.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    if P.get("level") in ("exploration", "fault_enumeration"):
        cov["evaluations"] = cov["traces_validated_against_impl"]
        cov["distinct_nontrivial"] = cov["states"]
        cov["rule"] = P["rule"]
    if os.environ.get("VERIF_NO_EVIDENCE") != "1":
        with open(evp, "w") as f:
            json.dump(ev, f, indent=1)
    for s in scen:
        print("  %-14s %-34s bound=%-3d exec=%-10d trans=%-10d states=%-8d %s %.1fs" % (
            s["target"], s["name"], s["bound"], s["executions"], s["transitions"], s["states"],
            "exhausted" if s["exhausted"] else "STOPPED", s["wall_s"]))
    for k, n in sorted(hit_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, known.get(k, k)))
    print("property=%s tier=%s build=%.1fs total=%.1fs" % (prop, tier, t_build, time.time() - t0))
    if violations:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(violations):
            rp = os.path.join(rdir, "%s-%s-%d.json" % (prop, v["target"], i))
            v.update(property=prop, tier=tier)
            with open(rp, "w") as f:
                json.dump(v, f, indent=1)
            print("--- %s / %s : [%s] %s" % (v["target"], v["scenario"], v["key"], v["msg"]))
            print("\n".join("      " + x for x in v["log"].strip().split("\n")[-25:]))
            if v["key"].startswith("crash") and os.environ.get("VERIF_SHOW_STDERR"):
                print(v["stderr"][-3500:])
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 2 if internal else 0


def replay(path):
    v = json.load(open(path))
    P = PROPS[v["property"]]
    t = [t for t in P["targets"] if t["name"] == v["target"]][0]
    base = os.path.join(VERIF, "build")
    os.makedirs(base, exist_ok=True)
    bdir = tempfile.mkdtemp(prefix="replay.", dir=base)
    try:
        exe, rc, out = build(bdir, t)
        if rc:
            print(out)
            return 2
        r = subprocess.run([exe, "--tier", v["tier"], "--scenario", v["scenario"], "--replay",
                            ",".join(map(str, v["choices"])) or "0"], cwd=bdir,
                           env=dict(os.environ, MC_SCRATCH=bdir))
        return r.returncode
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
