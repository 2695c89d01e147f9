#!/usr/bin/env python3
"""Plants and confirms bugs (development aid; not used by any check).

seedtool.py confirm ID...   scratch copy of /repo + patch, bound over /repo in a
                            private mount namespace: build, stable tests, demo
                            (with and without), then the property's check
                            (--notest skips the stable tests)
"""
import json
import os
import shutil
import subprocess
import sys

SEEDED = "/verif/seeded"
BASE = json.load(open("/opt/vp/BASELINE.json"))

DEMO = """#!/bin/bash
# exit 0: behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$t"' EXIT
%s -std=c++17 -O1 -g -w %s -I/repo/include -DFMT_HEADER_ONLY "$d/demo.cc" -o "$t/demo" %s || exit 98
cd "$t" && timeout 100 ./demo
"""


def add(sid, prop, edits, demo, needs, breaks, flags="-fsanitize=address -fno-sanitize-recover=all", cxx="g++", ld=""):
    d = os.path.join(SEEDED, sid)
    os.makedirs(d, exist_ok=True)
    work = "/tmp/seedwork"
    shutil.rmtree(work, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", work], check=True)
    for f, old, new in edits:
        p = os.path.join(work, f)
        s = open(p, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, "w", newline="").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", work, "diff"], check=True, capture_output=True).stdout.decode()
    shutil.rmtree(work)
    base = set()
    for f, _, _ in edits:  # only lines of the original repository may be changed
        b = os.path.join("/tmp/base", f)
        if os.path.exists(b):
            base |= set(open(b, newline="").read().split("\n"))
    if base:
        for l in diff.split("\n"):
            if l.startswith("-") and not l.startswith("---") and l[1:] not in base:
                print("WARNING", sid, "changes a line that is not original:", l)
    open(os.path.join(d, "patch.diff"), "w", newline="").write(diff)
    open(os.path.join(d, "demo.cc"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % (cxx, flags, ld))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def confirm(sid, test=True):
    d = os.path.join(SEEDED, sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    r0 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    res = {"demo_clean": r0.returncode}
    if r0.returncode:
        print(r0.stdout[-2000:], r0.stderr[-3000:])
    sc = "/tmp/seedcopy"
    shutil.rmtree(sc, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", sc], check=True)
    try:
        r = subprocess.run(["git", "-C", sc, "apply", d + "/patch.diff"], capture_output=True, text=True)
        if r.returncode:
            print(sid, "patch does not apply", r.stderr)
            return False
        out = "/tmp/seed_%s.json" % sid
        script = "mount --bind %s /repo && cd /repo && " % sc
        if test:
            script += "bash /opt/vp/test.sh %s > /tmp/seed_%s.testlog 2>&1; echo TEST $?; " % (out, sid)
        script += "bash %s/demo.sh > /tmp/seed_%s.demolog 2>&1; echo DEMO $?; " % (d, sid)
        script += "VERIF_NO_EVIDENCE=1 timeout 880 python3 /verif/run.py %s quick > /tmp/seed_%s.checklog 2>&1; echo CHECK $?; grep -m1 '^---' /tmp/seed_%s.checklog | cut -c1-250" % (meta["property"], sid, sid)
        r = subprocess.run(["unshare", "-m", "--propagation", "private", "bash", "-c", script], capture_output=True, text=True)
        print(sid, meta["property"], "demo_clean=%d" % res["demo_clean"], " ".join(r.stdout.split("\n")), r.stderr[-300:])
        if test:
            t = json.load(open(out))
            stable = BASE["stable"]
            missing = [x for x in stable if x not in set(t["passed"])]
            print("   stable tests failing with the patch:", missing[:8], len(missing))
        sys.stdout.flush()
    finally:
        shutil.rmtree(sc, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[2:]
    t = "--notest" not in a
    for s in a:
        if not s.startswith("--"):
            confirm(s, t)
