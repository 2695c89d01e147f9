#!/usr/bin/env python3
"""Mutation survey (development aid; not used by any check).

mutate.py FILE N SEED CHECK[:target-prefix] ...   N sampled one-line mutants of include/cista/FILE, judged by
the given checks' quick targets; survivors and hangs are listed in /tmp/mut/<file>.log
"""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("MUT_SRC", "/repo")
JOBS = int(os.environ.get("MUT_JOBS", "6"))

SKIP = re.compile(r"^\s*(//|/\*|\*|#|template|using |typedef|static_assert|friend |assert|struct |class |namespace|public:|private:|protected:|typename|>|typename )")
REPL = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
        (r" \+ 1U?\b", ""), (r" - 1U?\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r" && ", " || "), (r" \|\| ", " && "),
        (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+\+", "--"), (r"--(?!-)", "++"), (r" \+= ", " -= "), (r" -= ", " += "),
        (r"std::min", "std::max"), (r"std::max", "std::min"), (r" << ", " >> "), (r" >> ", " << "), (r" & ", " | "), (r" \| ", " & "),
        (r"\b0U\b", "1U"), (r"\b1U\b", "0U"), (r"\b1U\b", "2U"), (r"!(?=[a-z_(])", ""), (r"\bif \((?!constexpr)", "if (!"),
        (r" % ", " / "), (r" / ", " % "), (r" \* ", " / "), (r"sizeof\(T\)", "1U"), (r"begin\(\)", "end()"), (r"size_\b", "capacity_"),
        (r"\|= ", "= "), (r"&= ", "= "), (r"std::move\(([a-z_]+)\)", r"\1"), (r" \? (.*) : (.*);", r" ? \2 : \1;")]


def mutants(path, rel):
    s = open(path).read().split("\n")
    base = os.path.join("/tmp/base", rel)
    orig = set(open(base).read().split("\n")) if os.path.exists(base) else set(s)
    out = []
    for i, l in enumerate(s):
        if SKIP.match(l) or l not in orig or len(l.strip()) < 4:
            continue
        for pat, rep in REPL:
            for m in re.finditer(pat, l):
                n = l[:m.start()] + m.expand(rep) + l[m.end():]
                if n != l:
                    out.append((i, n))
        st = l.strip()
        if st.endswith(";") and not re.match(r"(return|auto|using|constexpr|static|typename|\}|break|continue|[a-zA-Z_:<>, ]+ [a-z_]+(\{.*\})?;)", st) and l.count("(") == l.count(")"):
            prev = s[i - 1].rstrip()
            if prev.endswith((";", "{", "}")):
                out.append((i, l[:len(l) - len(l.lstrip())] + "{}"))
    return s, out


WORK = """
import sys, os, json, subprocess, tempfile, shutil
sys.path.insert(0, %r)
import run
from props import PROPS
ids = sys.argv[2:]
res = "survived"
for c in ids:
    p, _, pre = c.partition(":")
    for t in PROPS[p]["targets"]:
        if t.get("thorough_only") or not t["name"].startswith(pre): continue
        exe, rc, out = run.build(sys.argv[1], t)
        if rc:
            print("NOBUILD"); sys.exit(0)
        scratch = exe + ".scratch"; os.makedirs(scratch, exist_ok=True)
        env = dict(os.environ, MC_SCRATCH=scratch); env.pop("ASAN_OPTIONS", None)
        cmd = [exe, "--tier", "quick", "--out", exe + ".json", "--jobs", "2", "--cap", "300", "--hang", "12"]
        for k in run.known_keys(p):
            tn, kk = k.split("/", 1)
            if tn == t["name"]: cmd += ["--known", kk]
        try:
            subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=scratch, env=env, timeout=400)
            r = json.load(open(exe + ".json"))
        except Exception as e:
            print("NOANSWER", t["name"], e); sys.exit(0)
        v = [(s["name"], s["violations"][0]["key"], s["violations"][0]["msg"][:100]) for s in r["scenarios"] if s["violations"]]
        if v:
            print("KILLED", c, t["name"], v[0]); sys.exit(0)
        if r["internal_error"]:
            print("NOANSWER", t["name"]); sys.exit(0)
        if not all(s["exhausted"] for s in r["scenarios"]): res = "survived(not exhausted)"
print(res)
""" % VERIF


def one(job):
    rel, lines, i, n, checks = job
    d = tempfile.mkdtemp(prefix="m", dir="/tmp/mut")
    try:
        shutil.copytree(os.path.join(SRC, "include"), d + "/r/include")
        if os.path.isdir(SRC + "/tools"):
            os.symlink(SRC + "/tools", d + "/r/tools")
        l2 = list(lines)
        l2[i] = n
        open(os.path.join(d, "r", rel), "w").write("\n".join(l2))
        r = subprocess.run(["timeout", "800", sys.executable, "-c", WORK, d] + checks, capture_output=True, text=True,
                           env=dict(os.environ, CISTA_REPO=d + "/r", VERIF_NO_EVIDENCE="1"))
        return i, lines[i], n, (r.stdout.strip() or "NOANSWER " + r.stderr[-200:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    f, cnt, seed, checks = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    rel = "include/cista/" + f
    lines, ms = mutants(os.path.join(SRC, rel), rel)
    random.Random(seed).shuffle(ms)
    seen, pick = {}, []
    for m in ms:  # spread over lines
        if seen.get(m[0], 0) < 2:
            seen[m[0]] = seen.get(m[0], 0) + 1
            pick.append(m)
    pick = pick[:cnt]
    log = open("/tmp/mut/%s.log" % f.replace("/", "_"), "a")
    st = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for i, o, n, r in ex.map(one, [(rel, lines, i, n, checks) for i, n in pick]):
            k = r.split()[0]
            st[k] = st.get(k, 0) + 1
            log.write("%-12s %s:%d\n   - %s\n   + %s\n   %s\n" % (k, f, i + 1, o.strip(), n.strip(), r))
            log.flush()
    print(f, "of", len(ms), st, flush=True)


main()
