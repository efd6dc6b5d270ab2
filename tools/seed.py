#!/usr/bin/env python3
"""seed.py DEF.py: a definition file sets ID, PROP, FILE(S) edits, NEEDS, BREAKS, DEMO (C++ main body file text), optional
EXTRA (sources of /repo compiled in).  Writes seeded/ID, then verifies: builds, stable tests pass, demo passes without and
fails with the change, and reports whether the property's quick check catches it.   seed.py --verify ID re-verifies."""
import subprocess, sys, os, json
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
def verify(i):
    d = "%s/seeded/%s" % (V, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    assert not sh("git -C /repo status --short").stdout
    def demo(): return sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
    if sh("bash /opt/vp/build.sh").returncode: return print("clean build failed")
    r = demo()
    if r.returncode: return print(i, "DEMO FAILS ON CLEAN TREE", r.stdout, r.stderr)
    a = sh("git -C /repo apply %s/patch.diff" % d)
    if a.returncode: return print(i, "patch doesn't apply", a.stderr)
    try:
        t = sh("/verif/tools/repotest.sh").stdout
        ok = "missing: []" in t
        r = demo()
        c = sh("./check %s quick" % prop, cwd=V)
        caught = c.returncode == 1 and ("VIOLATION property=%s " % prop) in c.stdout
        print(i, prop, "tests ok" if ok else "TESTS FAIL " + t, "| demo", "fails (good)" if r.returncode else "PASSES (bad)",
              "| check", "CAUGHT" if caught else "MISSED rc=%d" % c.returncode, "|", c.stdout.strip().split("\n")[-1], c.stderr[-300:])
        if "-v" in sys.argv: print(r.stdout, r.stderr, c.stdout)
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
        sh("git -C %s checkout -- replays" % V)
def define(path):
    g = {}
    exec(open(path).read(), g)
    d = "%s/seeded/%s" % (V, g["ID"])
    os.makedirs(d, exist_ok=True)
    for f, old, new in g["EDITS"]:
        s = open("/repo/" + f, newline="").read()
        if "\r\n" in s: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (f, old, s.count(old))
        open("/repo/" + f, "w", newline="").write(s.replace(old, new))
    p = sh("git -C /repo diff").stdout
    sh("git -C /repo checkout -- .")
    open(d + "/patch.diff", "w").write(p)
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.cpp", "w").write(g["DEMO"].lstrip("\n"))
    ex = " ".join(g.get("EXTRA", []))
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# run in the repository after a build:  exit 0 if the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -w -I. "$here/demo.cpp" %s _build/liblunar.a -lm -o "$t/demo" || exit 3
%stimeout 120 "$t/demo"
''' % (ex, g.get("PRE", "")))
    verify(g["ID"])
if sys.argv[1] == "--verify":
    for i in [a for a in sys.argv[2:] if a != "-v"]: verify(i)
else:
    for p in sys.argv[1:]:
        if p != "-v": define(p)
