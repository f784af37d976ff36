#!/usr/bin/env python3
"""mkseed.py FILE...: turn seed descriptions into /verif/seeded/<id>/ after confirming them.

A description is a python file defining id, property, needs, breaks, edits=[(file, old, new)], demo (Go
main program; exits non-zero / panics when the property is broken).  The change is applied to /repo,
built, the stable tests and the demo run, the check(s) run, and everything is undone.
"""
import json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right; run with cwd = the repository
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\": {\\"$repo/zz_demo/main.go\\": \\"$here/demo.go.txt\\"}}" > "$tmp/overlay.json"
go build %s-overlay "$tmp/overlay.json" -o "$tmp/demo" ./zz_demo || exit 1
cd "$tmp" && timeout 240 ./demo
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def clean():
    sh("git -C /repo checkout -- . && git -C /repo clean -fdq zz_demo")


def one(path):
    ns = {}
    exec(open(path).read(), ns)
    if sh("git -C /repo status --porcelain").stdout.strip():
        sys.exit("/repo is not clean")
    d = os.path.join(HERE, "seeded", ns["id"])
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.go.txt", "w").write(ns["demo"].lstrip())
    open(d + "/demo.sh", "w").write(DEMO % ("-race " if ns.get("race") else ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    ok = True
    try:
        p = sh("bash %s/demo.sh" % d, cwd="/repo")
        if p.returncode:
            print(ns["id"], "DEMO FAILS ON CLEAN TREE\n", (p.stdout + p.stderr)[-1500:])
            ok = False
        for f, old, new in ns["edits"]:
            s = open("/repo/" + f).read()
            if s.count(old) != 1:
                print(ns["id"], f, "old text occurs", s.count(old), "times")
                return False
            open("/repo/" + f, "w").write(s.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        for f in {e[0] for e in ns["edits"]}:  # lines of the original repository have to change
            orig = sh("git -C /repo show 4b9cf90:" + f).stdout.splitlines()
            gone = [x[1:] for x in sh("git -C /repo diff -U0 -- " + f).stdout.splitlines() if x.startswith("-") and not x.startswith("---")]
            if gone and not any(x in orig for x in gone if x.strip()):
                print(ns["id"], f, "CHANGES NO LINE OF THE ORIGINAL")
        open(d + "/patch.diff", "w").write(diff)
        p = sh("bash /opt/vp/build.sh")
        if p.returncode:
            print(ns["id"], "BUILD", p.stdout + p.stderr)
            return False
        t = tempfile.mktemp(suffix=".json")
        sh("bash /opt/vp/test.sh " + t)
        r = json.load(open(t))
        os.remove(t)
        base = json.load(open("/opt/vp/BASELINE.json"))
        want = set(base["stable"])
        got = set(r.get("passed") or r.get("pass") or [])
        if not want or want - got:
            print(ns["id"], "TESTS FAIL", want - got, list(base)[:5], list(r)[:5])
            ok = False
        p = sh("bash %s/demo.sh" % d, cwd="/repo")
        if p.returncode == 0:
            print(ns["id"], "DEMO PASSES WITH THE BUG")
            ok = False
        c = sh("python3 %s/run.py %s quick" % (HERE, ns["property"]))
        lines = [x for x in c.stdout.splitlines() if x.startswith(("VIOLATION", "OK", "CHECK ERROR"))]
        print(ns["id"], "ok" if ok else "INVALID", "| check rc", c.returncode, "CAUGHT" if c.returncode == 1 else "MISSED", lines[:1])
        if c.returncode not in (0, 1):
            print(c.stdout[-1500:])
    finally:
        clean()
    return ok


for f in sys.argv[1:]:
    one(f)
