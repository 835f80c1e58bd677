#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a spec in /verif/seeded-src/<id>.txt and confirms it in a scratch copy (run by hand).
spec: first lines `property: C01`, `needs: ...`, `breaks: ...`, `pkg: storage` (folder the demo test goes to, package name
`<name>_test` unless `package:` is given), then `@@ file / --- / old / +++ / new` blocks, then `=== demo` and a Go test file.
mkseed.py [--notests] id..."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off")
DEMO = '''#!/bin/bash
# Runs demo_test.go.txt as a test of /repo (cwd), through an overlay; everything it writes is in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
echo "{\\"Replace\\":{\\"$PWD/@DIR@/zz_demo_test.go\\":\\"$here/demo_test.go.txt\\"}}" > "$work/overlay.json"
export TMPDIR=$work GOTOOLCHAIN=local GOPROXY=off
go test @RACE@-vet=off -overlay "$work/overlay.json" -run '^TestDemo' -count=1 -timeout 250s "./@DIR@"
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, shell=isinstance(cmd, str), **k)

def tests_verdict(o):
    want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    miss = [x.split("/goirlib/")[1] for x in want if x not in o["passed"]]
    return "tests ok" if not miss else "TESTS FAIL: " + " ".join(miss)

def base_lines(repo, fn):
    out = sh(["git", "blame", "-s", fn], repo).stdout.split("\n")
    return [l.startswith("^") for l in out]

def make(sid, tests):
    txt = open(os.path.join(V, "seeded-src", sid + ".txt")).read()
    edits, demo = txt.split("\n=== demo\n", 1)
    head, rest = edits.split("\n@@ ", 1)
    h = dict(l.split(": ", 1) for l in head.strip().split("\n"))
    t = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        d = os.path.join(t, "repo")
        subprocess.check_call(["git", "clone", "-q", "/repo", d])
        for b in ("@@ " + rest).split("\n@@ "):
            b = b[3:] if b.startswith("@@ ") else b
            f, body = b.split("\n", 1)
            for e in re.split(r"(?m)^--- ?\n", body)[1:]:
                old, new = re.split(r"(?m)^\+\+\+ ?(?:\n|\Z)", e, maxsplit=1)
                old, new = old.rstrip("\n"), new.rstrip("\n")
                p = os.path.join(d, f.strip())
                s = open(p).read()
                if s.count(old) != 1:
                    return "%d occurrences of %r" % (s.count(old), old)
                open(p, "w").write(s.replace(old, new))
        if sh("gofmt -l $(git diff --name-only)", d).stdout: print(sid, "gofmt differs")
        patch = sh(["git", "diff"], d).stdout
        base = rem = 0
        for fn in sh(["git", "diff", "--name-only"], d).stdout.split():
            bl = base_lines("/repo", fn)
            ln = 0
            for l in sh(["git", "diff", "-U0", fn], d).stdout.split("\n"):
                m = re.match(r"@@ -(\d+)", l)
                if m: ln = int(m.group(1)) - 1; continue
                if l.startswith("-") and not l.startswith("---"):
                    rem += 1; base += bl[ln]; ln += 1
        out = os.path.join(V, "seeded", sid)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(patch)
        open(os.path.join(out, "demo_test.go.txt"), "w").write(demo)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO.replace("@DIR@", h["pkg"]).replace("@RACE@", "-race " if h.get("race") else ""))
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": h["property"], "needs": h["needs"], "what_it_breaks": h["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        c = os.path.join(t, "clean")
        subprocess.check_call(["git", "clone", "-q", "/repo", c])
        moved = os.path.join(t, "demo")
        shutil.copytree(out, moved)
        r1 = sh(["bash", moved + "/demo.sh"], c)
        if r1.returncode: return "demo fails on the clean tree:\n" + r1.stdout[-3000:] + r1.stderr[-1500:]
        b = sh(["go", "build", "./..."], d)
        if b.returncode: return "build: " + b.stderr
        r2 = sh(["bash", moved + "/demo.sh"], d)
        if not r2.returncode: return "demo passes with the patch"
        if "--- FAIL" not in r2.stdout and "panic" not in r2.stdout + r2.stderr and "fatal error" not in r2.stdout + r2.stderr and "DATA RACE" not in r2.stdout: return "demo broken: " + r2.stdout[-2000:] + r2.stderr[-1000:]
        msg = [l for l in r2.stdout.split("\n") if "demo_test.go" in l][:1]
        res = "ok (%d/%d removed lines are original) %s" % (base, rem, msg)
        v = os.path.join(t, "v"); os.mkdir(v); shutil.copy(os.path.join(V, "known-findings.txt"), v)
        r = subprocess.run([os.path.join(V, "bin/goirverify"), "all"], env=dict(ENV, VERIF_REPO=d, VERIF_DIR=v), capture_output=True, text=True)
        got = sorted(set(re.findall(r"VIOLATION property=(\w+)", r.stdout)))
        res += " | caught by: " + " ".join(got) + ("" if h["property"] in got else "  <<< NOT BY " + h["property"])
        if tests:
            script = open("/opt/vp/test.sh").read().replace("/repo", d)
            tst = subprocess.run(["bash", "-c", script, "test.sh", t + "/out.json"], env=dict(ENV), capture_output=True, text=True)
            o = json.load(open(t + "/out.json"))
            res += " | " + tests_verdict(o)
        return res
    finally:
        shutil.rmtree(t)

args = [a for a in sys.argv[1:] if not a.startswith("--")]
import concurrent.futures as cf
ids = args or sorted(f[:-4] for f in os.listdir(os.path.join(V, "seeded-src")))
with cf.ThreadPoolExecutor(3) as ex:
    for i, r in zip(ids, ex.map(lambda s: make(s, "--notests" not in sys.argv), ids)):
        print(i, r, flush=True)
