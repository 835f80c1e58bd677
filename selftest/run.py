#!/usr/bin/env python3
"""Development self-test of the analyzer: applies small edits to scratch copies of /repo and compares the verdicts.
   run.py [bugs|same|all] [name-prefix]
edits/*.txt hold sections `=== <name> | bug: C01 C05` (properties that must report) or `=== <name> | same` (none may),
each followed by blocks   @@ file / --- / old / +++ / new   (exact text, must occur once; empty old appends)."""
import os, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf
D = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
ANA = os.environ.get("ANA", os.path.join(os.path.dirname(D), "bin", "goirverify"))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off", HOME="/root")

def load():
    out = {}
    for fn in sorted(os.listdir(os.path.join(D, "edits"))):
        txt = open(os.path.join(D, "edits", fn)).read()
        for sec in re.split(r"(?m)^=== ", txt)[1:]:
            head, rest = sec.split("\n", 1)
            name, head = [x.strip() for x in head.split("|")]
            name = fn[:-4] + "/" + name
            assert name not in out, name
            blocks = []
            for b in re.split(r"(?m)^@@ ", rest)[1:]:
                f, body = b.split("\n", 1)
                for e in re.split(r"(?m)^--- ?\n", body)[1:]:
                    old, new = re.split(r"(?m)^\+\+\+ ?\n", e, maxsplit=1)
                    blocks.append((f.strip(), old.rstrip("\n"), new.rstrip("\n")))
            out[name] = (head, blocks)
    return out
EDITS = load()

def run(name):
    head, blocks = EDITS[name]
    t = tempfile.mkdtemp(prefix="self.", dir="/tmp")
    try:
        d = os.path.join(t, "repo")
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "disk_storage", "data*"))
        for fn, old, new in blocks:
            p = os.path.join(d, fn)
            s = open(p).read() if os.path.exists(p) else ""
            if old == "":
                s = s + new + "\n"
            else:
                if s.count(old) != 1:
                    return name, head, "EDIT: %d occurrences of %r in %s" % (s.count(old), old[:60], fn), ""
                s = s.replace(old, new)
            open(p, "w").write(s)
        b = subprocess.run(["go", "build", "-gcflags=-e", "./..."], cwd=d, env=ENV, capture_output=True, text=True)
        if b.returncode:
            return name, head, "BUILD: " + b.stderr[:600], ""
        v = os.path.join(t, "v")
        os.mkdir(v)
        shutil.copy(os.path.join(os.path.dirname(D), "known-findings.txt"), v)
        r = subprocess.run([ANA, "all"], env=dict(ENV, VERIF_REPO=d, VERIF_DIR=v), capture_output=True, text=True)
        got = sorted(set(re.findall(r"VIOLATION property=(\w+)", r.stdout)))
        if "KNOWN-FINDING" not in r.stdout: pass
        if head == "same":
            return name, head, "ok" if not got and r.returncode == 0 else "FALSE ALARM " + " ".join(got), r.stdout
        want = head.split(":")[1].split()
        miss = [w for w in want if w not in got]
        return name, head, ("ok " if not miss else "MISSED " + " ".join(miss) + "; got ") + " ".join(got), r.stdout
    finally:
        shutil.rmtree(t)

def main():
    which = sys.argv[1] if len(sys.argv) > 1 else "all"
    pre = sys.argv[2] if len(sys.argv) > 2 else ""
    names = sorted(n for n in EDITS if n.startswith(pre) and (which == "all" or (which == "same") == (EDITS[n][0] == "same")))
    bad = 0
    with cf.ThreadPoolExecutor(int(os.environ.get("J", "7"))) as ex:
        for name, head, res, out in ex.map(run, names):
            if which == "bugs" and head == "same" or which == "same" and head != "same":
                continue
            if not res.startswith("ok"):
                bad += 1
            print(("    " if res.startswith("ok") else "BAD ") + name, "|", head, "|", res)
            if not res.startswith("ok") and pre:
                print(out)
    print("bad:", bad)
    sys.exit(bad > 0)
main()
