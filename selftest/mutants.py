#!/usr/bin/env python3
"""Runs all checks on the changes analyzer/mutate makes and lists which no check reports.  mutants.py MUT.jsonl OUT [kinds...|@ FILE]"""
import difflib, json, os, random, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf
D = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
ANA = os.environ.get("ANA", os.path.join(os.path.dirname(D), "bin", "goirverify"))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off", HOME="/root", GOMAXPROCS="2")
src, dst, kinds = sys.argv[1], sys.argv[2], sys.argv[3:]
V = [json.loads(l) for l in open(src)]
if kinds and kinds[0] == "@":
    want = {l.split("\t")[0] for l in open(kinds[1])}
    V = [v for v in V if v["name"] in want]
elif kinds:
    V = [v for v in V if v["name"].split()[0] in kinds]
done = {}
if os.path.exists(dst):
    for l in open(dst):
        done[l.split("\t")[0]] = l
V = [v for v in V if v["name"] not in done]
random.seed(7)
random.shuffle(V)

def run(v):
    t = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        d = os.path.join(t, "repo")
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "disk_storage", "data*"))
        old = open(os.path.join(d, v["file"])).read()
        open(os.path.join(d, v["file"]), "w").write(v["content"])
        b = subprocess.run(["go", "build", "-gcflags=-e", "./" + os.path.dirname(v["file"])], cwd=d, env=ENV, capture_output=True, text=True)
        if b.returncode:
            return v["name"], "nobuild"
        w = os.path.join(t, "v")
        os.mkdir(w)
        shutil.copy(os.path.join(os.path.dirname(D), "known-findings.txt"), w)
        try:
            r = subprocess.run([ANA, "all"], env=dict(ENV, VERIF_REPO=d, VERIF_DIR=w), capture_output=True, text=True, timeout=400)
        except subprocess.TimeoutExpired:
            return v["name"], "TIMEOUT"
        got = sorted(set(re.findall(r"VIOLATION property=(\w+)", r.stdout)))
        if got:
            return v["name"], "caught " + " ".join(got)
        if r.returncode:
            return v["name"], "CRASH " + r.stderr[-300:].replace("\n", " ")
        df = [l for l in difflib.unified_diff(old.split("\n"), v["content"].split("\n"), n=0, lineterm="") if not l.startswith(("---", "+++", "@@"))]
        return v["name"], "SURVIVED " + " | ".join(x.replace("\t", " ").strip() for x in df)[:300]
    finally:
        shutil.rmtree(t, ignore_errors=True)

n = 0
with cf.ThreadPoolExecutor(int(os.environ.get("J", "7"))) as ex, open(dst, "a") as out:
    for name, res in ex.map(run, V):
        n += 1
        out.write(name + "\t" + res + "\n")
        out.flush()
print("ran", n)
