#!/usr/bin/env python3
"""Runs all checks on the rewrites analyzer/refac makes; they must stay quiet.  refac.py REFAC.jsonl OUT.json [kinds...]"""
import json, os, random, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf
D = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
ANA = os.environ.get("ANA", os.path.join(os.path.dirname(D), "bin", "goirverify"))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off", HOME="/root", GOMAXPROCS="2")
src, dst, kinds = sys.argv[1], sys.argv[2], sys.argv[3:]
V = [json.loads(l) for l in open(src)]
if kinds and kinds[0] == "@":
    want = {l.split("\t")[0] for l in open(kinds[1])}
    V = [v for v in V if v["name"] in want]
elif kinds:
    V = [v for v in V if v["name"].split()[0] in kinds]
done = {}
if os.path.exists(dst) and not os.environ.get("AGAIN"):
    for l in open(dst):
        done[l.split("\t")[0]] = l
V = [v for v in V if v["name"] not in done]
random.seed(5)
random.shuffle(V)

def run(v):
    t = tempfile.mkdtemp(prefix="refac.", dir="/tmp")
    try:
        d = os.path.join(t, "repo")
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "disk_storage", "data*"))
        open(os.path.join(d, v["file"]), "w").write(v["content"])
        w = os.path.join(t, "v")
        os.mkdir(w)
        shutil.copy(os.path.join(os.path.dirname(D), "known-findings.txt"), w)
        r = subprocess.run([ANA, "all"], env=dict(ENV, VERIF_REPO=d, VERIF_DIR=w), capture_output=True, text=True)
        got = sorted(set(re.findall(r"VIOLATION property=(\w+)", r.stdout)))
        if not got and r.returncode == 0:
            return v["name"], "ok"
        b = subprocess.run(["go", "vet", "-printf=false", "./..."], cwd=d, env=ENV, capture_output=True, text=True)
        b = subprocess.run(["go", "build", "-gcflags=-e", "./..."], cwd=d, env=ENV, capture_output=True, text=True)
        if b.returncode:
            return v["name"], "nobuild " + b.stderr.replace("\n", " ")[:200]
        rules = re.findall(r"(?m)^rule (.*)$", r.stdout)
        return v["name"], "ALARM " + " ".join(got) + " :: " + " || ".join(x[:160] for x in rules[:3]) + (r.stderr[-200:].replace("\n", " ") if not got else "")
    finally:
        shutil.rmtree(t, ignore_errors=True)

n = 0
with cf.ThreadPoolExecutor(int(os.environ.get("J", "7"))) as ex, open(dst, "a") as out:
    for name, res in ex.map(run, V):
        n += 1
        out.write(name + "\t" + res + "\n")
        out.flush()
print("ran", n)
