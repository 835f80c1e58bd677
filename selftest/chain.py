"""Applies random chains of the rewrites of analyzer/refac (built to /tmp/refacbin) and runs the checks on the result, which must
stay quiet.  ANA=... chain.py SEED COUNT LENGTH OUT"""
import json,os,random,re,shutil,subprocess,sys,tempfile,concurrent.futures as cf
ANA=os.environ['ANA']; seed=int(sys.argv[1]); N=int(sys.argv[2]); K=int(sys.argv[3]); OUT=sys.argv[4]
ENV=dict(os.environ,GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=readonly",GOWORK="off",HOME="/root",GOMAXPROCS="2")
def run(i):
    r=random.Random(seed*1000+i)
    t=tempfile.mkdtemp(prefix="chain.",dir="/tmp"); d=t+"/repo"
    shutil.copytree("/repo",d,ignore=shutil.ignore_patterns(".git","disk_storage","data*"))
    names=[]; focus=None
    try:
        for k in range(K):
            p=subprocess.run(["/tmp/refacbin",d],env=dict(ENV,VERIF_REPO=d),capture_output=True,text=True)
            V=[json.loads(l) for l in p.stdout.splitlines() if l.startswith('{')]
            if not V: return names,"norefac "+p.stderr[-300:],None
            if focus is None: focus=r.choice(sorted({v['file'] for v in V}))
            W=[v for v in V if v['file']==focus] if r.random()<0.8 else V
            if not W: W=V
            kind=r.choice(sorted({v['name'].split()[0] for v in W}))
            v=r.choice([x for x in W if x['name'].split()[0]==kind])
            pth=os.path.join(d,v['file']); old=open(pth).read(); open(pth,'w').write(v['content'])
            b=subprocess.run(["go","build","-gcflags=-e","./..."],cwd=d,env=ENV,capture_output=True,text=True)
            if b.returncode: open(pth,'w').write(old)
            else: names.append(v['name'])
        w=t+"/v"; os.mkdir(w); shutil.copy("/verif/known-findings.txt",w)
        q=subprocess.run([ANA,"all"],env=dict(ENV,VERIF_REPO=d,VERIF_DIR=w),capture_output=True,text=True)
        got=sorted(set(re.findall(r"VIOLATION property=(\w+)",q.stdout)))
        if not got and q.returncode==0: return names,"ok",None
        keep="/tmp/chains/%d-%d"%(seed,i); shutil.rmtree(keep,ignore_errors=True); shutil.copytree(d,keep)
        rules=re.findall(r"(?m)^rule (.*)$",q.stdout)
        return names,"ALARM "+" ".join(got)+" :: "+" || ".join(x[:200] for x in rules[:4])+q.stderr[-200:],keep
    finally: shutil.rmtree(t,ignore_errors=True)
os.makedirs("/tmp/chains",exist_ok=True)
with cf.ThreadPoolExecutor(int(os.environ.get("J","6"))) as ex, open(OUT,"a") as out:
    for i,(n,res,keep) in zip(range(N),ex.map(run,range(N))):
        out.write("%d-%d\t%s\t%s\n"%(seed,i,res,";".join(n))); out.flush()
