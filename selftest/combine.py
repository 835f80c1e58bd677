"""Writes /tmp/combo/selftest/edits/combo.txt: random combinations of the rewrites (`same`) of selftest/edits, for a copy of run.py in
/tmp/combo/selftest.  combine.py SEED COUNT SIZE"""
import os,re,random,sys
D="/verif/selftest"; seed=int(sys.argv[1]); N=int(sys.argv[2]); K=int(sys.argv[3])
random.seed(seed)
out={}
for fn in sorted(os.listdir(D+"/edits")):
    txt=open(D+"/edits/"+fn).read()
    for sec in re.split(r"(?m)^=== ",txt)[1:]:
        head,rest=sec.split("\n",1); name,head=[x.strip() for x in head.split("|")]
        if head!='same': continue
        blocks=[]
        for b in re.split(r"(?m)^@@ ",rest)[1:]:
            f,body=b.split("\n",1)
            for e in re.split(r"(?m)^--- ?\n",body)[1:]:
                o,n=re.split(r"(?m)^\+\+\+ ?\n",e,maxsplit=1); blocks.append((f.strip(),o.rstrip("\n"),n.rstrip("\n")))
        out[fn[:-4]+'/'+name]=blocks
names=list(out)
big=[n for n in names if n.startswith('ref')]
def apply(files,blocks):
    f=dict(files)
    for fn,o,n in blocks:
        p='/repo/'+fn
        if fn not in f: f[fn]=open(p).read() if os.path.exists(p) else ""
        if o=="": f[fn]+=n+"\n"
        else:
            if f[fn].count(o)!=1: return None
            f[fn]=f[fn].replace(o,n)
    return f
res=[]
while len(res)<N:
    a=random.choice(big); fs={x[0] for x in out[a]}; dirs={os.path.dirname(x) for x in fs}
    cand=[n for n in names if n!=a and {x[0] for x in out[n]}&fs] 
    cand2=[n for n in big if n!=a and {os.path.dirname(x[0]) for x in out[n]}&dirs]
    cand+=cand2
    random.shuffle(cand)
    cur=apply({},out[a])
    if cur is None: continue
    chosen=[a]
    for n in cand:
        if n in chosen: continue
        nx=apply(cur,out[n])
        if nx is None: continue
        # no duplicate top-level funcs
        ok=True
        for fn,s in nx.items():
            d=re.findall(r"(?m)^func ((?:\([^)]*\) )?\w+)",s)
            if len(d)!=len(set(d)): ok=False
        if not ok: continue
        cur=nx; chosen.append(n)
        if len(chosen)==K: break
    if len(chosen)<2: continue
    s="=== c%d-%d | same\n"%(seed,len(res))
    for c in chosen:
        for fn,o,n in out[c]:
            s+="@@ %s\n---\n%s\n+++\n%s\n"%(fn,o,n)
    res.append((chosen,s))
open('/tmp/combo/selftest/edits/combo.txt','w').write("".join(x[1] for x in res))
open('/tmp/combo/map%d.txt'%seed,'w').write("".join("c%d-%d %s\n"%(seed,i,' '.join(x[0])) for i,x in enumerate(res)))
