#!/usr/bin/env python3
"""Random first-order mutants of Dafny files; reports which a check misses.
   mutate.py PROP N SEED FILE...   (runs dfy/run.js on a scratch tree of symlinks under /tmp/mut.PID)"""
import sys,re,random,subprocess,os,shutil
prop,n,seed,files=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]),sys.argv[4:]
budget=os.environ.get("BUDGET","6")
repo="/repo"; rnd=random.Random(seed)
OPS=[(r"<=",["<"]),(r" < ",[" <= "]),(r">=",[">"]),(r" > ",[" >= "]),(r"==(?!>)",["!="]),(r"!=",["=="]),(r" \+ ",[" - "]),(r" - ",[" + "]),(r"(?<=\S) && ",[" || "]),(r"(?<=\S) \|\| ",[" && "]),(r"^(\s*)&& .*$",["DROP"]),(r"(?<![\w.])0(?![\w.])",["1"]),(r"(?<![\w.])1(?![\w.])",["0","2"]),(r"\btrue\b",["false"]),(r"\bfalse\b",["true"]),(r" && ![\w]",None),(r"if (?=[\w!(])",["if !("]) ]
def sites(f):
    out=[];kind=None;txt=open(repo+"/"+f).read().split("\n");com=False;spec=False
    for i,l in enumerate(txt):
        s=l.strip()
        if com:
            if "*/" in s: com=False
            continue
        if s.startswith("/*"):
            com="*/" not in s; continue
        m=re.match(r"(?:(?:static|twostate|ghost|protected|linear|shared|inout)\s+)*(lemma|function|predicate|method|module|datatype|type|class|import|export|const|newtype|abstract|constructor|iterator|linear datatype)\b",s)
        if m: kind="lemma" if "lemma" in s.split("(")[0] or (s.startswith("ghost method")) else m.group(1); spec=True
        if kind in("lemma","module","import","export","abstract") or s.startswith("//"): continue
        if re.match(r"(requires|ensures|invariant|decreases|assert|reveal|reads|modifies|calc|ghost var|free|type|newtype)\b",s): continue
        if kind in("function","predicate","method") and m and not("{" in l and "}" in l): continue
        code=l.split("//")[0]
        if re.match(r"\w*(lemma|reveal_)\w*",s): continue
        for pat,reps in OPS:
            if reps is None: continue
            for mm in re.finditer(pat,code):
                for r in reps:
                    new=code[:mm.start()]+r+code[mm.end():]
                    if r=="DROP": new=mm.group(1)+"&& true"
                    if r=="if !(":
                        t=re.match(r"(.*?)( then\b.*| *\{.*)$",new[mm.start()+5:])
                        if not t: continue
                        new=new[:mm.start()+5]+t.group(1)+")"+t.group(2)
                    out.append((f,i,l,new))
    return out
allm=[m for f in files for m in sites(f)]
rnd.shuffle(allm); allm=allm[:n]
d=f"/tmp/mut.{os.getpid()}"
subprocess.run(["cp","-as",repo,d],check=True)
miss=inv=0
for f,i,l,new in allm:
    p=d+"/"+f; src=open(repo+"/"+f).read().split("\n"); src[i]=new
    os.remove(p); open(p,"w").write("\n".join(src))
    r=subprocess.run(["node","--stack-size=6500","/verif/dfy/run.js",prop,"quick","1",d+".ev",d+".rp"],env=dict(os.environ,REPO=d,BUDGET=budget),capture_output=True,text=True,timeout=400)
    o=r.stdout
    ok="VIOLATION" in o
    if not ok and re.search(r"inconclusive \d+x (?!contracts)\w+: |\b0 cases",o): inv+=1; os.remove(p); os.symlink(repo+"/"+f,p); continue
    st="caught" if ok else ("caught?" if r.returncode not in(0,) else "MISSED")
    if st!="caught": miss+=1; print(f"{st} {f}:{i+1}\n   {l.strip()}\n   {new.strip()}",flush=True)
    os.remove(p); os.symlink(repo+"/"+f,p)
print(f"{prop}: {len(allm)-miss-inv}/{len(allm)-inv} caught ({inv} do not compile)")
shutil.rmtree(d)
for x in(d+".ev",): 
    if os.path.exists(x): os.remove(x)
shutil.rmtree(d+".rp",ignore_errors=True)
