#!/usr/bin/env python3
"""Random first-order mutants of the Verus specification; reports which a check misses.
   vmutate.py PROP N SEED FILE...   (FILE below Splinter/src; BUDGET, PART, JOBS in the environment; scratch tree under /tmp/vmut.PID)"""
import sys,re,random,subprocess,os,shutil
from concurrent.futures import ThreadPoolExecutor
prop,n,seed,files=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]),sys.argv[4:]
budget=os.environ.get("BUDGET","8");jobs=int(os.environ.get("JOBS","3"))
repo="/repo/Splinter/src";rnd=random.Random(seed)
OPS=[(r"<=(?!>|=)",["<"]),(r" < ",[" <= "]),(r"(?<!=)>=",[">"]),(r" > ",[" >= "]),(r"==(?!>|=)",["!="]),(r"!=",["=="]),(r" \+ ",[" - "]),(r" - ",[" + "]),(r"(?<=\S) && ",[" || "]),(r"(?<=\S) \|\| ",[" && "]),(r"(?<![\w.\]#])0(?![\w.])",["1"]),(r"(?<![\w.])1(?![\w.])",["0","2"]),(r"\btrue\b",["false"]),(r"\bfalse\b",["true"]),
 (r"^(\s*)&&& .*;?$",["DROP&"]),(r"^(\s*)require .*;$",["DROPL"]),(r"^(\s*)update .*;$",["DROPL"]),(r"\bif (?=[\w!(])",["if !("]),(r"(?<=[(,:|&=] )!(?=\w)|(?<=[( ])!(?=\w+[.(])",[""]),(r"\.union_prefer_right\(",[".union_prefer_right_SWAP("]),(r"\.subrange\(0,",[".subrange(1,"]),(r"\.contains\(",[".NOT_contains("])]
def sites(f):
    out=[];txt=open(repo+"/"+f).read().split("\n");kind=None;depth=0;com=False;clause=False
    for i,l in enumerate(txt):
        s=l.strip()
        if com:
            if "*/" in s: com=False
            continue
        if s.startswith("/*"): com="*/" not in s; continue
        if s.startswith("//") or s.startswith("#["): 
            if s.startswith("#[inductive"): kind="proof"
            continue
        m=re.match(r"(?:pub(?:\([^)]*\))?\s+)?(?:(?:open|closed|broadcast|uninterp|tracked|const|unsafe)\s+)*(spec(?:\(checked\))?|proof|exec)?\s*fn\b",s)
        if m: kind="spec" if m.group(1) and m.group(1).startswith("spec") else ("proof" if kind!="proof" or m.group(1) else "proof"); clause=False
        m2=re.match(r"(transition|init|readonly|property)!\s*\{",s)
        if m2: kind="spec"
        if kind!="spec": continue
        if re.match(r"(requires|ensures|recommends|decreases)\b",s): clause=True
        if s.startswith("{") or s.endswith("{"): 
            if clause: clause=False; continue
        if clause or (m and "{" not in s): continue
        if re.match(r"(use|pub fields|fields|let ghost|reveal|pub enum|pub struct|enum)\b",s): continue
        code=l.split("//")[0].rstrip()
        if m: continue
        for pat,reps in OPS:
            for mm in re.finditer(pat,code):
                for r in reps:
                    if r=="DROP&": new=mm.group(1)+"&&& true"
                    elif r=="DROPL": new=mm.group(1)
                    elif r=="if !(":
                        t=re.match(r"(.*?)( *\{.*)$",code[mm.end():])
                        if not t or t.group(1).startswith("let "): continue
                        new=code[:mm.start()]+"if !("+t.group(1)+")"+t.group(2)
                    elif "SWAP" in r or "NOT_" in r: continue
                    else: new=code[:mm.start()]+r+code[mm.end():]
                    if r.startswith("DROP&") and (code.count("(")!=code.count(")") or code.count("{")!=code.count("}")): continue
                    if r=="DROPL" and "let " in code: continue
                    out.append((f,i,l,new))
    return out
allm=[m for f in files for m in sites(f)];tot=len(allm)
rnd.shuffle(allm);allm=allm[:n]
base=f"/tmp/vmut.{os.getpid()}";res={"miss":0,"inv":0}
def one(a):
    k,(f,i,l,new)=a
    d=f"{base}/{k}";os.makedirs(d+"/Splinter")
    subprocess.run(["cp","-as",repo,d+"/Splinter/src"],check=True)
    p=d+"/Splinter/src/"+f;src=open(repo+"/"+f).read().split("\n");src[i]=new
    os.remove(p);open(p,"w").write("\n".join(src))
    r=subprocess.run(["node","--stack-size=6500","/verif/dfy/run.js",prop,"quick","1",d+"/ev",d+"/rp"],env=dict(os.environ,REPO=d,BUDGET=budget,WORKERS=os.environ.get("WORKERS","2")),capture_output=True,text=True,timeout=600)
    o=r.stdout;st="caught" if "VIOLATION" in o else "MISSED"
    if st!="caught":
        q=re.search(r"inconclusive 2x (\w+: .*(?:expected|unexpected|not found|syntax).*)",o)
        if q: res["inv"]+=1
        else: res["miss"]+=1;print(f"{st} {f}:{i+1}\n   {l.strip()}\n   {new.strip()}",flush=True)
    shutil.rmtree(d)
with ThreadPoolExecutor(jobs) as ex: list(ex.map(one,enumerate(allm)))
print(f"{prop}: {len(allm)-res['miss']-res['inv']}/{len(allm)-res['inv']} caught ({res['inv']} do not compile; {tot} sites)")
shutil.rmtree(base,ignore_errors=True)
