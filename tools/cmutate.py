#!/usr/bin/env python3
"""cmutate.py N SEED FILE…: mutate C++ files (relative to /repo) and see which of X01..X04 (env PROPS) report it."""
import os,random,re,shutil,subprocess,sys,tempfile
n,seed,files=int(sys.argv[1]),int(sys.argv[2]),sys.argv[3:]
rnd=random.Random(seed); base=tempfile.mkdtemp(dir="/tmp"); rng=os.environ.get("LINES")
for d in ("framework","lib/Lang"): shutil.copytree("/repo/"+d,base+"/"+d)
OPS=[(r"(?<![<>=!\-+])<=",["<"]),(r"(?<![<>=!\-+&])>=(?!=)",[">"]),(r"(?<![<\w>])\s<\s",[" <= "," >= "]),(r"\s>\s",[" >= "]),(r"==",["!="]),(r"!=",["=="]),(r"&&",["||"]),(r"\|\|",["&&"]),(r"\btrue\b",["false"]),(r"\bfalse\b",["true"]),(r"\s\+\s",[" - "]),(r"\s-\s",[" + "]),(r"\b(\d+)\b",["INC"]),(r"\+\+",["--"]),(r"!(?=[\w(])",[""]),(r"^\s+[^\s/{}#].*;\s*$",["DEL"]),(r"\bif \(",["if (!("]),(r"\bbreak;",["continue;"])]
sites=[]
for f in files:
    L=open("/repo/"+f).read().split("\n"); skip=0
    for i,l in enumerate(L):
        if re.match(r"#if(def)? ?(LOG_|VERBOSE|MALLOC|F_NOCACHE|__APPLE)",l.strip()): skip+=1
        elif skip and re.match(r"#(if|ifdef|ifndef)",l.strip()): skip+=1
        elif skip and re.match(r"#endif",l.strip()): skip-=1
        if skip or l.strip().startswith(("//","#","using","LOG","malloc_acc","return;")) or "fail(" in l or "cout" in l: continue
        if rng and not any(int(a)<=i+1<=int(b) for a,b in (x.split("-") for x in rng.split(","))): continue
        for k,(p,_) in enumerate(OPS):
            for m in re.finditer(p,l): sites.append((f,i,k,m.start(),m.end()))
rnd.shuffle(sites); caught=done=bad=0; byop={}
for f,i,k,a,b in sites:
    if done>=n: break
    L=open("/repo/"+f).read().split("\n"); l=L[i]; r=rnd.choice(OPS[k][1])
    if r=="INC": r=str(int(l[a:b])+1)
    if r=="DEL": nl=""
    elif r=="if (!(":
        if not l.rstrip().endswith(") {"): continue
        nl=l[:a]+r+l[b:].replace(") {",")) {",1) if l.count(")")==1 else l[:a]+r+l[b:].rstrip()[:-3]+")) {"
    else: nl=l[:a]+r+l[b:]
    L[i]=nl; open(base+"/"+f,"w").write("\n".join(L)); d=tempfile.mkdtemp(dir="/tmp"); env=dict(os.environ,REPO=base)
    try:
        if subprocess.run(["/verif/cxx/build.sh",d],env=env,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL).returncode: bad+=1; continue
        done+=1; hit=None
        for p in os.environ.get("PROPS","X01,X02,X03,X04").split(","):
            x=subprocess.run(["timeout","120","python3","/verif/cxx/run.py",p,"quick","1",d+"/ev.json",d,d],env=dict(env,BUDGET=os.environ.get("BUDGET","6"),WORKERS="6"),capture_output=True,text=True)
            if x.returncode==1: hit=p+": "+x.stdout.strip().split("\n")[-2]; break
        if hit: caught+=1; print("caught",f,i+1,hit[:140])
        else: print("MISSED",f,i+1,"\n  ",l.strip(),"\n  ",nl.strip())
        sys.stdout.flush()
    finally: shutil.rmtree(d); shutil.copy("/repo/"+f,base+"/"+f)
print("%d/%d caught (%d do not compile; %d sites)"%(caught,done,bad,len(sites))); shutil.rmtree(base)
