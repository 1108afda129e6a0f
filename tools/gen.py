#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the tools/props_*.py tables."""
import json, os, glob, importlib.util
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
props=[];checks=[];na=[]
for f in sorted(glob.glob(here+"/props_*.py")):
    sp=importlib.util.spec_from_file_location(os.path.basename(f)[:-3],f); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    for p in m.PROPS:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        a=dict(files=p["files"],mechanism=[dict(name=n,where=w) for n,w in p["mech"]])
        if p.get("observe"): a["observe_at"]=p["observe"]
        props.append(dict(id=p["id"],title=p["title"],statement=p["statement"],quantifier=dict(over=p["over"],text=p["text"]),why_tests_cant=p["why"],anchors=a))
        if p["id"] in m.CHECKS:
            checks.append(dict(property=p["id"],quick_cmd=f"./check {p['id']} quick",thorough_cmd=f"./check {p['id']} thorough",technique=m.TECH[p["id"]],level="exploration",level_note=m.CHECKS[p["id"]]))
        else:
            na.append(dict(property=p["id"],reason=getattr(m,"NA",{}).get(p["id"],"check not built yet")))
ids=[p["id"] for p in props]; assert len(ids)==len(set(ids))
open(root+"/properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in props))
M=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,notes="./check PROP TIER builds what it needs from /repo's working tree under /verif/build (ignored by git) and writes evidence/PROP.json; replay files go to /verif/replays.")
json.dump(M,open(root+"/MANIFEST.json","w"),indent=1); open(root+"/MANIFEST.json","a").write("\n")
import subprocess
try:
    import jsonschema
    jsonschema.validate(M,json.load(open("/root/.vp/MANIFEST.schema.json")))
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in props: jsonschema.validate(p,s)
    print("valid:",len(props),"properties",len(checks),"checks",len(na),"not applicable")
except ImportError: print("no jsonschema (use python3-vt)")
