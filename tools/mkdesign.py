#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.in.md, tools/plan.json, the contracts, KNOWN_FINDINGS.txt, MANIFEST.json and seeded/."""
import json,os,glob,re
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
R=lambda f:open(os.path.join(V,f)).read()
plan=json.loads(R("tools/plan.json"))
props=[json.loads(l) for l in R("properties.jsonl").splitlines()]
man=json.loads(R("MANIFEST.json"))
na={x["property"]:x["reason"] for x in man["not_applicable"]}
out=[]
for p in props:
    i=p["id"]
    if i in na: continue
    hs=[];lib=set();bounded=[];thor=[]
    for f in sorted(glob.glob(os.path.join(V,"contracts",i,"*","*.go"))):
        s=open(f).read()
        for m in re.finditer(r"((?://.*\n)*)func (vh_\w+)",s):
            hs.append(m.group(2)[3:])
            if "//verif:bounded" in m.group(1): bounded.append(m.group(2)[3:])
            if "//verif:thorough" in m.group(1): thor.append(m.group(2)[3:])
        lib.add(os.path.basename(os.path.dirname(f)).replace("__","/"))
    out.append("**%s %s.** %s\nPackages %s; harnesses: %s.%s%s\n"%(i,p["title"],plan.get(i,""),", ".join(sorted(lib)),", ".join(hs),
      (" Bounded (not counted as proved): "+", ".join(bounded)+".") if bounded else "",(" Thorough tier only: "+", ".join(thor)+".") if thor else ""))
fnd=[l for l in R("KNOWN_FINDINGS.txt").splitlines() if l and not l.startswith("#")]
pl=["| bug | property | needs | caught |","|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V,"seeded","*","meta.json"))):
    m=json.load(open(d)); pl.append("| %s | %s | %s | %s |"%(os.path.basename(os.path.dirname(d)),m["property"],m["needs"].replace("|","/"),plan.get("caught",{}).get(os.path.basename(os.path.dirname(d)),"yes, by "+m["property"])))
t=R("tools/DESIGN.in.md")
t=t.replace("@FINDINGS@","\n".join("* "+l for l in fnd)).replace("@PROPS@","\n".join(out)).replace("@NA@","\n".join("* %s %s: %s"%(p["id"],p["title"],na[p["id"]]) for p in props if p["id"] in na)).replace("@PLANTS@","\n".join(pl))
open(os.path.join(V,"DESIGN.md"),"w").write(t)
