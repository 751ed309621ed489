#!/usr/bin/env python3
"""Assembles DESIGN.md from design/*.md and the property, configuration and seeded-bug files."""
import json,os,glob,re
here=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
P=[json.loads(l) for l in open(here+"/properties.jsonl")]
cfg=json.load(open(here+"/props.json"))
D=json.load(open(here+"/design/per_property.json"))
o=open(here+"/design/head.md").read()
o+="\n## Per property\n\n"
for p in P:
    i=p["id"]
    o+="**%s %s.** "%(i,p["title"])
    o+=D.get(i,"Value-graph comparison of the functions below with their references.")
    if i in cfg:
        c=cfg[i]
        bits=[]
        if c.get("files"): bits.append("all reference functions of "+", ".join("`%s`"%f for f in c["files"]))
        if c.get("fns"): bits.append("%d further function patterns"%len(c["fns"]))
        if c.get("tables"): bits.append("tables "+", ".join("`%s`"%t for t in c["tables"]))
        if c.get("consts"): bits.append("named constants of "+", ".join(c["consts"]))
        if c.get("extra"): bits.append("structural analyses "+", ".join("`%s`"%t for t in c["extra"]))
        if bits: o+=" *Analysed:* "+"; ".join(bits)+"."
    o+="\n\n"
o+=open(here+"/design/tail.md").read()
rows=[]
st={}
if os.path.exists(here+"/design/caught.json"): st=json.load(open(here+"/design/caught.json"))
o+="\n## Planted bugs (`/verif/seeded`)\n\n| bug | property | what it breaks | needs | checks that report it |\n|---|---|---|---|---|\n"
for f in sorted(glob.glob(here+"/seeded/*/meta.json")):
    m=json.load(open(f)); b=os.path.basename(os.path.dirname(f))
    o+="| %s | %s | %s | %s | %s |\n"%(b,m["property"],m["what_it_breaks"].replace("|","/"),m["needs"].replace("|","/")," ".join(st.get(b,["not run"])) or "none")
fx={}
for l in open(here+"/known_findings.txt"):
    m=re.match(r"fixed: property=(\S+)",l)
    if m: fx[m.group(1)]=fx.get(m.group(1),0)+1
o+="\n## Defects repaired\n\n%d `fix:` commits, listed one by one with what failed in `known_findings.txt`. By property: %s.\n"%(sum(fx.values()),", ".join("%s %d"%(k,fx[k]) for k in sorted(fx)))
o+="\n## Defects recorded, not repaired\n\n"
for l in open(here+"/known_findings.txt"):
    m=re.match(r"known: property=(\S+) (?:at|fn)=(\S+) (.*)",l)
    if m: o+="* %s, `%s`: %s.\n"%m.groups()
open(here+"/DESIGN.md","w").write(o)
