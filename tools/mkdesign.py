#!/usr/bin/env python3
"""Writes DESIGN.md: prose from here, bounds/functions/limits from lib/registry.py, titles from properties.jsonl, seeds from seeded/."""
import sys,os,json,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+"/lib")
from registry import COMPONENTS
P=[json.loads(l) for l in open(V+"/properties.jsonl")]
def flat(x):
    if isinstance(x,str): return x
    if isinstance(x,dict): return "; ".join("%s: %s"%(k,v) for k,v in x.items())
    return "; ".join(x)
HEAD=open(V+"/tools/design_head.md").read(); TAIL=open(V+"/tools/design_tail.md").read()
ORACLE=json.load(open(V+"/tools/design_oracle.json"))
out=[HEAD,"\n## 5. Property by property\n"]
for p in P:
    c=COMPONENTS.get(p["id"])
    out.append("### %s %s\n"%(p["id"],p["title"]))
    out.append("* **Engine**: "+", ".join("%s (`%s`)"%(k["engine"],("engineA/" if k["engine"]=="A" else "engineB/h/" if k["engine"]=="B" else "engineG/")+(k.get("harness") or k.get("emitter"))) for k in c["components"]))
    o=ORACLE[p["id"]]; out.append("* **Decided / oracle**: "+o[0]); out.append("* **Why tests cannot**: "+o[1])
    out.append("* **Code executed symbolically**: "+flat(c["functions"])); out.append("* **Bounds**: "+flat(c["bounds"])); out.append("* **Outside**: "+flat(c.get("outside",[]) or "-")); 
    out.append("")
out.append(TAIL)
k=json.load(open(V+"/known_findings.json"))["findings"]
out.append("\n## 7. Genuine defects found by the checks\n\nRepaired (one `fix:` commit each in /repo; recorded in known_findings.json, suppressing nothing):\n")
for f in k:
    if f["status"]=="fixed": out.append("* %s `%s` %s"%(f["property"],f["commit"],f["what"].split(f["commit"],1)[-1].strip()))
op=[f for f in k if f["status"]!="fixed"]
out.append("\nOpen (recorded, not repaired): "+("none." if not op else "")); 
for f in op: out.append("* %s goal `%s`: %s"%(f["property"],f["goal"],f["what"]))
out.append("\n## 8. Planted changes (seeded/)\n\nEach was confirmed in a scratch copy: it builds, passes the 28 stable tests, its demonstration fails with it and passes without it.\n\n| id | property | needs | breaks | caught by |\n|---|---|---|---|---|")
for d in sorted(glob.glob(V+"/seeded/*")):
    m=json.load(open(d+"/meta.json")); out.append("| %s | %s | %s | %s | %s |"%(os.path.basename(d),m["property"],m["needs"],m["what_it_breaks"],m.get("caught_by",m["property"])))
open(V+"/DESIGN.md","w").write("\n".join(out)+"\n")
