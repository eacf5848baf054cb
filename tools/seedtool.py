#!/usr/bin/env python3
"""seedtool.py new ID PROP file 's/old/new/' ... ; seedtool.py verify ID [check ids..]
Works on a scratch copy /tmp/seedrepo of /repo's HEAD (built once, with its own build directory)."""
import sys, os, subprocess, json, shutil
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S="/tmp/seedrepo"
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def fresh():
    if not os.path.exists(S): r=sh("git clone -q /repo %s"%S); 
    r=sh("cd %s && git checkout -q -- . && git fetch -q origin && git reset -q --hard origin/HEAD"%S); assert r.returncode==0,r.stdout
def build():
    s=open("/opt/vp/build.sh").read().replace("/repo",S)
    return sh(s,executable="/bin/bash")
def tests():
    sh("rm -rf %s/_build/vp; mkdir -p %s/_build/vp"%(S,S))
    r=sh("python3 /opt/vp/run_boost.py %s/test %s/_build/bin/test %s/_build/vp"%(S,S,S))
    base=set(json.load(open("/opt/vp/BASELINE.json")).get("stable",[]) or [])
    ok=[l[5:] for l in r.stdout.split("\n") if l.startswith("PASS ")]; bad=[l for l in r.stdout.split("\n") if l.startswith("FAIL ")]
    return ok,bad
def demo(d): return sh("cd %s && timeout 300 bash %s/demo.sh"%(S,d))
def verify(id,checks):
    d=os.path.join(V,"seeded",id); fresh(); b=build(); assert b.returncode==0,b.stdout[-3000:]
    r=demo(d); clean=r.returncode; print(id,"demo clean",clean,r.stdout[-300:] if clean else "")
    a=sh("cd %s && git apply %s/patch.diff"%(S,d)); assert a.returncode==0,a.stdout
    b=build(); print(id,"build",b.returncode,b.stdout[-2000:] if b.returncode else "")
    ok,bad=tests(); print(id,"tests pass %d fail %s"%(len(ok),bad))
    r=demo(d); print(id,"demo patched",r.returncode,r.stdout[-200:].strip())
    env=dict(os.environ,VERIF_REPO=S)
    for c in checks or [json.load(open(d+"/meta.json"))["property"]]:
        r=subprocess.run(["python3",V+"/lib/check.py",c,"quick"],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=env)
        v=[l for l in r.stdout.split("\n") if l.startswith(("VIOLATION","INCONCL","ERROR","   goal"))]
        print(id,"check",c,"rc",r.returncode,"|",r.stdout.strip().split("\n")[-1]); print("    "+"\n    ".join(x[:200] for x in v[:4]))
    fresh()
if sys.argv[1]=="verify": 
    for i in sys.argv[2].split(","): verify(i,sys.argv[3:])
