#!/usr/bin/env python3
"""mutate.py LIST.py [filter]: applies each (name, property, file, old, new[, count]) to a scratch clone and runs the property's check on it."""
import sys,os,subprocess,runpy,time
S="/tmp/mutrepo"; V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
if not os.path.exists(S): sh("git clone -q /repo "+S)
M=runpy.run_path(sys.argv[1])["M"]; flt=sys.argv[2] if len(sys.argv)>2 else ""
for m in M:
    if flt and flt not in m[0] and flt!=m[1]: continue
    sh("cd %s && git checkout -q -- . && git fetch -q origin && git reset -q --hard origin/HEAD"%S)
    p=os.path.join(S,m[2]); s=open(p).read()
    if s.count(m[3])<1: print(m[0],"OLD TEXT NOT FOUND",flush=True); continue
    k=m[5] if len(m)>5 else 0; parts=s.split(m[3]); s=m[3].join(parts[:k+1])+m[4]+m[3].join(parts[k+1:]); open(p,"w").write(s)
    t=time.time(); r=subprocess.run(["python3",V+"/lib/check.py",m[1],"quick"],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=dict(os.environ,VERIF_REPO=S))
    v=[l for l in r.stdout.split("\n") if "goal " in l][:1]; last=r.stdout.strip().split("\n")[-1]
    print("%-28s %s rc=%d %3ds %s"%(m[0],m[1],r.returncode,time.time()-t,{1:"CAUGHT ",0:"MISSED "}.get(r.returncode,"NOANSWER ")+((v[0].strip()[:90]) if r.returncode==1 else last[:160])),flush=True)
