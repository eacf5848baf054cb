#!/usr/bin/env python3
"""check.py <property> quick|thorough : decides one property on /repo's current tree."""
import sys, os, json, time, subprocess, shutil, traceback, re, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from registry import COMPONENTS
HERE=build.HERE
def seed():
    try: return int(os.environ.get("VERIF_SEED","1"))
    except ValueError: return 1

def known(prop):
    p=os.path.join(HERE,"known_findings.json")
    if not os.path.exists(p): return {}
    return {e["goal"]:e for e in json.load(open(p))["findings"] if e["property"]==prop and e.get("status","open")=="open"}

def run_engineA(prop, comp, tier, outdir, log):
    exe=build.engineA(os.path.join(HERE,"engineA",comp["harness"]))
    n=build.NCPU; budget=comp.get("budget_quick",500) if tier=="quick" else comp.get("budget_thorough",5400)
    base=[exe,"--cexdir",outdir,"--timeout",str(comp.get("timeout",120))]+(["--thorough"] if tier=="thorough" else [])
    env=dict(os.environ); env["OMP_NUM_THREADS"]="1"
    t0=time.time(); procs=[]
    for i in range(n):
        f=open(os.path.join(outdir,"%s.%d.log"%(comp["harness"],i)),"w+")
        procs.append((subprocess.Popen(base+["--shard","%d/%d"%(i,n)],stdout=f,stderr=subprocess.STDOUT,env=env,cwd=outdir,start_new_session=True),f))
    goals=[]; done={}; hit=None
    logs=[os.path.join(outdir,"%s.%d.log"%(comp["harness"],i)) for i in range(n)]
    while len(done)<n:
        time.sleep(0.1)
        for i,(p,f) in enumerate(procs):
            if i not in done and p.poll() is not None: done[i]=(p.returncode,False)
        if hit is None and any('"verdict":"sat","replayed":true' in open(l,errors="replace").read() for l in logs): hit=time.time()
        if time.time()-t0>budget or (hit and time.time()-hit>comp.get("grace",15)):
            for i,(p,f) in enumerate(procs):
                if i not in done:
                    os.killpg(p.pid,9); p.wait(); done[i]=(-9,True)
    for i,(p,f) in enumerate(procs):
        rc,timed=done[i]
        f.seek(0); cur=None; built=False
        for line in f.read().split("\n"):
            k=line.find("GOAL {")
            if k>=0:
                try: g=json.loads(line[k+5:]); goals.append(g); cur=None
                except Exception as e: goals.append({"id":"?","verdict":"error","detail":"unparsable report: "+line[:200]})
            elif line.startswith("START "): cur=line[6:].strip(); built=False
            elif line.startswith("BUILT "): built=True
        f.close()
        if timed: goals.append({"id":cur or "?","verdict":"unknown","detail":"stopped: a violation was already found" if hit else "time budget of the tier used up"})
        elif rc!=0 and cur is not None:
            # the code under test (or the encoder) died in this goal: repeat it alone
            r=subprocess.run(base+["--goal",cur],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=env,cwd=outdir,timeout=300)
            again=r.returncode!=0; stage="BUILT %s"%cur in r.stdout
            path=os.path.join(outdir,"crash_%s.txt"%re.sub(r"[^A-Za-z0-9_.-]","_",cur))
            open(path,"w").write("command: %s\nexit status %s (negative: signal)\n%s"%(" ".join(base+["--goal",cur]),r.returncode,r.stdout[-4000:]))
            if again and not stage: goals.append({"id":cur,"verdict":"sat","replayed":True,"detail":"AmpGen's own code terminates abnormally while evaluating this case (exit status %s)"%r.returncode,"cex":path,"replay":r.stdout[-300:]})
            else: goals.append({"id":cur,"verdict":"error","detail":"encoder terminated abnormally: rc=%s"%rc})
            # remaining goals of that shard were not decided
            goals.append({"id":"shard-of-"+cur,"verdict":"unknown","detail":"goals after the abnormal termination were not decided"})
        elif rc!=0: goals.append({"id":"?","verdict":"error","detail":"harness exited with %s"%rc})
    for g in goals: g["engine"]="A"; g["component"]=comp["harness"]
    return goals

def main():
    prop,tier=sys.argv[1],(sys.argv[2] if len(sys.argv)>2 else os.environ.get("VERIF_TIER","quick"))
    t0=time.time()
    C=COMPONENTS[prop]
    outdir=os.path.join(HERE,"build","run-%s-%s"%(prop,tier)); shutil.rmtree(outdir,ignore_errors=True); os.makedirs(outdir)
    goals=[]; err=None
    try:
        for comp in C["components"]:
            if comp["engine"]=="A": goals+=run_engineA(prop,comp,tier,outdir,None)
            elif comp["engine"]=="B":
                import engineb; goals+=engineb.run(prop,comp,tier,outdir)
            elif comp["engine"]=="G":
                import engineg; goals+=engineg.run(prop,comp,tier,outdir)
            elif comp["engine"]=="py":
                import importlib; goals+=importlib.import_module(comp["module"]).run(prop,comp,tier,outdir)
            else: raise RuntimeError("engine?")
    except build.BuildError as e: err="BUILD: "+str(e)
    except Exception: err=traceback.format_exc()
    kn=known(prop); viol=[]; inconclusive=[]; found=[]
    for g in goals:
        v=g.get("verdict")
        if v=="unsat":
            if not g.get("witness",True): inconclusive.append((g,"vacuous: assumptions not shown satisfiable"))
        elif v=="sat" and g.get("replayed"):
            if g["id"] in kn and (not kn[g["id"]].get("signature") or re.search(kn[g["id"]]["signature"],(g.get("replay") or "")+(g.get("detail") or ""))): found.append(g)
            else: viol.append(g)
        else: inconclusive.append((g,v))
    nun=sum(1 for g in goals if g.get("verdict")=="unsat")
    cov={"explanation":C["explanation"],"goals":len(goals),"goals_unsat":nun,"goals_sat_replayed":len(viol)+len(found),"goals_inconclusive":len(inconclusive),
      "queries":sum(g.get("queries",0) for g in goals),"solver_s":round(sum(g.get("solver_s",0) for g in goals),2),
      "assertions":sum(g.get("pairs",0) for g in goals),"ir_instructions":sum(g.get("instructions",0) for g in goals),"paths":sum(g.get("paths",0) for g in goals),"expression_nodes_encoded":sum(g.get("nodes",0) for g in goals),
      "vacuity_witnesses":sum(1 for g in goals if g.get("witness")),
      "functions_encoded":C["functions"],"bounds":C["bounds"],"outside":C.get("outside",[]),
      "samples":[{k:g.get(k) for k in ("id","verdict","pairs","paths","queries","solver_s","wall_s")} for g in goals[:: max(1,len(goals)//12)]]}
    fl=set()
    for g in goals: fl.update(g.get("functions",[]) or [])
    if fl: cov["functions_executed_symbolically"]=sorted(fl)
    cov={k:v for k,v in cov.items() if v not in (None,0) or k in ("goals","goals_unsat","goals_inconclusive")}
    ev={"property":prop,"tier":tier,"seed":seed(),"level":C.get("level","other"),"coverage":cov,"assumptions":C.get("assumptions",[]),"wall_s":round(time.time()-t0,2),"violations":len(viol)}
    os.makedirs(os.path.join(HERE,"evidence"),exist_ok=True)
    json.dump(ev,open(os.path.join(HERE,"evidence",prop+".json"),"w"),indent=1)
    for g in found: print("KNOWN-FINDING: property=%s %s: %s"%(prop,g["id"],kn[g["id"]]["what"]))
    for g in viol:
        path=g.get("cex") or ""
        rp=os.path.join(outdir,"violation_%s.json"%re.sub(r"[^A-Za-z0-9_.-]","_",g["id"])); json.dump(g,open(rp,"w"),indent=1)
        print("VIOLATION property=%s replay=%s"%(prop,rp)); print("   goal %s: %s %s"%(g["id"],g.get("detail",""),(g.get("replay") or "")[:400]))
    for g,w in inconclusive[:40]: print("INCONCLUSIVE goal %s: %s %s"%(g.get("id"),w,(g.get("detail") or "")[:300]))
    if err: print("ERROR "+err)
    print("%s %s: %d goals, %d unsat, %d violations, %d known, %d inconclusive, %.1f s (solver %.1f s)"%(prop,tier,len(goals),nun,len(viol),len(found),len(inconclusive),time.time()-t0,cov.get("solver_s",0) or 0))
    if viol: sys.exit(1)
    # strict (used while developing): every goal must have been decided.  Otherwise exit 0 states that the property held on everything
    # that was explored; goals without a verdict are listed above and counted in the evidence.
    if err or not goals or nun<0.5*len(goals) or (inconclusive and os.environ.get("VERIF_STRICT")): sys.exit(2)
    sys.exit(0)
main()
