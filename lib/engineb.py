"""Engine B driver: lowers /repo's sources and a harness to LLVM IR, builds the native image and runs the symbolic executor."""
import os, sys, json, subprocess, hashlib, time, shutil, concurrent.futures as cf
import build
HERE=build.HERE
EB=os.path.join(HERE,"engineB")
CLANG=["clang++-18" if shutil.which("clang++-18") else "clang++"]
IRFLAGS=["-std=c++17","-w","-fPIC","-O1","-fno-access-control","-DVERIF_IR=1","-fno-vectorize","-fno-slp-vectorize","-fno-unroll-loops","-fno-math-errno","-ffp-contract=off",
         "-include",os.path.join(EB,"inc","verif_std.h"),"-I"+EB,"-I"+os.path.join(EB,"h")]
def h(*xs):
    m=hashlib.sha256()
    for x in xs: m.update(x.encode() if isinstance(x,str) else x)
    return m.hexdigest()[:20]
def engine():
    src=build.dir_hash(EB)  # harnesses are hashed too; cheap enough
    key=h(*[open(os.path.join(EB,f),'rb').read() for f in sorted(os.listdir(EB)) if f.startswith("engine") or f=="sym.h"],open(os.path.join(HERE,"engineA","field_core.h"),'rb').read())
    d=os.path.join(build.BUILD,"bin"); os.makedirs(d,exist_ok=True); exe=os.path.join(d,"engineB-"+key)
    if not os.path.exists(exe):
        tmp=exe+".tmp%d"%os.getpid()
        build.run(["g++","-std=c++17","-O1","-w",os.path.join(EB,"engine.cpp"),"-o",tmp,"-I"+os.path.join(HERE,"engineA"),"-I"+EB,"-I/usr/lib/llvm-18/include","-L/usr/lib/llvm-18/lib","-lLLVM-18","-lz3","-ldl","-rdynamic"]); os.replace(tmp,exe)
    return exe
def replay_exe():
    src=os.path.join(EB,"replay.cpp"); key=h(open(src,'rb').read(),open(os.path.join(EB,"sym.h"),'rb').read()); d=os.path.join(build.BUILD,"bin"); os.makedirs(d,exist_ok=True); exe=os.path.join(d,"replayB-"+key)
    if not os.path.exists(exe):
        tmp=exe+".tmp%d"%os.getpid(); build.run(["g++","-std=c++17","-O0","-g","-w",src,"-o",tmp,"-I"+EB,"-ldl","-rdynamic"]); os.replace(tmp,exe)
    return exe
def bitcode(src, extra=()):
    """-> (.bc raw)"""
    inc=build.incdirs()
    own=src.startswith(HERE)
    m=hashlib.sha256(); m.update(open(src,'rb').read()); m.update(src.encode()); m.update(build.header_hash().encode()); m.update(" ".join(IRFLAGS+list(extra)+build.DEFS).encode()); m.update(build.dir_hash(os.path.join(EB,"inc")).encode()); m.update(build.dir_hash(os.path.join(HERE,"stubs")).encode()); m.update(open(os.path.join(EB,"sym.h"),'rb').read())
    if own:
        for f in sorted(os.listdir(os.path.join(EB,"h"))):
            if f.endswith(".h"): m.update(open(os.path.join(EB,"h",f),'rb').read())
    d=os.path.join(build.BUILD,"bc"); os.makedirs(d,exist_ok=True); base=os.path.join(d,os.path.basename(src)[:-4]+"-"+m.hexdigest()[:20])
    if not os.path.exists(base+".raw.bc"):
        tmp=base+".tmp%d.bc"%os.getpid(); build.run(CLANG+IRFLAGS+list(extra)+build.DEFS+inc+["-emit-llvm","-c",src,"-o",tmp]); os.replace(tmp,base+".raw.bc")
    return base
def prepared(base, eng):
    key=h(os.path.basename(eng)); bc,o=base+"-"+key[:8]+".bc",base+"-"+key[:8]+".o"
    if not os.path.exists(o):
        tag="m"+hashlib.sha256(base.encode()).hexdigest()[:10]; t=".tmp%d"%os.getpid()
        build.run([eng,"--prep",base+".raw.bc",bc+t,tag]); os.replace(bc+t,bc)
        build.run(["clang","-c","-O0","-fPIC","-w","-mavx2","-mfma","-x","ir",bc,"-o",o+t]); os.replace(o+t,o)
    return bc,o
def sources(names):
    allf=build.repo_sources(build.STUBBED)
    if names is None: return allf
    out=[]
    for f in allf:
        b=os.path.basename(f)[:-4]
        if b in names: out.append(f)
    return out
def hpath(harness): return harness if os.path.isabs(harness) else os.path.join(EB,"h",harness)
def prepare(harness, names=None, extra=(), verbose=False):
    srcs=sources(names)+[os.path.join(EB,"support.cpp"),os.path.join(HERE,"stubs","rootstub.cpp"),hpath(harness)]
    with cf.ThreadPoolExecutor(build.NCPU) as ex:
        fe=ex.submit(engine); fr=ex.submit(replay_exe)
        fb=[ex.submit(bitcode,s,extra) for s in srcs[::-1]]
        bases=[f.result() for f in fb]; eng=fe.result(); fr.result()
        pr=list(ex.map(lambda b: prepared(b,eng),bases))
    bcs=[p[0] for p in pr]; objs=[p[1] for p in pr]
    so=os.path.join(build.BUILD,"lib","eb-%s-%s.so"%(os.path.basename(harness)[:-4],h(*objs))); os.makedirs(os.path.dirname(so),exist_ok=True)
    if not os.path.exists(so):
        tmp=so+".tmp%d"%os.getpid(); build.run(["clang++","-shared","-Wl,-Bsymbolic","-Wl,-z,lazy","-o",tmp]+objs+["-lgsl","-lgslcblas","-lmvec","-lm","-ldl"]); os.replace(tmp,so)
    return eng,so,bcs
def replay_cmd(harness, tier, mem=True):
    """script that (on first use) builds the harness against the ordinary build of the code and replays there"""
    return "%s %s %s %s"%(sys.executable,os.path.join(HERE,"lib","engineb.py"),"--replay",harness)
def replay_lib(harness):
    so=build.ampgen_lib()
    cmd=build.CXX+["-O0","-g","-fno-access-control","-I"+EB,"-I"+os.path.join(EB,"h")]+build.incdirs()
    obj=build.compile_one(hpath(harness),".o",cmd,extra_key=build.dir_hash(os.path.join(EB,"h"))+build.dir_hash(os.path.join(EB,"inc")))
    out=os.path.join(build.BUILD,"lib","rp2-"+h(obj,so)+".so")
    if not os.path.exists(out):
        tmp=out+".tmp%d"%os.getpid(); build.run(["g++","-shared","-o",tmp,obj,so,"-Wl,-rpath,"+os.path.dirname(so),"-Wl,-z,lazy","-Wl,--no-as-needed","-lgsl","-lgslcblas","-lm"]); os.replace(tmp,out)
    return out
def do_replay(harness, goal, path, tier):
    import fcntl
    os.makedirs(build.BUILD,exist_ok=True)
    with open(os.path.join(build.BUILD,"replay.lock"),"w") as lk:
        fcntl.flock(lk,fcntl.LOCK_EX); lib=replay_lib(harness)
    exe=replay_exe()
    import resource
    def lim(): resource.setrlimit(resource.RLIMIT_AS,(6<<30,6<<30))
    try: r=subprocess.run([exe,lib,goal,path,str(tier)],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace",timeout=30,preexec_fn=lim)
    except subprocess.TimeoutExpired: print("REPLAY timed out"); return 3
    print(r.stdout[-600:])
    if r.returncode==3: return 3
    if r.returncode<0: print("REPLAY crashed with signal %d"%-r.returncode); return 3
    if "REPLAY held" in r.stdout:
        v=subprocess.run(["valgrind","-q","--error-exitcode=97","--exit-on-first-error=yes",exe,lib,goal,path,str(tier)],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace",timeout=300)
        if v.returncode==97: print("REPLAY memory error under valgrind:\n"+v.stdout[-500:]); return 3
        if v.returncode==3: print(v.stdout[-300:]); return 3
    return 0
def run(prop, comp, tier, outdir):
    harness=comp["harness"]
    eng,so,bcs=prepare(harness,comp.get("sources"),comp.get("extra",()))
    budget=comp.get("budget_quick",450) if tier=="quick" else comp.get("budget_thorough",5400)
    cmd=[eng,"--lib",so,"--harness",bcs[0],"--cexdir",outdir,"--jobs",str(build.NCPU),"--budget",str(budget),"--per-goal",str(comp.get("per_goal",budget)),"--qtimeout",str(comp.get("qtimeout",20000)),
         "--replayer",replay_cmd(harness,tier)+" "+("1" if tier=="thorough" else "0")]
    for b in bcs[1:]: cmd+=["--bc",b]
    if tier=="thorough": cmd.append("--thorough")
    env=dict(os.environ); env["OMP_NUM_THREADS"]="1"; env["LD_BIND_NOW"]=""
    log=os.path.join(outdir,os.path.basename(harness)+".log")
    with open(log,"w") as f:
        p=subprocess.Popen(cmd,stdout=f,stderr=subprocess.STDOUT,env=env,cwd=outdir,start_new_session=True); t0=time.time(); hit=None
        while p.poll() is None:
            time.sleep(0.2)
            if hit is None and '"verdict":"sat","replayed":true' in open(log,errors="replace").read(): hit=time.time()
            if (hit and time.time()-hit>comp.get("grace",10)) or time.time()-t0>budget+120:
                os.killpg(p.pid,9); p.wait()
    goals=[]
    for line in open(log,errors="replace"):
        k=line.find("GOAL {")
        if k>=0:
            try: goals.append(json.loads(line[k+5:]))
            except Exception: goals.append({"id":"?","verdict":"error","detail":"unparsable report "+line[:200]})
    want=subprocess.run(cmd+["--list"],stdout=subprocess.PIPE,text=True,env=env,cwd=outdir).stdout.split()
    have={g["id"] for g in goals}
    for w in want:
        if w.startswith("goal_") and w[5:] not in have: goals.append({"id":w[5:],"verdict":"unknown","detail":"stopped: a violation was already found" if hit else "no report"})
    for g in goals: g["engine"]="B"; g["component"]=harness
    return goals
if __name__=="__main__":
    if sys.argv[1]=="--replay": sys.exit(do_replay(sys.argv[2],sys.argv[4],sys.argv[5],int(sys.argv[3])))
