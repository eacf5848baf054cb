"""Engine G: translation validation of AmpGen's code generator.  An emitter linked with the current tree writes the generated code next to
an independent rendering of the same trees; engine B then compares both for all inputs."""
import os, re, subprocess, hashlib, shutil, time
import build, engineb
HERE=build.HERE
def emitter(src):
    so=build.ampgen_lib(); EG=os.path.join(HERE,"engineG")
    cmd=build.CXX+["-O1","-fno-access-control","-I"+os.path.join(HERE,"engineA")]+build.incdirs()
    obj=build.compile_one(os.path.join(EG,src),".o",cmd,extra_key=build.dir_hash(EG)+build.dir_hash(os.path.join(HERE,"engineA")))
    d=os.path.join(build.BUILD,"bin"); os.makedirs(d,exist_ok=True); exe=os.path.join(d,os.path.basename(obj)[:-2]+"-"+hashlib.sha256(so.encode()).hexdigest()[:8])
    if not os.path.exists(exe):
        tmp=exe+".tmp%d"%os.getpid(); build.run(["g++",obj,so,"-o",tmp,"-Wl,-rpath,"+os.path.dirname(so),"-lz3","-lgsl","-lgslcblas","-fopenmp","-ldl","-Wl,--unresolved-symbols=ignore-in-shared-libs","-Wl,-z,lazy"]); os.replace(tmp,exe)
    return exe
GXX=["g++","-std=c++17","-w","-fPIC","-O0","-fsyntax-only","-I"+engineb.EB,"-I"+os.path.join(engineb.EB,"h")]+build.DEFS
def split_cases(path):
    txt=open(path).read(); parts=re.split(r"//BEGIN (\S+)\n",txt); return parts[0],list(zip(parts[1::2],parts[2::2]))
def compile_failures(path,outdir):
    """generated code that does not compile: one goal per failing case (and a file without them)"""
    r=subprocess.run(GXX+build.incdirs()+[path],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode==0: return [],path
    head,cases=split_cases(path); bad=[]
    import concurrent.futures as cf
    def one(c):
        p=os.path.join(outdir,"case_%s.cpp"%c[0]); open(p,"w").write(head+c[1]); q=subprocess.run(GXX+build.incdirs()+[p],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True); return (c,p,q)
    with cf.ThreadPoolExecutor(build.NCPU) as ex:
        for c,p,q in ex.map(one,cases):
            if q.returncode!=0: bad.append({"id":c[0],"verdict":"sat","replayed":True,"detail":"the code generated for this expression does not compile","cex":p,"replay":"\n".join(l for l in q.stdout.split("\n") if "error" in l)[:400]})
            else: os.unlink(p)
    names={b["id"] for b in bad}; new=path[:-4]+"_ok.cpp"; open(new,"w").write(head+"".join("//BEGIN %s\n%s"%c for c in cases if c[0] not in names))
    return bad,new
def run(prop,comp,tier,outdir):
    exe=emitter(comp["emitter"]); gen=os.path.join(outdir,"generated"); os.makedirs(gen,exist_ok=True)
    cmd=[exe,gen]+(["thorough"] if tier=="thorough" else []); r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace",cwd=gen,timeout=300)
    if r.returncode!=0:
        open(os.path.join(outdir,"emitter.log"),"w").write("command: %s\nexit status %s\n%s"%(" ".join(cmd),r.returncode,r.stdout[-4000:]))
        if r.returncode==3: raise RuntimeError("emitter: "+r.stdout[-500:])
        return [{"id":"emission","verdict":"sat","replayed":True,"detail":"AmpGen's code generator terminates abnormally (exit status %s)"%r.returncode,"cex":os.path.join(outdir,"emitter.log"),"replay":r.stdout[-300:],"engine":"G","component":comp["emitter"]}]
    goals=[]; files=[f for f in sorted(os.listdir(gen)) if f.endswith(".cpp")]
    stop=False
    for f in files:
        bad,path=compile_failures(os.path.join(gen,f),outdir); goals+=bad
        if stop: continue
        gs=engineb.run(prop,dict(comp,harness=path,sources=comp.get("sources",[])),tier,outdir)
        for g in gs: g["component"]=f
        goals+=gs; stop=any(g.get("verdict")=="sat" and g.get("replayed") for g in goals)
    for g in goals: g["engine"]="G"
    return goals
