"""Builds /repo's current sources (out of tree) for the checks.  Content-hash cached under /verif/build."""
import hashlib, os, subprocess, sys, glob, shutil, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
NCPU = os.cpu_count() or 8
# sources that need ROOT (not installed here, not part of the build that passes the tests)
ROOTSRC = set("BinDT Chi2Estimator CoherentSum DalitzIntegrator DiscreteDistribution ErrorPropagator EventList EventListSIMD EventType "
  "ExpressionParser FastDT FitFraction Generator IncoherentSum Integrator Kinematics LASSO MatrixElement PartialWidthConstraint PhaseSpace "
  "PolarisedSum Projection RecursivePhaseSpace ThreeBodyCalculators TreePhaseSpace TreeReader Minimiser FitResult".split())
DEFS = ['-DENABLE_AVX=1','-DINSTRUCTION_SET=2','-DUSE_MVEC=1','-mavx2','-mfma','-DHAVE_AVX2_INSTRUCTIONS','-DAMPGENROOT="%s"'%REPO,
        '-DAMPGENROOT_CMAKE="/nonexistent"','-DAMPGEN_CXX="/usr/bin/g++"','-DAMPGEN_CXX_FLAGS=""','-DAMPGEN_OPENMP_FLAGS=""','-DENABLE_FITTING=OFF']

class BuildError(Exception): pass

def repo_sources(extra=()):
    out=[]
    for f in sorted(glob.glob(REPO+"/src/**/*.cpp", recursive=True)):
        b=os.path.basename(f)[:-4]
        if b in ROOTSRC and b not in extra: continue
        out.append(f)
    return out

_hdr=None
def header_hash():
    global _hdr
    if _hdr is None:
        h=hashlib.sha256()
        for f in sorted(glob.glob(REPO+"/AmpGen/**/*", recursive=True))+sorted(glob.glob(REPO+"/src/**/*.h",recursive=True)):
            if os.path.isfile(f): h.update(f.encode()); h.update(open(f,'rb').read())
        _hdr=h.hexdigest()
    return _hdr
def dir_hash(d):
    h=hashlib.sha256()
    for f in sorted(glob.glob(d+"/**/*", recursive=True)):
        if os.path.isfile(f): h.update(f.encode()); h.update(open(f,'rb').read())
    return h.hexdigest()

# of those, the ones that compile against the stand-in ROOT headers in /verif/stubs
STUBBED = ("ExpressionParser","EventType","Kinematics","PhaseSpace","TreePhaseSpace","RecursivePhaseSpace","DiscreteDistribution","MatrixElement","Integrator")
def incdirs():
    gen=os.path.join(BUILD,"gen"); os.makedirs(gen,exist_ok=True)
    p=os.path.join(gen,"AmpGenVersion.h")
    if not os.path.exists(p):
        with open(p+".%d"%os.getpid(),"w") as f: f.write("#define AMPGEN_MAJOR_VERSION 2\n#define AMPGEN_MINOR_VERSION 5\n")
        os.replace(p+".%d"%os.getpid(),p)
    return ["-I"+REPO,"-I"+gen,"-I"+os.path.join(HERE,"stubs")]

def run(cmd, timeout=600):
    r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout)
    if r.returncode!=0: raise BuildError("command failed: %s\n%s"%(" ".join(cmd),r.stdout[-4000:]))
    return r.stdout

def compile_one(src, out_suffix, cmd, extra_key=""):
    """cmd: list without -c/-o. returns path of the product"""
    h=hashlib.sha256(); h.update(open(src,'rb').read()); h.update(src.encode()); h.update(header_hash().encode()); h.update(" ".join(cmd).encode()); h.update(extra_key.encode())
    d=os.path.join(BUILD,"obj"); os.makedirs(d,exist_ok=True)
    out=os.path.join(d,os.path.basename(src)[:-4]+"-"+h.hexdigest()[:20]+out_suffix)
    if not os.path.exists(out):
        tmp=out+".tmp%d"%os.getpid()+out_suffix
        run(cmd+["-c",src,"-o",tmp]); os.replace(tmp,out)
    return out

def compile_many(srcs, out_suffix, cmd, extra_key=""):
    with cf.ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(lambda s: compile_one(s,out_suffix,cmd,extra_key), srcs))

CXX=["g++","-std=c++17","-w","-fPIC","-fopenmp"]+DEFS
def ampgen_lib(opt="-O0"):
    """shared library of all ROOT-free sources of the current tree"""
    cmd=CXX+[opt]+incdirs()
    objs=compile_many(repo_sources(STUBBED)+[os.path.join(HERE,"stubs","rootstub.cpp")],".o",cmd,extra_key=dir_hash(os.path.join(HERE,"stubs")))
    key=hashlib.sha256(("".join(objs)).encode()).hexdigest()[:20]
    d=os.path.join(BUILD,"lib"); os.makedirs(d,exist_ok=True)
    so=os.path.join(d,"libAmpGenV-%s.so"%key)
    if not os.path.exists(so):
        tmp=so+".tmp%d"%os.getpid()
        run(["g++","-shared","-o",tmp]+objs+["-lgsl","-lgslcblas","-lmvec","-fopenmp","-ldl"]); os.replace(tmp,so)
    return so

def engineA(harness, opt="-O0"):
    """harness: path of a .cpp in /verif/engineA; compiles against the current library"""
    so=ampgen_lib()
    cmd=CXX+["-O1","-fno-access-control","-I"+os.path.join(HERE,"engineA")]+incdirs()
    obj=compile_one(harness,".o",cmd,extra_key=dir_hash(os.path.join(HERE,"engineA")))
    d=os.path.join(BUILD,"bin"); os.makedirs(d,exist_ok=True)
    exe=os.path.join(d,os.path.basename(obj)[:-2]+"-"+hashlib.sha256(so.encode()).hexdigest()[:8])
    if not os.path.exists(exe):
        tmp=exe+".tmp%d"%os.getpid()
        run(["g++",obj,so,"-o",tmp,"-Wl,-rpath,"+os.path.dirname(so),"-lz3","-lgsl","-lgslcblas","-fopenmp","-ldl","-Wl,--unresolved-symbols=ignore-in-shared-libs","-Wl,-z,lazy"]); os.replace(tmp,exe)
    return exe
