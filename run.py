#!/usr/bin/env python3
"""Builds the harness(es) of one property from /repo's current working tree, explores, writes evidence, reports.
usage: run.py <property> [--tier quick|thorough] [--keep]   |  run.py --replay <file>"""
import sys, os, json, hashlib, subprocess, glob, time, shutil, tempfile, re
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.abspath(__file__)); R=os.environ.get("VMC_DEV_REPO","/repo")  # the variable is only for trying planted bugs on scratch copies
sys.path.insert(0,V)
from checks import CHECKS
NCPU=os.cpu_count() or 8
BUILD=os.environ.get("VMC_DEV_BUILD",os.path.join(V,"build"))

LAYERS={"U":["CPPQEDutils"],
 "C":["CPPQEDcore/high","CPPQEDcore/composites","CPPQEDcore/structure","CPPQEDcore/quantumdata","CPPQEDcore/quantumoperator","CPPQEDcore/quantumtrajectory"],
 "E":["CPPQEDelements/frees","CPPQEDelements/interactions","CPPQEDelements/utils"],
 "P":["cpypyqed"]}
EXCLUDE={"Version.cc","Transformation.cc","CoreInit.cc"}  # cannot be compiled offline / dead code, in the repository's own build as well
INC=["-I"+V+"/stubs","-I"+V+"/harness"]+["-I"+R+"/"+d for k in "UCE" for d in (["CPPQEDcore"] if k=="C" else [])+LAYERS[k]]+["-isystem","/usr/include/eigen3"]
FLAGS=["-O1","-DNDEBUG","-std=c++20","-w","-DBZ_HAVE_BOOST_SERIALIZATION","-DCPPQED_HAS_GSL","-include","boost/preprocessor/iteration/iterate.hpp"]
LIBS=["-Wl,-z,muldefs","-lblitz","-lboost_serialization","-lboost_iostreams","-lgsl","-lgslcblas","-lpthread"]

_h={}
def sha(p):
    if p not in _h:
        try:
            with open(p,"rb") as f: _h[p]=hashlib.sha1(f.read()).hexdigest()
        except OSError: _h[p]="-"
    return _h[p]

def compile1(src,extra):
    cmd=["g++"]+FLAGS+extra+INC+["-c",src]
    key=hashlib.sha1(" ".join(cmd).encode()).hexdigest()[:16]
    base=os.path.join(BUILD,"obj",os.path.basename(src)+"."+key); obj=base+".o"; meta=base+".json"
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m=json.load(open(meta))
            if all(sha(p)==s for p,s in m.items()): return obj
        except Exception: pass
    tmp="%s.%d"%(base,os.getpid())
    for attempt in range(4):
        r=subprocess.run(cmd+["-MMD","-MF",tmp+".d","-o",tmp+".o"],capture_output=True,text=True)
        if not r.returncode or not ("Killed" in r.stderr or "out of memory" in r.stderr or r.returncode<0): break
        time.sleep(5*(attempt+1)) # the compiler was ended for lack of memory, not by the source
    if r.returncode:
        for x in (".d",".o"):
            if os.path.exists(tmp+x): os.remove(tmp+x)
        raise RuntimeError("compilation of %s failed:\n%s"%(src,r.stderr[-6000:]))
    deps=open(tmp+".d").read().replace("\\\n"," ").split(":",1)[1].split()
    deps=[d for d in deps if d.startswith(R+"/") or d.startswith(V+"/") or not d.startswith("/usr/")]
    os.rename(tmp+".o",obj); os.remove(tmp+".d")
    json.dump({d:sha(d) for d in deps},open(meta,"w"))
    return obj

def program(src,extra):
    """a program of the repository as an object: its main becomes prog_<name>, its other functions stay its own"""
    o=compile1(src,extra); name="prog_"+re.sub(r"\W","_",os.path.basename(src)[:-3]); out=o[:-2]+"."+sha(o)[:12]+".prog.o"
    if not os.path.exists(out):
        strong=[l.split() for l in subprocess.run(["nm","-g","--defined-only",o],capture_output=True,text=True,check=True).stdout.splitlines()]
        loc=[a for x in strong if len(x)==3 and x[1] in "TDBR" and x[2]!="main" for a in ("--localize-symbol",x[2])]
        tmp="%s.%d"%(out,os.getpid()); r=subprocess.run(["objcopy","--redefine-sym","main="+name]+loc+[o,tmp],capture_output=True,text=True)
        if r.returncode: raise RuntimeError("objcopy of %s failed:\n%s"%(src,r.stderr[-2000:]))
        os.rename(tmp,out)
    return out

def build(chk):
    os.makedirs(os.path.join(BUILD,"obj"),exist_ok=True); os.makedirs(os.path.join(BUILD,"bin"),exist_ok=True)
    extra=chk.get("flags",[])
    hs=[os.path.join(V,"harness",h) for h in chk["harness"]]
    lib=[]
    for l in chk["layers"]:
        for d in LAYERS[l]:
            lib+=[f for f in sorted(glob.glob(os.path.join(R,d,"*.cc"))) if os.path.basename(f) not in EXCLUDE]
    if "only_sources" in chk: lib=[f for f in lib if os.path.basename(f) in chk["only_sources"]]
    hextra=[os.path.join(V,"harness",h) for h in chk.get("common",["version.cc"])]
    big=["ParticleCavity.cc","Particle.cc","CoupledModes.cc","GeneralDicke.cc","Mode.cc","BinarySystem.cc"]
    lib.sort(key=lambda f:(os.path.basename(f) not in big,f))
    with ThreadPoolExecutor(NCPU) as ex:
        fh=[ex.submit(compile1,h,extra) for h in hs]; fc=[ex.submit(compile1,h,extra) for h in hextra]; fl=[ex.submit(compile1,s,extra) for s in lib]
        fp=[ex.submit(program,os.path.join(R,p),extra) for p in chk.get("programs",[])]
        objl=[f.result() for f in fl]+[f.result() for f in fp]; objc=[f.result() for f in fc]; objh=[f.result() for f in fh]
    exes=[]
    for h,o in zip(hs,objh):
        key=hashlib.sha1("".join(sha(x) if x!=o else sha(o) for x in [o]+objc+objl).encode()).hexdigest()[:16]
        exe=os.path.join(BUILD,"bin",os.path.basename(h)[:-3]+"-"+key)
        if not os.path.exists(exe):
            for old in glob.glob(os.path.join(BUILD,"bin",os.path.basename(h)[:-3]+"-*")):
                try: os.remove(old)
                except OSError: pass
            r=subprocess.run(["g++"]+[f for f in extra if f.startswith("-fsan")]+["-o",exe+".tmp",o]+objc+objl+LIBS+chk.get("libs",[]),capture_output=True,text=True)
            if r.returncode: raise RuntimeError("link of %s failed:\n%s"%(h,r.stderr[-6000:]))
            os.rename(exe+".tmp",exe)
        exes.append(exe)
    return exes

def explore(exes,tier,timeout,only=None,limit=60,shards=None):
    """runs all shards of all harnesses in parallel; returns list of (harness, result|None, crash description|None)"""
    jobs=[]
    scratch=tempfile.mkdtemp(prefix="vmc_",dir="/tmp")
    try:
        env=dict(os.environ,VERIF_TIER=tier,VMC_SCRATCH=scratch,OMP_NUM_THREADS="1",LC_ALL="C",VMC_LIMIT=str(limit))
        def one(exe,i,n):
            out=os.path.join(scratch,"o_%s_%d.json"%(os.path.basename(exe),i)); cur=os.path.join(scratch,"c_%s_%d"%(os.path.basename(exe),i))
            wd=os.path.join(scratch,"w_%s_%d"%(os.path.basename(exe),i)); os.makedirs(wd,exist_ok=True)
            cmd=[exe,"--out",out,"--cur",cur]+(["--only",only] if only is not None else ["--shard",str(i),str(n)])
            def at(): 
                try: return open(cur,"rb").read().split(b"\0")[0].decode("utf8","replace")
                except OSError: return ""
            try: p=subprocess.run(cmd,cwd=wd,env=env,stdout=subprocess.DEVNULL,stderr=subprocess.PIPE,timeout=timeout)
            except subprocess.TimeoutExpired:
                return (exe,None,dict(scenario=at(),what="exploration did not terminate within %d s (hang)"%timeout))
            if p.returncode in (0,3) and os.path.exists(out):
                try: return (exe,json.load(open(out)),None)
                except ValueError: pass
            if p.returncode==-14: return (exe,None,dict(scenario=at(),what="scenario did not terminate within %d s (hang)"%limit,hang=i))
            return (exe,None,dict(scenario=at(),what="harness process died with status %d: %s"%(p.returncode,p.stderr[-300:].decode("utf8","replace"))))
        n=1 if only is not None else NCPU
        with ThreadPoolExecutor(NCPU) as ex:
            for exe in exes:
                for i in (range(n) if shards is None else shards): jobs.append(ex.submit(one,exe,i,n))
            return [j.result() for j in jobs]
    finally:
        shutil.rmtree(scratch,ignore_errors=True)

def known(prop):
    res={}
    p=os.path.join(V,"KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m=re.match(r"finding: property=(\S+) scenario=(\S+) (.*)$",l.rstrip("\n"))
            if m and m.group(1)==prop: res[m.group(2)]=m.group(3)
    return res

def main():
    a=sys.argv[1:]
    if a and a[0]=="--setup":
        r=subprocess.run(["g++","--version"],capture_output=True,text=True); print(r.stdout.split("\n")[0]); os.makedirs(BUILD,exist_ok=True); return r.returncode
    if a and a[0]=="--replay":
        rep=json.load(open(a[1])); chk=CHECKS[rep["property"]]
        exes=[e for e in build(chk) if os.path.basename(e).startswith(rep["harness"]+"-")]
        bad=False
        for exe,res,crash in explore(exes,rep["tier"],chk.get("timeout",600),only=rep["scenario"]):
            if crash: print(crash["what"]); bad=True
            for v in (res or {}).get("violations",[]): print(v["scenario"],"::",v["what"]); bad=True
        print("REPRODUCED" if bad else "not reproduced"); return 1 if bad else 0
    prop=a[0]; tier=os.environ.get("VERIF_TIER","quick")
    if "--tier" in a: tier=a[a.index("--tier")+1]
    if tier not in ("quick","thorough"): tier="quick"
    chk=CHECKS[prop]; t0=time.time()
    exes=build(chk); tb=time.time()-t0
    timeout=chk.get("timeout",400 if tier=="quick" else 7200)
    results=explore(exes,tier,timeout,limit=60 if tier=="quick" else 900)
    # a time-out must persist when the scenario is replayed alone with a longer limit, otherwise the shard is explored again with that limit
    for k,(exe,res,crash) in enumerate(results):
        if crash and "hang" in crash and tier=="quick":
            if any(c for _,_,c in explore([exe],tier,200,only=crash["scenario"],limit=120)): break
            results[k]=explore([exe],tier,timeout,limit=300,shards=[crash["hang"]])[0]
    kn=known(prop); knhit={}; viol=[]
    tot=dict(scenarios=0,nontrivial=0,states=0,transitions=0,traces=0,checks=0,nviol=0); samples=[]; distinct=0
    for exe,res,crash in results:
        h=os.path.basename(exe).rsplit("-",1)[0]
        if crash: viol.append((h,crash["scenario"],crash["what"],exe)); continue
        for k in tot: tot[k]+=res[k]
        distinct+=res["distinct_scenarios"]
        for s in res["samples"]:
            if len(samples)<8 and s not in samples: samples.append(s)
        for v in res["violations"]:
            if v["scenario"] in kn: knhit[v["scenario"]]=kn[v["scenario"]]
            else: viol.append((h,v["scenario"],v["what"],exe))
    # vacuity guard: an exploration that visits (almost) nothing must not pass silently
    if not viol and tot["scenarios"]<chk.get("min_scenarios",1): viol.append(("runner","","explored only %d scenarios, expected at least %d"%(tot["scenarios"],chk.get("min_scenarios",1)),None))
    code=0
    if viol:
        os.makedirs(os.path.join(V,"replay"),exist_ok=True)
        h,sc,what,exe=viol[0]; rp=os.path.join(V,"replay",prop+".json"); reproduced=None
        if exe and sc:
            reproduced=False
            for _,res,crash in explore([exe],tier,min(timeout,120),only=sc):
                if crash or (res and res["nviol"]): reproduced=True
        json.dump(dict(property=prop,harness=h,scenario=sc,what=what,tier=tier,reproduced_alone=reproduced,all=[v[:3] for v in viol[:40]]),open(rp,"w"),indent=1)
        for v in viol[:10]: print("  %s: %s :: %s"%v[:3])
        print("VIOLATION property=%s replay=%s"%(prop,rp)); code=1
    for s,w in sorted(knhit.items()): print("KNOWN-FINDING: property=%s scenario=%s %s"%(prop,s,w))
    cov=dict(states=tot["states"],transitions=tot["transitions"],traces_validated_against_impl=tot["traces"],samples=samples,
             exhaustive=True,scenarios=tot["scenarios"],distinct_scenarios=distinct,scenarios_with_transitions=tot["nontrivial"],
             comparisons=tot["checks"],rule=chk["rule"],build_s=round(tb,1))
    if chk["level"]!="model_checking": cov.update(evaluations=tot["scenarios"],distinct_nontrivial=min(distinct,tot["nontrivial"]))
    ev=dict(property=prop,tier=tier,seed=int(os.environ.get("VERIF_SEED","1") or 1),level=chk["level"],coverage=cov,assumptions=chk.get("assumptions",[]),
            wall_s=round(time.time()-t0,2),violations=len(viol))
    os.makedirs(os.path.join(V,"evidence"),exist_ok=True)
    with open(os.path.join(V,"evidence",prop+".json"),"w") as f: json.dump(ev,f,indent=1)
    print("%s %s: %d scenarios, %d states, %d transitions, %d comparisons, build %.1fs, total %.1fs"%(prop,"FAIL" if code else "ok",tot["scenarios"],tot["states"],tot["transitions"],tot["checks"],tb,time.time()-t0))
    return code
if __name__=="__main__":
    try: sys.exit(main())
    except RuntimeError as e:
        print("CHECK ERROR:",e); sys.exit(2)
