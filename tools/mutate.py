#!/usr/bin/env python3
"""Development aid: applies textual mutations from a list to a scratch copy of /repo, runs the check(s) on it, prints which are noticed.
usage: mutate.py LIST.py [id...]   (LIST.py defines M=[(id,[props],file,old,new),...])"""
import sys,os,subprocess,shutil,importlib.util,time
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec=importlib.util.spec_from_file_location("lst",sys.argv[1]); lst=importlib.util.module_from_spec(spec); spec.loader.exec_module(lst)
W="/tmp/mut"; os.makedirs(W,exist_ok=True); RC=W+"/repo"
subprocess.run(["rsync","-a","--delete","--exclude",".git","--exclude","_build","/repo/",RC+"/"],check=False) if shutil.which("rsync") else (shutil.rmtree(RC,ignore_errors=True),shutil.copytree("/repo",RC,ignore=shutil.ignore_patterns(".git","_build"),symlinks=True))
VC=W+"/verif"; shutil.rmtree(VC,ignore_errors=True)
shutil.copytree(V,VC,ignore=shutil.ignore_patterns(".git","build","evidence","replay","seeded"))
env=dict(os.environ,VMC_DEV_REPO=RC,VMC_DEV_BUILD=W+"/build")
for i,props,f,old,new in lst.M:
    if len(sys.argv)>2 and i not in sys.argv[2:]: continue
    p=os.path.join(RC,f); src=open(p).read()
    if src.count(old)<1: print(i,"NO MATCH",f,flush=True); continue
    open(p,"w").write(src.replace(old,new,1))
    for pr in props:
        t=time.time(); r=subprocess.run(["python3","run.py",pr],cwd=VC,env=env,capture_output=True,text=True)
        what={0:"MISSED",1:"caught",2:"BUILD-ERROR"}.get(r.returncode,str(r.returncode))
        lines=[l for l in r.stdout.split("\n") if l.strip()]
        print(i,pr,what,"%.0fs"%(time.time()-t),(lines[0][:160] if lines else "")+(r.stderr[-200:] if r.returncode not in (0,1) else ""),flush=True)
    open(p,"w").write(src)
