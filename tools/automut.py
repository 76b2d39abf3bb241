#!/usr/bin/env python3
"""Development aid: automatic operator-level mutants of .h/.cc files, tried against the check(s) meant to notice them.
usage: automut.py OUT WORKERS PER_FILE SEED FILE:PROP[,PROP] ..."""
import sys,os,re,random,subprocess,shutil,time,hashlib
from concurrent.futures import ThreadPoolExecutor
import threading,queue
BASE=os.environ.get("AM_REPO","/repo"); V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); OUT,NW,PER,SEED=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]),int(sys.argv[4])
RULES=[(r'<=(?!>)','<'),(r'(?<=[\w\)])<(?=[\w\(][\w\(\)\.\-\+]*[;&\|\)\s])','<='),(r'>=','>'),(r'==','!='),(r'!=','=='),(r'&&','||'),(r'\|\|','&&'),(r'(?<=[\w\)\]])\+(?=[\w\(])','-'),(r'(?<=[\w\)\]])-(?=[\w\(])','+'),
 (r'(?<=[\w\)\]])\*(?=[\w\(])','/'),(r'(?<=[\w\)\]])/(?=[\w\(])','*'),(r'\+=','-='),(r'-=','+='),(r'\*=','/='),(r'/=','*='),(r'\bconj\(','('),(r'\breal\(','imag('),(r'\bimag\(','real('),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'(?<=[\s\(])!(?=[\w\(])',''),
 (r'\+\+','--'),(r'(?<![\w\.])0(?![\w\.])','1'),(r'(?<![\w\.])1(?![\w\.])','2'),(r'(?<![\w\.])1(?![\w\.])','0'),(r'(?<![\w\.])2\.(?!\d)','3.'),(r'(?<![\w\.])2(?![\w\.])','1'),(r'\bsqrt\(','('),(r'(?<=[\(=,\s])-(?=[\w\(])',''),(r'\bstd::min\b','std::max'),(r'\bmax\(','min('),(r'\bmin\(','max('),(r'\bsin\(','cos('),(r'\bcos\(','sin('),(r'1i\b','(-1i)'),(r'\bfirst\b','second'),(r'\bsecond\b','first'),(r'\babs\(','('),(r'exp\(','exp(-')]
def sites(src):
    out=[]; inc=False; pos=0
    for ln in src.split("\n"):
        code=ln; s=code.strip(); start=pos; pos+=len(ln)+1
        if s.startswith(("/*","*")) : inc=("/*" in s or inc) and "*/" not in s; continue
        if inc:
            if "*/" in s: inc=False
            continue
        if s.startswith(("//","#","template","using","typedef","namespace","class","struct","friend","static_assert","public","private")) or not s: continue
        c=code.split("//")[0]; c=re.sub(r'"[^"]*"',lambda m:'"'+' '*(len(m.group(0))-2)+'"',c)
        for pat,rep in RULES:
            for m in re.finditer(pat,c): out.append((start+m.start(),start+m.end(),rep,ln))
        if re.match(r'^[\w\*\(][^{}]*;\s*$',s) and not s.startswith(("return","const","auto","double","int","size_t","bool","typename","break","throw","else","virtual","extern","dcomp","inline","explicit","operator","std::")) and ("=" in s or "(" in s) and not re.search(r'\)\s*(const)?\s*(override|final)?;?$',s.replace(" ","")[:-1] if False else "") : out.append((start,start+len(ln),"",ln))
    return out
jobs=[]
for spec in sys.argv[5:]:
    f,ps=spec.split(":"); src=open(BASE+"/"+f).read(); st=sites(src); rnd=random.Random("%d%s"%(SEED,f)); rnd.shuffle(st); lines={}
    k=0
    for a,b,rep,ln in st:
        if lines.get(ln,0)>=2: continue
        lines[ln]=lines.get(ln,0)+1; new=src[:a]+rep+src[b:]; l0=src.rfind("\n",0,a)+1; l1=new.find("\n",l0); jobs.append((f,ps.split(","),new,src.count("\n",0,a)+1,ln.strip(),new[l0:l1].strip())); k+=1
        if k>=PER: break
done=set()
if os.path.exists(OUT): done={l.split(" ",1)[0] for l in open(OUT)}
q=queue.Queue(); lock=threading.Lock()
for j in jobs: q.put(j)
def worker(i):
    W="/tmp/am/w%d"%i; RC=W+"/repo"; VC=W+"/verif"; os.makedirs(W,exist_ok=True); shutil.rmtree(RC,ignore_errors=True); shutil.rmtree(VC,ignore_errors=True)
    shutil.copytree(BASE,RC,ignore=shutil.ignore_patterns(".git","_build"),symlinks=True); shutil.copytree(V,VC,ignore=shutil.ignore_patterns(".git","build","evidence","replay","seeded"))
    while True:
        try: f,props,new,no,o,n=q.get_nowait()
        except queue.Empty: break
        mid=hashlib.sha1((f+str(no)+o+n).encode()).hexdigest()[:8]
        if mid in done: continue
        p=os.path.join(RC,f); src=open(p).read(); open(p,"w").write(new); res=[]; t=time.time()
        for pr in props:
            r=subprocess.run(["python3","run.py",pr],cwd=VC,env=dict(os.environ,VMC_DEV_REPO=RC,VMC_DEV_BUILD=W+"/build"),capture_output=True,text=True)
            res.append(pr+"="+{0:"MISSED",1:"caught",2:"BUILD"}.get(r.returncode,str(r.returncode)))
            if r.returncode in (1,2): break
        open(p,"w").write(src)
        # keep the object cache small
        od=W+"/build/obj"
        with lock: open(OUT,"a").write("%s %s:%d %s [%.0fs] %s  ==>  %s\n"%(mid,f,no," ".join(res),time.time()-t,o,n))
with ThreadPoolExecutor(NW) as ex: list(ex.map(worker,range(NW)))
