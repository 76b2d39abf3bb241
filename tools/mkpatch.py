#!/usr/bin/env python3
"""mkpatch.py ID FILE OLD NEW [FILE OLD NEW...]: writes seeded/ID/patch.diff from textual replacements against /repo's HEAD (each OLD must occur exactly once; OLD may be given as @n:text for the n-th occurrence)"""
import sys,subprocess,os,difflib
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); i=sys.argv[1]; a=sys.argv[2:]; out=""; new={}; orig={}
for k in range(0,len(a),3):
    f,o,n=a[k:k+3]; o=o.encode().decode("unicode_escape").encode("latin1").decode() if "\\n" in o else o; n=n.encode().decode("unicode_escape").encode("latin1").decode() if "\\n" in n else n
    if f not in orig: orig[f]=new[f]=subprocess.run(["git","-C","/repo","show","HEAD:"+f],capture_output=True,text=True,check=True).stdout
    nth=0
    if o.startswith("@"): nth,o=o[1:].split(":",1); nth=int(nth)
    c=new[f].count(o)
    if c==0 or (c>1 and not nth): sys.exit("%s: %d occurrences of %r"%(f,c,o))
    p=-1
    for _ in range(max(nth,1)): p=new[f].index(o,p+1)
    new[f]=new[f][:p]+n+new[f][p+len(o):]
for f in orig: out+="diff --git a/%s b/%s\n"%(f,f)+"".join(difflib.unified_diff(orig[f].splitlines(True),new[f].splitlines(True),"a/"+f,"b/"+f))
os.makedirs(V+"/seeded/"+i,exist_ok=True); open(V+"/seeded/%s/patch.diff"%i,"w").write(out)
r=subprocess.run(["git","-C","/repo","apply","--check",V+"/seeded/%s/patch.diff"%i],capture_output=True,text=True); print(i,"ok" if not r.returncode else r.stderr)
