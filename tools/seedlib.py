import os, subprocess, json
W="/tmp/wt/r"; S="/verif/seeded"
DEMO='''#!/bin/bash
# run in /repo after the build: 0 = the property holds, 1 = it is broken
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ %s -std=gnu++17 -w -DBOOST_BIND_GLOBAL_PLACEHOLDERS -Dpthread_mutexattr_setkind_np=pthread_mutexattr_settype -I_build/include -Iinclude -Iinclude/Lintel "$d/demo.cpp" -o "$t/demo" -rdynamic -L_build/src -lLintel -lLintelPThread -Wl,-rpath,"$PWD/_build/src" -lboost_thread -lboost_system -lpthread -ldl || exit 3
cd "$t" && timeout %d ./demo
'''
def seed(id, prop, edits, needs, breaks, demo, opt="-g -O1", tmo=120, sh=None, files={}):
    subprocess.check_call(["git","-C",W,"fetch","-q"]); subprocess.check_call(["git","-C",W,"reset","-q","--hard","origin/HEAD"])
    for f,o,n in edits:
        p=os.path.join(W,f); s=open(p).read(); assert s.count(o)==1, (id,f,s.count(o),o); open(p,"w").write(s.replace(o,n))
    d=os.path.join(S,id); os.makedirs(d,exist_ok=True)
    diff=subprocess.check_output(["git","-C",W,"diff"]); open(d+"/patch.diff","wb").write(diff)
    subprocess.check_call(["git","-C",W,"reset","-q","--hard"])
    if demo is not None: open(d+"/demo.cpp","w").write(demo)
    for k,v in files.items(): open(d+"/"+k,"w").write(v)
    open(d+"/demo.sh","w").write(sh or DEMO%(opt,tmo)); os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    print("made",id,len(diff))
