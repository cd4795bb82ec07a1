import os, json, subprocess, sys
DEMO='''#!/bin/bash
# Exit 0: the behaviour is right. Runs in the root of the source tree.
set -e
D=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$D"' EXIT
g++ -std=c++14 %s -pthread -w -DGUL_USING_STATIC_LIB_OR_OBJECTS -Iinclude -o "$D/demo" "$(dirname "$0")/demo.cc" src/*.cc
timeout 120 "$D/demo"
'''
def plant(id, prop, edits, needs, breaks, demo, flags="-O1"):
    if len(sys.argv)>1 and id not in sys.argv[1:]: return
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    W='/tmp/w'
    if not os.path.isdir(W): subprocess.run("git clone -q /repo /tmp/w && cd /tmp/w && meson setup _build . --buildtype=debugoptimized --wrap-mode=nodownload -Dwerror=false -Ddocs=false >/dev/null && ninja -C _build >/dev/null",shell=True,check=True)
    subprocess.run("git -C /tmp/w checkout -q -- . && git -C /tmp/w pull -q",shell=True,check=True)
    for f,old,new in edits:
        p=os.path.join(W,f); s=open(p).read()
        if s.count(old)!=1: print(id,"old text occurs",s.count(old),"times:",old[:60]); return
        open(p,'w').write(s.replace(old,new))
    open(d+'/demo.cc','w').write(demo); open(d+'/demo.sh','w').write(DEMO%flags); os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    print("==",id,flush=True)
    subprocess.run(["/verif/tools/seed.sh",id]+(["nocheck"] if os.environ.get("NOCHECK") else []))
