#!/usr/bin/env python3
"""Plant and confirm bugs in a scratch copy of /repo.  tools/seed.py SPEC.py [id…]
SPEC.py calls S(id, prop, [(file, old, new)…], needs, breaks, demo_cpp).  For each: scratch copy, patch, build, stable tests, demo (fails with, passes without), then the property's check."""
import sys,os,subprocess,json,shutil,re
R="/repo";W="/tmp/wt";V="/verif"
DEMO='''#!/bin/bash
# run in the repository root after the build; exit 0: behaves as the property says
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
L="_build/dal/libdal.a"; P=$(ls _build/public/*.a _build/public/src/*.a 2>/dev/null | tr '\\n' ' ')
g++ -std=c++17 -O1 -march=x86-64-v2 -DCODI_ForcedInlines -I. -Iexternals/CodiPack/include -I/usr/include "$D/demo.cpp" -o "$T/demo" -Wl,--start-group $P $L -Wl,--end-group -Wl,--defsym=_ZN3Dal8NewSobolEimb=0 -lpthread >"$T/log" 2>&1 || { cat "$T/log"; exit 3; }
cd "$T" && timeout 120 ./demo
'''
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def prep():
    if not os.path.isdir("/tmp/vpx"):
        shutil.copytree("/opt/vp","/tmp/vpx",ignore=shutil.ignore_patterns("*.tar*","cache"))
        for f in os.listdir("/tmp/vpx"):
            p="/tmp/vpx/"+f
            if f.endswith((".sh",".py")): s=open(p).read().replace("/opt/vp","/tmp/vpx").replace("/repo",W); open(p,"w").write(s)
    head=sh(f"git -C {R} rev-parse HEAD").stdout.strip()
    if not os.path.isdir(W): sh(f"git clone -q {R} {W}"); sh("bash /tmp/vpx/build.sh")
    sh(f"git -C {W} fetch -q && git -C {W} reset -q --hard {head}")
def build(): return sh("bash /tmp/vpx/build.sh")
def S(id,prop,edits,needs,breaks,demo,link=None):
    if ONLY and id not in ONLY: return
    if not ONLY and os.path.exists(f"{V}/seeded/{id}/ok"): return
    print("==",id,prop,flush=True); d=f"{V}/seeded/{id}"; os.makedirs(d,exist_ok=True)
    open(d+"/demo.cpp","w").write(demo); open(d+"/demo.sh","w").write(DEMO); os.chmod(d+"/demo.sh",0o755)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+"/meta.json","w"),indent=1)
    sh(f"git -C {W} checkout -q -- ."); 
    if not FAST:
        b=build(); assert b.returncode==0,b.stdout[-2000:]
        r=sh(f"bash {d}/demo.sh",cwd=W); 
        if r.returncode!=0: print("   demo fails on unchanged tree",r.returncode,r.stdout[-1500:]); return
    for f,o,n in edits:
        p=f"{W}/{f}"; s=open(p).read(); assert s.count(o)==1,(id,f,s.count(o)); open(p,"w").write(s.replace(o,n))
    open(d+"/patch.diff","w").write(sh(f"git -C {W} diff").stdout)
    ok=True
    if not FAST:
        b=build()
        if b.returncode: print("   does not build",b.stdout[-1500:]); ok=False
        else:
            r=sh(f"bash {d}/demo.sh",cwd=W); print("   demo with patch:",r.returncode,r.stdout[-200:].strip())
            if r.returncode in (0,3): ok=False
            sh("bash /tmp/vpx/test.sh /tmp/seed_out.json"); o=json.load(open("/tmp/seed_out.json")); b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); miss=b-set(o["passed"])
            if miss: print("   tests broken:",len(miss),sorted(miss)[:5]); ok=False
    c=sh(f"DALSYM_REPO={W} DALSYM_BUILD=/tmp/wtbuild {V}/bin/check {prop}"); 
    l=[x for x in c.stdout.splitlines() if "VIOLATION" in x or "UNDECIDED" in x]
    print("   check rc",c.returncode,l[:3],"" if c.returncode==1 else c.stdout[-600:],flush=True)
    sh(f"git -C {W} checkout -q -- .")
    if not ok: shutil.rmtree(d); print("   NOT KEPT")
    if ok: RES.append((id,prop,"caught" if c.returncode==1 else "MISSED"))
args=sys.argv[1:]; FAST="--fast" in args; args=[a for a in args if a!="--fast"]; ONLY=set(args[1:]); RES=[]
prep(); exec(open(args[0]).read())
print(RES)
