#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of the repository.
  plant.py new                 fresh scratch copy /tmp/w/m at /repo HEAD
  plant.py save ID C07 "needs" "breaks"   takes the working diff of the scratch copy as seeded/ID (demo.cpp read from stdin if piped)
  plant.py check ID...         build + stable tests + demo (both ways) + the property's check
  plant.py detect ID...        only the property's check
"""
import sys, os, json, subprocess, shutil, time
M=os.environ.get("PLANT_M","/tmp/w/m"); S="/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
def sync():
    if not os.path.exists(M): sh(f"mkdir -p /tmp/w; git clone -q /repo {M}")
    sh(f"cd {M} && git checkout -q -- . && git pull -q")
def build():
    env="export CC=/usr/bin/gcc CXX=/usr/bin/g++;"
    if not os.path.exists(M+"/_build/build.ninja"):
        r=sh(env+f'cmake -S {M} -B {M}/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTING=ON -DGAPP_BUILD_TESTS=ON -DGAPP_BUILD_EXAMPLES=OFF -DGAPP_BUILD_BENCHMARKS=OFF "-DGAPP_CXX_FLAGS=-U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=2 -D_GLIBCXX_ASSERTIONS" -DFETCHCONTENT_FULLY_DISCONNECTED=ON')
        if r.returncode: print(r.stdout[-2000:], r.stderr[-2000:]); sys.exit(1)
    r=sh(f"ninja -C {M}/_build")
    if r.returncode: print("BUILD FAILED", r.stdout[-3000:]); return False
    return True
def tests():
    sh(f"rm -rf {M}/_build/vp-results; mkdir -p {M}/_build/vp-results; python3 /opt/vp/run_tests.py {M}/build {M}/_build/vp-results > {M}/_build/vp-results/results.txt; python3 /opt/vp/results.py /tmp/w/m.json lines:{M}/_build/vp-results/results.txt")
    b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('/tmp/w/m.json'))['passed'])
    return b-o
def demo(i):
    d="/tmp/w/demo"; shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(f"{S}/{i}", d, ignore=shutil.ignore_patterns("*.diff","meta.json"))
    t=time.time(); r=sh(f"cd {M} && timeout 300 bash {d}/demo.sh"); return r.returncode, time.time()-t, (r.stdout+r.stderr)[-500:]
def check(i):
    p=json.load(open(f"{S}/{i}/meta.json"))["property"]
    t=time.time(); r=sh(f"GAPP_REPO={M} VERIF_SEED=1 timeout 900 python3 /verif/check.py {p} --tier quick")
    v=[l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    return r.returncode, time.time()-t, (v[:1] or [ (r.stdout+r.stderr)[-300:] ])[0]
def apply(i): 
    r=sh(f"cd {M} && git apply {S}/{i}/patch.diff")
    if r.returncode: print(i,"PATCH DOES NOT APPLY",r.stderr); return False
    return True
def revert(): sh(f"cd {M} && git checkout -q -- .")
cmd=sys.argv[1]
if cmd=="new": sh(f"rm -rf {M}"); sync(); print(build(), tests())
elif cmd=="save":
    i,p,needs,br=sys.argv[2:6]; d=f"{S}/{i}"; os.makedirs(d,exist_ok=True)
    open(d+"/patch.diff","w",newline="").write(subprocess.run(["git","-C",M,"diff"],capture_output=True).stdout.decode())
    json.dump(dict(property=p,needs=needs,what_it_breaks=br),open(d+"/meta.json","w"),indent=1)
    src=sys.stdin.read() if not sys.stdin.isatty() else ""
    if src.strip(): open(d+"/demo.cpp","w").write(src)
    open(d+"/demo.sh","w").write('''#!/bin/bash
# run in the repository's root after the build; exit 0: the behaviour is right
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -O1 -w -pthread -DGAPP_BUILD_STATIC -I src "$D/demo.cpp" _build/libgapp.a -o "$T/demo" && timeout 200 "$T/demo"
'''); revert(); print(open(d+"/patch.diff").read())
elif cmd in("check","detect"):
    sync(); ids=sys.argv[2:]; base={}
    if cmd=="check":
        if not build(): sys.exit(1)
        for i in ids: base[i]=demo(i)
    for i in ids:
        if not apply(i): continue
        try:
            if cmd=="check":
                if not build(): print(i,"NOBUILD"); continue
                miss=tests(); d=demo(i)
                ok=base[i][0]==0 and d[0]!=0 and not miss
                print(i,"COUNTS" if ok else "*** BAD", "demo base rc=%s %.0fs, mutated rc=%s %.0fs"%(base[i][0],base[i][1],d[0],d[1]), "missing",miss, base[i][2] if base[i][0] else "", flush=True)
            c=check(i); print(i,"CAUGHT" if c[0]==1 else "*** MISSED rc=%d"%c[0],"%.0fs"%c[1],c[2],flush=True)
        finally: revert()
