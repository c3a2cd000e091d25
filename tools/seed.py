#!/usr/bin/env python3
"""Make, verify and evaluate planted bugs (development tool; no check uses it).
 seed.py make            write seeded/<id>/ from tools/seeds/*.py
 seed.py verify ID...    build + stable tests + demo, patched and clean, in scratch copies
 seed.py catch ID...     run the property's quick check with the patch applied to a scratch copy
"""
import sys,os,subprocess,shutil,json,glob,concurrent.futures as cf,tempfile
V="/verif";R="/repo"
def load():
    out={}
    for f in sorted(glob.glob(V+"/tools/seeds/*.py")):
        g={"S":[]}
        exec(open(f).read(),g)
        for s in g["S"]: out[s["id"]]=s
    return out
def make(s):
    d=f"{V}/seeded/{s['id']}"
    os.makedirs(d,exist_ok=True)
    t=tempfile.mkdtemp()
    subprocess.run(["git","clone","-q","--no-checkout","--shared",R,t+"/r"],check=True)
    subprocess.run(["git","-C",t+"/r","checkout","-q","HEAD","--","src"],check=True)
    for f,a,b in s["edits"]:
        p=f"{t}/r/src/{f}"; x=open(p).read()
        assert x.count(a)==1,(s["id"],f,x.count(a))
        open(p,"w").write(x.replace(a,b))
    diff=subprocess.run(["git","-C",t+"/r","diff","--","src"],capture_output=True,text=True).stdout
    shutil.rmtree(t)
    open(d+"/patch.diff","w").write(diff)
    open(d+"/demo.sh","w").write('#!/bin/bash\nexec node "$(cd "$(dirname "$0")" && pwd)/demo.js"\n'); os.chmod(d+"/demo.sh",0o755)
    open(d+"/demo.js","w").write('"use strict";\nconst { lib, dir, fake, main } = require("./common.js");\nconst assert = require("node:assert"), fs = require("node:fs"), path = require("node:path");\n'+s["demo"].strip()+"\n")
    for n in ["common.js"]+(["fakechild.js"] if "scenario" in s else []): shutil.copy(f"{V}/tools/seedlib/{n}",d)
    if "scenario" in s: open(d+"/scenario.js","w").write('"use strict";\n'+s["scenario"].strip()+"\n")
    json.dump(dict(property=s["property"],needs=s["needs"],what_it_breaks=s["what"]),open(d+"/meta.json","w"),indent=1)
def copy(i):
    d=f"/tmp/sr-{i}"
    shutil.rmtree(d,ignore_errors=True)
    subprocess.run(["cp","-a",R,d],check=True)
    return d
def sh(cmd,cwd,env=None,timeout=1200):
    try:
        p=subprocess.run(cmd,cwd=cwd,capture_output=True,text=True,timeout=timeout,env=env)
        return p.returncode,p.stdout+p.stderr
    except subprocess.TimeoutExpired as e: return 124,str(e)
BASE=None
def verify(i):
    d=copy(i)
    try:
        for n in("build","test"):
            x=open(f"/opt/vp/{n}.sh").read().replace("/opt/vp/build.sh",d+"/.b.sh").replace("cd /repo",f"cd {d}")
            open(f"{d}/.{n[0]}.sh","w").write(x)
        demo=f"{V}/seeded/{i}/demo.sh"
        r,o=sh(["bash",d+"/.b.sh"],d)
        if r: return i,"clean build failed "+o[-500:]
        r,o=sh(["bash",demo],d,timeout=300)
        if r: return i,"DEMO FAILS CLEAN "+o[-800:]
        r,o=sh(["git","apply",f"{V}/seeded/{i}/patch.diff"],d)
        if r: return i,"patch does not apply "+o
        r,o=sh(["bash",d+"/.b.sh"],d)
        if r: return i,"patched build failed "+o[-800:]
        r,o=sh(["bash",demo],d,timeout=300)
        if r==0: return i,"DEMO PASSES PATCHED"
        msg=o.strip()[-150:].replace("\n"," | ")
        r,o=sh(["bash",d+"/.t.sh",d+"/.t.json"],d)
        t=json.load(open(d+"/.t.json")); b=json.load(open("/opt/vp/BASELINE.json"))
        b=set(b if isinstance(b,list) else b.get("passed") or b.get("stable") or b.get("tests"))
        miss=b-{x.replace(".."+d+"/","") for x in t["passed"]}
        if miss: return i,f"TESTS FAIL {len(miss)}: {list(miss)[:3]}"
        return i,"ok ("+msg+")"
    finally: shutil.rmtree(d,ignore_errors=True)
def catch(i,tier="quick"):
    d=copy(i)
    try:
        r,o=sh(["git","apply",f"{V}/seeded/{i}/patch.diff"],d)
        if r: return i,"patch does not apply "+o
        p=json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
        e=dict(os.environ,VERIF_REPO=d,VERIF_EVIDENCE=d+"/ev")
        r,o=sh(["node","run.js",p,"--tier",tier],V,env=e)
        k=[l for l in o.splitlines() if l.strip().startswith("key:")]
        return i,f"{p} exit={r} "+("CAUGHT "+(k[0][:140] if k else "") if r==1 and f"VIOLATION property={p}" in o else "MISSED "+o[-300:])
    finally: shutil.rmtree(d,ignore_errors=True)
if __name__=="__main__":
    S=load(); cmd=sys.argv[1]; ids=sys.argv[2:] or list(S)
    if cmd=="make":
        for i in ids: make(S[i])
    elif cmd=="verify":
        with cf.ThreadPoolExecutor(3) as ex:
            for r in ex.map(verify,ids): print(*r,flush=True)
    elif cmd=="catch":
        for i in ids: print(*catch(i),flush=True)
