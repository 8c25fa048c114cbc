#!/usr/bin/env python3
"""development: validate seeded bugs in a scratch copy of /repo, then run this property's check against it
usage: dev_seed.py [--nodemo] [--notest] ID..."""
import sys, os, subprocess, json, shutil, time
HERE=os.path.dirname(os.path.abspath(__file__))
W=os.environ.get("SEEDDIR","/tmp/mut")
ENV=dict(os.environ, PATH="/root/.cargo/bin:"+os.environ["PATH"], RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUST_BACKTRACE="0", CARGO_TERM_COLOR="never")
def sh(c,cwd=W,env=ENV,t=900): 
    try: return subprocess.run(c,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t,errors="replace")
    except subprocess.TimeoutExpired:
        class R: returncode=124; stdout="TIMEOUT"
        return R
def reset():
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
if not os.path.exists(W):
    shutil.copytree("/repo",W,symlinks=True)
stable=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
args=sys.argv[1:]
for i in [a for a in args if not a.startswith("--")]:
    d=os.path.join(HERE,"seeded",i); meta=json.load(open(d+"/meta.json"))
    reset()
    out=[i]
    demo=os.path.join(d,"demo.sh")
    if "--nodemo" not in args:
        r=sh("bash "+demo,t=300); out.append("clean-demo=%d"%r.returncode)
        if r.returncode: print(r.stdout[-1500:])
    r=sh("git apply "+d+"/patch.diff")
    if r.returncode: print(i,"APPLY FAILED",r.stdout); continue
    if "--nodemo" not in args:
        r=sh("bash "+demo,t=300); out.append("bug-demo=%d"%r.returncode); print("   demo:",r.stdout[-300:].replace("\n"," / "))
    if "--notest" not in args:
        r=sh("timeout 840 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > t.log 2>&1; python3 /opt/vp/results.py t.json cargo:t.log")
        p=set(json.load(open(W+"/t.json"))["passed"]); miss=stable-p
        out.append("tests=%s"%("ok" if not miss else "MISSING %d %s"%(len(miss),list(miss)[:3])))
    if "--nocheck" not in args:
        e=dict(os.environ,KV_REPO=W,KV_BUILD=W+"b",KV_JOBS="6"); t=time.time()
        r=sh("python3 run.py %s quick"%meta["property"],cwd=HERE,env=e)
        out.append("check rc=%d %.0fs"%(r.returncode,time.time()-t)); print("   check:",r.stdout[:700].replace("\n"," / "))
    print(" ".join(out),flush=True)
    reset()
