#!/usr/bin/env python3
"""development: build once, run the named harnesses in parallel, print a compact summary"""
import sys, json, os, subprocess, time
import run
from concurrent.futures import ThreadPoolExecutor
try:
    t=time.time(); eng, exe0, ll0, ov = run.build(any(a in run.OVF for a in sys.argv[1:])); print("build %.1fs" % (time.time()-t))
except run.NoAnswer as e:
    print(str(e)[-5000:]); sys.exit(2)
names=[a for a in sys.argv[1:] if not a.startswith("-")]
if names and names[0].endswith("*"):
    names=[h for h in run.HARNESS if h.startswith(names[0][:-1])]
D=[a[2:] for a in sys.argv[1:] if a.startswith("-d")]
dl=D[0] if D else "200"
def one(n):
    exe, ll = ov if n in run.OVF else (exe0, ll0)
    out=os.path.join(run.BUILD,n+".dev.json")
    if os.path.exists(out): os.remove(out)
    try:
        p=subprocess.run(run.engine_cmd(eng,ll,n,out,["--deadline",dl]),env=run.ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=int(dl)+100,errors="replace")
    except subprocess.TimeoutExpired:
        return "%s TIMEOUT"%n
    if not os.path.exists(out): return "%s NO RESULT %s"%(n,p.stdout.split("stack backtrace")[0][-700:])
    r=json.load(open(out))
    s="%s %s wall=%.1f paths=%d/%d panic=%d q=%d(%.1fs) lia=%d(%.1fs)\n"%("OK  " if not r["violations"] and not r["errors"] else "FAIL",n,r["wall_s"],r["completed_paths"],r["paths"],r["panic_paths"],r["solver"]["queries"],r["solver"]["time_s"],r["lia"]["queries"],r["lia"]["time_s"])
    s+="   checks: "+" ".join("%s=%d/%d/%d%s"%(k,c["evaluated"],c["trivial"],c["proved"],"/F%d"%c["failed"] if c["failed"] else "") for k,c in r["checks"].items())+"\n"
    if r["reached"]: s+="   reached: %s\n"%r["reached"]
    if r["panics"]: s+="   panics: %s\n"%str(r["panics"])[:600]
    for e in r["errors"]: s+="   ERR %s\n"%e[:500]
    for i,v in enumerate(r["violations"][:2]):
        inp=os.path.join(run.BUILD,"%s-%d.txt"%(n,i)); run.write_input(inp,v)
        ok,t=run.replay(exe,n,inp,v)
        s+="   VIOL %s [%s] replay=%s %s\n      %s\n"%(v["check"],v["msg"][:400],ok,t[-300:].replace("\n"," / "),str(v["inputs"])[:200])
    return s.rstrip()
with ThreadPoolExecutor(8) as ex:
    for f in [ex.submit(one,n) for n in names]: print(f.result(),flush=True)
