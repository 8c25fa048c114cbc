#!/usr/bin/env python3
"""Build /repo's current tree with the harnesses, emit its LLVM IR, and decide one property.

usage: run.py <property> [quick|thorough]      decide a property
       run.py --setup                          build everything once
       run.py --harness NAME [engine options]  run one harness (development)
Exit: 0 the property held, 1 violation (replayed natively), 2 no answer.
"""
import fcntl, json, os, re, subprocess, sys, time, shutil, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("KV_BUILD", os.path.join(HERE, "build"))
REPO = os.environ.get("KV_REPO", "/repo")
EVID = os.environ.get("KV_EVID", os.path.join(HERE, "evidence"))
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
sys.path.insert(0, HERE)
from checks import PROPS, HARNESS  # noqa: E402

ENV = dict(os.environ)
ENV.update({
    "PATH": "/root/.cargo/bin:" + ENV.get("PATH", ""),
    "RUSTUP_TOOLCHAIN": TOOLCHAIN,
    "CARGO_NET_OFFLINE": "true",
    "CARGO_INCREMENTAL": "0",
})
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET_DIR"):
    ENV.pop(k, None)


# predicates whose paths are joined where they return, so that branching inside them does not multiply
MERGE = ["<* as kyber_rs::group::*>::is_canonical", "<* as kyber_rs::group::*>::has_small_order"]
OVF = {n for n, h in HARNESS.items() if h.get("ovf")}


class NoAnswer(Exception):
    pass


def sh(cmd, cwd=None, env=None, what=""):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise NoAnswer("%s failed (%d):\n%s" % (what or cmd[0], p.returncode, p.stdout[-6000:]))
    return p.stdout


def build_engine():
    sh(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(BUILD, "engine")],
       cwd=os.path.join(HERE, "engine"), what="engine build")
    return os.path.join(BUILD, "engine", "release", "symx")


def stub_names():
    out = set()
    for f in glob.glob(os.path.join(HERE, "harness/src/*.rs")):
        out |= set(re.findall(r"\b(stub_[a-z0-9_]+)\b", open(f).read()))
    return out


def build_harness(var=""):
    """compile harness + /repo, then emit whole-program LLVM IR; var="ovf": with arithmetic overflow detection in /repo's crate"""
    src = os.path.join(HERE, "harness")
    hd = os.path.join(BUILD, "harness" + var)
    os.makedirs(hd, exist_ok=True)
    # the manifest is generated so that KV_REPO can point at a scratch copy
    toml = open(os.path.join(src, "Cargo.toml")).read()
    toml = toml.replace('path = "/repo"', 'path = "%s"' % REPO).replace("../stubs", os.path.join(HERE, "stubs"))
    toml += '\n[[bin]]\nname = "kvh"\npath = "%s"\n' % os.path.join(src, "src/main.rs")
    if var == "ovf":
        toml += "\n[profile.dev.package.kyber-rs]\noverflow-checks = true\n"
    put(os.path.join(hd, "Cargo.toml"), toml)
    lock = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lock):
        lock = os.path.join(src, "Cargo.lock.repo")
    if not os.path.exists(os.path.join(hd, "Cargo.lock")):
        shutil.copy(lock, os.path.join(hd, "Cargo.lock"))
    env = dict(ENV)
    env["RUSTFLAGS"] = "--cfg kyber_verif -Awarnings"
    td = os.path.join(BUILD, "htarget" + var)
    sh(["cargo", "rustc", "--offline", "--target-dir", td, "--", "--emit=llvm-ir", "-C", "save-temps"], cwd=hd, env=env,
       what="harness build")
    exe = os.path.join(td, "debug", "kvh")
    bcs = sorted(glob.glob(os.path.join(td, "debug/deps/kvh-*.lto.input.bc")), key=os.path.getmtime)
    if not bcs:
        raise NoAnswer("no bitcode was emitted")
    bc = bcs[-1]
    for b in bcs[:-1]:
        os.remove(b)
    ll = os.path.join(BUILD, "all%s.ll" % var)
    if os.path.exists(ll) and os.path.getmtime(ll) > os.path.getmtime(bc):
        return exe, ll
    keep = set(subprocess.run([exe], stdout=subprocess.PIPE, text=True, env=ENV).stdout.split()) | stub_names() | {"main"}
    sysroot = sh(["rustc", "--print", "sysroot"]).strip()
    opt = os.path.join(sysroot, "lib/rustlib/x86_64-unknown-linux-gnu/bin/opt")
    sh([opt, "-S", "-passes=internalize,globaldce,function(mem2reg),globaldce",
        "--internalize-public-api-list=" + ",".join(sorted(keep)), bc, "-o", ll + ".tmp"], what="opt")
    os.rename(ll + ".tmp", ll)
    return exe, ll


def put(path, txt):
    if os.path.exists(path) and open(path).read() == txt:
        return
    with open(path, "w") as f:
        f.write(txt)


def build(ovf=True):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with ThreadPoolExecutor(3) as ex:
            a = ex.submit(build_engine)
            b = ex.submit(build_harness)
            c = ex.submit(build_harness, "ovf") if ovf else None
            eng = a.result()
            exe, ll = b.result()
            o = c.result() if ovf else None
    return eng, exe, ll, o


def engine_cmd(eng, ll, name, out, extra=()):
    h = HARNESS.get(name, {})
    cmd = [eng, "--ll", ll, "--harness", name, "--out", out]
    if h.get("int"):
        cmd.append("--int")
    if h.get("real_fmt"):
        cmd.append("--real-fmt")
    for r in h.get("redirect", ()):
        cmd += ["--redirect", r]
    for m in MERGE + list(h.get("merge", ())):
        cmd += ["--merge", m]
    for k, v in h.get("opts", {}).items():
        cmd += ["--" + k, str(v)]
    return cmd + list(extra)


def write_input(path, v):
    with open(path, "w") as f:
        for n, d in v["inputs"].items():
            f.write("in\t%s\t%s\n" % (n, d))
        for fam, a, b in v["ufs"]:
            f.write("uf\t%s\t%s\t%s\n" % (fam, a, b))
        for e in v.get("encs", ()):
            f.write("enc\t%s\t%s\t%s\n" % tuple(e))
        for e in v.get("decs", ()):
            f.write("dec\t%s\t%s\t%s\t%s\n" % tuple(e))


def replay1(exe, name, inp, timeout=60):
    """returns (confirmed, text)"""
    try:
        p = subprocess.run([exe, name, inp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return True, "REPLAY-HANG (no result within %d s)" % timeout
    t = p.stdout.strip()
    if "REPLAY-ASSUME-FAILED" in t:
        return False, t
    if p.returncode == 0:
        return False, t
    if p.returncode in (1,) and "REPLAY-FAIL" in t:
        return True, t
    if p.returncode < 0 or p.returncode == 101:
        return True, t
    return False, t


def replay(exe, name, inp, v=None):
    """run the counterexample against the real code; where the solver's interpretation of an abstracted
    function (hash, encoding) has no native counterpart, keep its choices and draw the rest at random"""
    ok, t = replay1(exe, name, inp)
    if ok or v is None:
        return ok, t
    full = ["in\t%s\t%s\n" % x for x in v["inputs"].items()]
    small = ["in\t%s\t%s\n" % (n, d) for n, d in v["inputs"].items() if not n.endswith("]") and len(d) < 10]
    for k in range(1, 25):
        for part in ([full] if k == 1 else []) + [small]:
            f2 = inp[:-4] + ".r.txt"
            with open(f2, "w") as f:
                f.write("".join(part) + "seed\t%d\n" % k)
            ok, t2 = replay1(exe, name, f2)
            if ok:
                os.replace(f2, inp)
                return ok, t2
    os.remove(f2)
    return False, t


def run_one(eng, exe, ll, name, tier, budget, known):
    h = HARNESS[name]
    wd = os.path.join(BUILD, "work")
    os.makedirs(wd, exist_ok=True)
    out = os.path.join(wd, name + ".json")
    if os.path.exists(out):
        os.remove(out)
    extra = ["--deadline", str(int(budget))]
    if tier == "thorough" and h.get("thorough_opts"):
        for k, v in h["thorough_opts"].items():
            extra += ["--" + k, str(v)]
    try:
        p = subprocess.run(engine_cmd(eng, ll, name, out, extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=ENV, timeout=budget + 60, errors="replace")
        txt = p.stdout
    except subprocess.TimeoutExpired:
        txt = "engine timeout"
    if not os.path.exists(out):
        return {"harness": name, "fatal": "engine gave no result: " + txt[-1500:]}
    r = json.load(open(out))
    r["confirmed"], r["unconfirmed"], r["known"] = [], [], []
    rd = os.path.join(EVID, "replay")
    os.makedirs(rd, exist_ok=True)
    for i, v in enumerate(r["violations"]):
        inp = os.path.join(rd, "%s-%d.txt" % (name, i))
        write_input(inp, v)
        ok, t = replay(exe, name, inp, v)
        rec = {"check": v["check"], "msg": v["msg"], "input": inp, "native": t[-800:]}
        if not ok:
            r["unconfirmed"].append(rec)
            continue
        kf = [k for k in known if k["harness"] == name and k["check"] == v["check"]]
        if kf:
            rec["finding"] = kf[0]
            r["known"].append(rec)
        else:
            r["confirmed"].append(rec)
    return r


def main():
    if sys.argv[1:2] == ["--setup"]:
        try:
            build()
        except NoAnswer as e:
            print(e)
            return 2
        return 0
    if sys.argv[1:2] == ["--harness"]:
        name = sys.argv[2]
        eng, exe, ll, o = build(name in OVF)
        if name in OVF:
            exe, ll = o
        out = os.path.join(BUILD, name + ".dev.json")
        p = subprocess.run(engine_cmd(eng, ll, name, out, sys.argv[3:]), env=ENV)
        r = json.load(open(out))
        fs = r.pop("functions")
        print(json.dumps(r, indent=1)[:6000])
        print(len(fs), "functions")
        for i, v in enumerate(r["violations"]):
            inp = os.path.join(BUILD, "%s-%d.txt" % (name, i))
            write_input(inp, v)
            print(inp, replay(exe, name, inp, v))
        return p.returncode
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    cfg = PROPS[prop]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        eng, exe, ll, o = build(any(n in OVF for n in list(cfg["quick"]) + list(cfg.get("thorough", []))))
    except NoAnswer as e:
        print(e)
        print("NO-ANSWER property=%s build failed" % prop)
        return 2
    tb = time.time() - t0
    known = [k for k in json.load(open(os.path.join(HERE, "known-findings.json")))["known"] if k["property"] == prop]
    names = list(cfg["quick"]) + (list(cfg.get("thorough", [])) if tier == "thorough" else [])
    total = 820 if tier == "quick" else 6 * 3600
    left = max(60, total - tb)
    with ThreadPoolExecutor(int(os.environ.get("KV_JOBS", "8"))) as ex:
        fut = {n: ex.submit(run_one, eng, *(o if n in OVF else (exe, ll)), n, tier, min(left, HARNESS[n].get("budget", 400 if tier == "quick" else 3600)), known) for n in names}
        res = {n: f.result() for n, f in fut.items()}
    rc = 0
    errs, nviol = [], 0
    for n in names:
        r = res[n]
        if r.get("fatal"):
            errs.append("%s: %s" % (n, r["fatal"]))
            continue
        for rec in r["confirmed"]:
            nviol += 1
            print("VIOLATION property=%s replay=%s" % (prop, rec["input"]))
            print("  harness %s check %s: %s" % (n, rec["check"], rec["msg"][:600]))
            print("  native replay: %s" % rec["native"][-400:].replace("\n", " / "))
        for rec in {id(k["finding"]): k for k in r["known"]}.values():
            print("KNOWN-FINDING: property=%s %s" % (prop, rec["finding"]["what"]))
        for rec in r["unconfirmed"]:
            errs.append("%s: counterexample for %s did not reproduce natively: %s / %s" % (n, rec["check"], rec["msg"][:300], rec["native"][-300:]))
        for e in r["errors"]:
            errs.append("%s: %s" % (n, e[:800]))
        if not r["violations"] and not r["errors"]:
            if r["completed_paths"] < 1 or not r["checks"]:
                errs.append("%s: nothing was decided (vacuous)" % n)
            for c in HARNESS[n].get("need", ()):
                if c not in r["checks"] and c not in r["reached"]:
                    errs.append("%s: check %s was never reached" % (n, c))
    ev = evidence(prop, cfg, tier, seed, names, res, time.time() - t0, tb, nviol, errs)
    os.makedirs(os.path.join(EVID), exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if nviol:
        return 1
    if errs:
        for e in errs:
            print("NO-ANSWER " + e)
        return 2
    print("OK property=%s harnesses=%d obligations=%d queries=%d solver_s=%.1f wall_s=%.1f" % (
        prop, len(names), ev["coverage"]["obligations"], ev["coverage"]["solver_queries"], ev["coverage"]["solver_seconds"], ev["wall_s"]))
    return rc


def evidence(prop, cfg, tier, seed, names, res, wall, tb, nviol, errs):
    hs, fns, stubs = [], set(), set()
    tot = {"obligations": 0, "decided_by_solver": 0, "decided_by_simplification": 0, "solver_queries": 0, "solver_seconds": 0.0, "paths": 0, "instructions": 0}
    for n in names:
        r = res[n]
        if r.get("fatal"):
            hs.append({"harness": n, "error": r["fatal"][:300]})
            continue
        ob = sum(c["evaluated"] for c in r["checks"].values())
        tr = sum(c["trivial"] for c in r["checks"].values())
        tot["obligations"] += ob
        tot["decided_by_simplification"] += tr
        tot["decided_by_solver"] += sum(c["proved"] + c["failed"] for c in r["checks"].values())
        q = r["solver"]["queries"] + r["lia"]["queries"]
        s = r["solver"]["time_s"] + r["lia"]["time_s"]
        tot["solver_queries"] += q
        tot["solver_seconds"] += s
        tot["paths"] += r["paths"]
        tot["instructions"] += r["instructions"]
        fns |= set(r["functions"])
        stubs |= set(r["stubs"])
        hs.append({
            "harness": n, "bounds": HARNESS[n].get("bounds", ""), "paths": r["paths"], "completed_paths": r["completed_paths"],
            "panicking_paths": r["panic_paths"], "instructions": r["instructions"], "queries": q, "solver_s": round(s, 3),
            "checks": r["checks"], "reached": r["reached"], "wall_s": r["wall_s"],
            "known_findings": [k["check"] for k in r["known"]], "confirmed": [k["check"] for k in r["confirmed"]],
        })
    cov = {
        "explanation": "Symbolic execution of the LLVM IR compiled from /repo's current tree; every obligation below is a solver verdict over all "
                       "values of the symbolic inputs within the bounds stated per harness. " + cfg.get("explain", ""),
        "bounds": {n: HARNESS[n].get("bounds", "") for n in names},
        "functions_encoded": sorted(fns), "functions_replaced_by_models": sorted(stubs),
        "harnesses": hs, "build_s": round(tb, 1), "no_answer": errs,
    }
    cov.update(tot)
    cov["solver_seconds"] = round(cov["solver_seconds"], 3)
    return {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "other", "coverage": cov,
            "assumptions": cfg.get("assume", []), "wall_s": round(wall, 2), "violations": nviol}


if __name__ == "__main__":
    sys.exit(main())
