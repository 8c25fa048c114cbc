#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os, subprocess
from props import P
from notapp import NA
HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P + [n["p"] for n in NA]:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p.get("state"):
            a["state"] = [{"name": n, "meaning": w} for n, w in p["state"]]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
TECH = "solver-based: symbolic execution of the compiled LLVM IR of the real code, obligations decided by SMT (z3/cvc5) and exact polynomial/linear reasoning"
checks = [{"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"], "thorough_cmd": "python3 run.py %s thorough" % p["id"],
           "technique": TECH, "level": "other", "level_note": p["note"] + (" Trusts: " + "; ".join(p["assume"]) if p["assume"] else "")} for p in P]
hooks = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s", "--reverse"], stdout=subprocess.PIPE, text=True).stdout.splitlines() if l.split(" ", 1)[1].startswith("hooks:")]
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "hooks": {"guard": "cfg(kyber_verif)", "enable": "RUSTFLAGS='--cfg kyber_verif' (set by run.py for the harness build only)", "source_commits": hooks},
     "checks": checks, "not_applicable": [{"property": n["p"]["id"], "reason": n["reason"]} for n in NA],
     "notes": "Levels are 'other': bounded solver verdicts over symbolic executions of the real code; see DESIGN.md for bounds and trust."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
