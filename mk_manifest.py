import json, sys
sys.path.insert(0, "/verif/lib"); import plan
notes = {
 "proof": "Every contract clause labelled with this property is discharged by Verus for all inputs and iterations, in the listed configurations, over code extracted mechanically from /repo on this run; a clause that fails is reported as a violation. What the contracts do not reach (see the evidence's trusted_base and assumptions: std and syn shims, code templates for declarations other than the fixture's) is covered by bounded executions of the compiled crate, labelled bounded and not counted as proved.",
 "exploration": "Bounded: generated client programs with an oracle computed from the property's statement, compiled against the current tree and run; no obligations are discharged for this property yet.",
}
checks = []
for p, d in plan.PLAN.items():
    checks.append({"property": p, "quick_cmd": "python3 run.py %s quick" % p, "thorough_cmd": "python3 run.py %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
      "technique": d.get("technique") or ("deductive verification (Verus) of contracts on the extracted gecs functions, with bounded execution as stand-in and replay" if d["level"] == "proof" else "bounded stand-in: generated programs against a specification oracle"),
      "level": d["level"], "level_note": d.get("level_note") or notes[d["level"]]})
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "hooks": {"guard": "cfg(gecs_verif)", "enable": "RUSTFLAGS='--cfg gecs_verif'", "source_commits": ["c9267e3"]},
     "checks": checks,
     "not_applicable": [{"property": "C18", "reason": "the property is about which client programs rustc accepts or rejects (lifetimes, auto traits, absence of unsafe in expansions); a contract on gecs' functions neither expresses nor decides the behaviour of rustc's type and borrow checker, so no obligation of a deductive verifier corresponds to it"}],
     "notes": "Fixes and known findings: known-findings.txt. Every check rebuilds from /repo and writes only under /verif/.build and /verif/evidence."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
