#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
def chk(pid, technique, note): T[pid] = (technique, note)
G = "The verdict is about the executions observed (counts in the evidence file), not a proof; trusts the harness's own HTTP peer and model, and the loopback network."
chk("C01", "runtime monitoring: offline exactly-once/ordering checker over handler log and wire traces under concurrent pipelined load", G)
exec(open(os.path.join(D, "tools", "manifest_checks.py")).read()) if os.path.exists(os.path.join(D, "tools", "manifest_checks.py")) else None
props = [json.loads(l) for l in open(os.path.join(D, "properties.jsonl"))]
hook = os.popen("git -C /repo log --format=%H --grep='^verification hook' ").read().split()
m = {"version": 1, "setup_cmd": "./setup.sh",
 "hooks": {"guard": "cfg(wruster_verif)", "enable": "RUSTFLAGS='--cfg wruster_verif' for the harness builds target/hook, target/tsan, target/asan and for /verif/miri (see env.sh)", "source_commits": hook},
 "checks": [{"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "./check.sh " + p["id"], "technique": T[p["id"]][0], "level": "exploration", "level_note": T[p["id"]][1]} for p in props if p["id"] in T],
 "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in T]}
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1); print(len(m["checks"]), "checks")
