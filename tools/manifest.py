#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py."""
import json, os, sys
sys.dont_write_bytecode = True
D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, D)
import plan
props = [json.loads(l) for l in open(os.path.join(D, "..", "properties.jsonl"))]
GEN = "exploration: every case is compared with an explicit oracle, exhaustively at the small end and by seeded random search beyond it; a pass says no counterexample exists among the cases in the evidence file. "
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "cfg simd_verif", "enable": 'RUSTFLAGS="--cfg simd_verif"',
              "source_commits": ["c20a77425a1b0aa9ba5c4b9e1cd2bd4e0a5e3a3c"]},
    "checks": [], "not_applicable": [],
    "notes": "known-findings.txt lists findings; replays/ receives replay files, run one with: python3 check.py --replay FILE",
}
import subprocess
h = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
m["hooks"]["source_commits"] = [l.split()[0] for l in h.splitlines() if " verif: " in l]
for p in props:
    i = p["id"]
    if i not in plan.PROPS:
        m["not_applicable"].append({"property": i, "reason": plan.NOT_YET.get(i, "no check yet")})
        continue
    q = plan.PROPS[i]
    m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                        "evidence_file": f"evidence/{i}.json", "technique": q["technique"], "level": "exploration",
                        "level_note": GEN + q.get("note", plan.NOTE)})
json.dump(m, open(os.path.join(D, "..", "MANIFEST.json"), "w"), indent=1)
open(os.path.join(D, "..", "MANIFEST.json"), "a").write("\n")
