#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that the two stay in step."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, level_note=None, na=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
               "why_tests_cant": why, "anchors": a}, level_note, na))
exec(open(os.path.join(ROOT, "tools/table.py")).read())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p, _, _ in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
TECH = "deterministic simulation with fault injection: seeded schedules and faults, whole program in one process"
m = {
    "version": 1,
    "setup_cmd": "bash build.sh",
    "hooks": {"guard": "cargo feature sim-hooks of the decy crate (off by default)",
              "enable": "/verif/decy-cli compiles /repo/crates/decy/src/main.rs as a library with the feature sim-hooks on; every other seam is the C library the program calls, replaced at link time by the simulator",
              "source_commits": ["26631e5"]},
    "checks": [{"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
                "technique": TECH, "level": "exploration", "level_note": n, "evidence_file": f"evidence/{p['id']}.json"}
               for p, n, na in P if na is None],
    "not_applicable": [{"property": p["id"], "reason": na} for p, n, na in P if na is not None],
    "notes": "One seed is one run: plan, schedule and faults are a function of VERIF_SEED. A replay file runs with: target/debug/decysim replay <file>.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
