#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/catalogue.py (development tool)."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "tools"))
from catalogue import PROPS, HOOK_COMMITS
TECH = "bounded symbolic execution of the compiled Rust code with Kani/CBMC, decided by a SAT solver"
props, checks, na = [], [], []
for p in PROPS:
    o = {"id": p["id"], "title": p["title"], "statement": p["statement"],
         "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
         "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                     "hook_needed": "cfg(laya_verif) module that includes the harness text"}}
    assert len(p["title"]) <= 80, p["id"]
    props.append(json.dumps(o))
    if os.path.exists(f"{R}/props/{p['id']}.rs") and "na" not in p:
        checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
                       "evidence_file": f"evidence/{p['id']}.json", "technique": TECH, "level": "other",
                       "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p.get("na", "no check built yet")})
open(f"{R}/properties.jsonl", "w").write("\n".join(props) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup",
           "hooks": {"guard": "cfg(laya_verif)", "enable": "RUSTFLAGS='--cfg laya_verif' and LAYA_VERIF_DIR=<directory with the generated harness files>; check.py sets both",
                     "source_commits": HOOK_COMMITS},
           "checks": checks, "not_applicable": na,
           "notes": "One property is one file props/<ID>.rs; check.py generates, compiles, decides, replays."},
          open(f"{R}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
