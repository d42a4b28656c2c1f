#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a module in props/ is claimed, the rest are listed with a reason."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(f"{V}/properties.jsonl")]
checks, na = [], []
NOTES = json.load(open(f"{V}/tools/notes.json"))
for p in props:
    f = f"{V}/props/{p['id'].lower()}.py"
    if os.path.exists(f):
        n = NOTES.get(p["id"], {})
        checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p['id']}",
                           evidence_file=f"evidence/{p['id']}.json",
                           technique=n.get("technique", "TLA+ specification model-checked with TLC; TLC validates traces recorded from the real code"),
                           level="model_checking",
                           level_note=n.get("note", "The specification is checked exhaustively at small constants; the code is bound to it by trace validation of TLC-generated and seeded random executions, so the code is covered on the executions explored, not on all. Trusted: TLC, the harness adapter, the Rust toolchain.")))
    else:
        na.append(dict(property=p["id"], reason=NOTES.get(p["id"], {}).get("na", "No check yet: under construction.")))
m = dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="cfg(rustomata_verif)", enable="RUSTFLAGS=--cfg rustomata_verif (set by lib/vf.py when it builds the harness crates)", source_commits=NOTES.get("hook_commits", [])),
         checks=checks, not_applicable=na, notes="TLA+ with TLC. One driver: check.py <id>. See DESIGN.md.")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(checks), "claimed,", len(na), "not yet")
