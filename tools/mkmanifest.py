#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from plan import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in PROPS: continue
    p = PROPS[i]
    checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i, evidence_file="evidence/%s.json" % i,
        technique="deterministic simulation with fault injection: seeded schedules and faults over the real library code in one process",
        level=p.get("level", "exploration"),
        level_note=p.get("note", "Seeded search over schedules, fault sequences and histories; every violation is replayed exactly and minimised. Assumes the simulated operating system answers as the real one would.")))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "not built yet")) for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd="python3 setup.py", hooks=dict(guard="none", enable="no hooks are needed in /repo: every seam is taken at link level (symbol interposition and compiler access callbacks), so the shipped build is unchanged", source_commits=[]),
    checks=checks, not_applicable=na, notes="See DESIGN.md. replay.py FILE replays a violation; check.py ID runs one property.")
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1); open(H + "/MANIFEST.json", "a").write("\n")
