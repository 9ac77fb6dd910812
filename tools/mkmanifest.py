#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed checks."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BVT = "TLA+ specification (bit-serial theory model-checked by TLC) and TLC trace validation of recorded calls"
NOTE_BV = ("TLC exhausts the theory for small widths and then evaluates the specification on every recorded public call of the real "
           "code: complete for the enumerated small widths, sampled (seeded, boundary biased) above. Trusts TLC and the projection of values onto bits.")
CLAIMED = {i: (BVT, NOTE_BV) for i in ("C01", "C02", "C03", "C04", "C05", "C06", "C08")}
MACH = "TLA+ register machine: TLC checks its invariants, generates histories (exhaustive short, simulated long) that are replayed on the real code, and validates the recorded traces"
CLAIMED.update({i: (MACH, NOTE_BV) for i in ("C07", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28")})
exec(open(os.path.join(ROOT, "tools", "claims.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "claims.py")) else None
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 harness/setup.py",
     "checks": [{"property": p, "quick_cmd": f"python3 harness/checks.py {p}",
                 "thorough_cmd": f"VERIF_TIER=thorough python3 harness/checks.py {p}",
                 "technique": CLAIMED[p][0], "level": "model_checking", "level_note": CLAIMED[p][1]} for p in props if p in CLAIMED],
     "not_applicable": [{"property": p, "reason": "the specification module and its conformance check are still being built"} for p in props if p not in CLAIMED],
     "notes": "Every check is python3 harness/checks.py <id>; specifications are in spec/, drivers of the real code in harness/drv_*.py. No hooks in /repo."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
