"""write MANIFEST.json"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contracts on the real functions, proved by symbolic execution of the source with z3/cvc5 obligations; run-time contract checks as bounded stand-ins"
CLAIMED = json.load(open(os.path.join(HERE, "tools", "claims.json")))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
man = {
    "version": 1,
    "setup_cmd": "true",
    "checks": [],
    "not_applicable": [],
    "notes": "Every check re-extracts the functions from /repo/src on every run. See DESIGN.md for the contracts, bounds and trusted base.",
}
for p in props:
    i = p["id"]
    c = CLAIMED.get(i)
    if c and "level" in c:
        man["checks"].append({"property": i, "quick_cmd": f"bash run.sh {i}", "thorough_cmd": f"bash run.sh {i} --tier thorough",
                              "technique": TECH, "level": c["level"], "level_note": c["note"]})
    else:
        man["not_applicable"].append({"property": i, "reason": (c or {}).get("reason", "the contracts for this property are not finished")})
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
