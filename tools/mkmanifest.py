#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
NA = {
}
LEVEL = {}
def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        if p in plan.PLAN:
            pl = plan.PLAN[p]
            c = {"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p, "evidence_file": "evidence/%s.json" % p,
                 "technique": pl.get("technique", plan.TECH.get(p, "abstract interpretation of MIR")), "level": pl["level"], "level_note": pl["rule"] + ". " + pl["explanation"] + " Assumes: " + "; ".join(pl["assumptions"] or ["nothing beyond the trusted base"]) + ". Trusted: " + "; ".join(pl["trusted"]) + "."}
            checks.append(c)
        else:
            na.append({"property": p, "reason": NA.get(p, "not yet covered by a check")})
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
         "notes": "All checks analyse the type-checked program of /repo (HIR, MIR, evaluated constants) in every build configuration; nothing of /repo is executed except its build script through cargo. See DESIGN.md."}
    json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
main()
