import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import worlds as W
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {
    "P30": "a compile-time property of the type system: nothing executes, so there is no schedule, fault or history to simulate",
    "P31": "a performance property (number of loads); simulation decides nothing about performance",
}
m = dict(version=1, setup_cmd="mkdir -p build out evidence && g++ --version >/dev/null && python3 tools/check.py --selftest",
         checks=[], not_applicable=[], notes="See DESIGN.md. Known and fixed findings: known_findings.txt. No hooks in /repo: policies, registration records, operator new and abort are the seams.")
for p in props:
    i = p["id"]
    if i in W.CHECKS:
        ws = ", ".join(w for w, _, _ in W.CHECKS[i])
        m["checks"].append(dict(property=i, quick_cmd="python3 tools/check.py %s quick" % i, thorough_cmd="python3 tools/check.py %s thorough" % i,
            evidence_file="evidence/%s.json" % i, technique="deterministic simulation with fault injection (%s)" % ws, level="exploration",
            level_note=W.NOTES.get(i, W.NOTES["*"])))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "no check yet")))
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
