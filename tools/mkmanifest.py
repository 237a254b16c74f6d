import json, sys
sys.path.insert(0, "/verif/tools")
import props_meta
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in props_meta.META:
        m = props_meta.META[i]
        b = ("  Bounded, not proved: " + "; ".join(m["bounded"]) + ".") if m["bounded"] else ""
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough", evidence_file=f"evidence/{i}.json",
                           technique="contract-based deductive verification (Verus) of functions extracted from the tree on every run, plus bounded counterexample search on the real crate",
                           level=m["level"], level_note=m["note"] + b + "  Assumes: the contracts on library stand-ins listed in the evidence's trusted_base, the extractor's rewrites, Verus and Z3."))
    else:
        na.append(dict(property=i, reason=props_meta.NA.get(i, "no contract built yet") if hasattr(props_meta, "NA") else "no contract built yet"))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
               notes="No hooks were added to /repo. Fixes are listed in KNOWN_FINDINGS."), open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
