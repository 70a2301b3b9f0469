"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, sys
sys.path.insert(0, '/verif')
import registry
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.PROPS:
        r = registry.PROPS[i]
        note = registry.NOTES.get(i, "")
        what = "Every obligation generated from the current source is discharged for all inputs, over exact real arithmetic; " if r["level"] == "proof" else registry.BOUNDED
        checks.append({"property": i, "quick_cmd": "python3-vt check.py %s" % i, "thorough_cmd": "python3-vt check.py %s --thorough" % i,
                       "technique": "contract-based deductive verification (VCs generated from /repo's source by pyvc, z3/cvc5%s)" % (", Lean lemmas" if r["lean"] else ""),
                       "level": r["level"],
                       "level_note": (what + note +
                                      " Trusted: pyvc's Python semantics (cross-checked against CPython on every run), z3/cvc5" + (", Lean+Mathlib" if r["lean"] else "") + ". Assumptions are listed in the evidence file.").replace("  ", " ")})
        if r["lean"]:
            checks[-1]["theorems"] = [t for f, ts in r["lean"] for t in ts]
    else:
        na.append({"property": i, "reason": registry.NA.get(i, "not yet brought under contract")})
json.dump({"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "One CLI decides all properties: check.py. See DESIGN.md."}, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
