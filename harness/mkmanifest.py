"""Writes MANIFEST.json from the properties and the list of checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = "TLA+ specification checked with TLC, bound to the code by trace validation"
NOTES = {
 "C03": "Machine.tla (reference printer) model checked on all short programs of a seed-varied alphabet; each of those programs, and seeded random and shipped ones, run in the real parser and every recorded position validated by TLC (VTrack.tla). Trusts the independent tokenizer (itself checked by C02).",
}
NOTES.update(json.load(open(os.path.join(V, "harness", "notes.json"))) if os.path.exists(os.path.join(V, "harness", "notes.json")) else {})
m = {"version": 1, "setup_cmd": "python3 harness/setup.py", "checks": [], "not_applicable": [],
     "notes": "No hooks: everything observed is public (text written, attributes, callbacks, command lines). See DESIGN.md."}
for p in props:
    i = p["id"]
    if i in NOTES:
        m["checks"].append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
                            "technique": T, "level": "model_checking", "level_note": NOTES[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet (see DESIGN.md for its plan)"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
