"""Write MANIFEST.json from properties.jsonl, the check modules present and tools/na.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "level_notes.json")))
na = {d["property"]: d["reason"] for d in json.load(open(os.path.join(V, "tools", "na.json")))}
checks, nal = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        checks.append(dict(
            property=p, quick_cmd=f"bash check.sh {p} quick", thorough_cmd=f"bash check.sh {p} thorough",
            evidence_file=f"evidence/{p}.json",
            technique="deterministic simulation with fault injection: seeded search over schedules and "
                      "fault sequences, minimised exactly replayable counterexamples",
            level="exploration", level_note=NOTES[p]))
    else:
        nal.append(dict(property=p, reason=na.get(p, "check not built yet")))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks,
               hooks=dict(guard="FEAX_SIM", enable="FEAX_SIM=1 (no hook was needed: every seam is an existing import, "
                          "callback or library boundary patched from /verif)", source_commits=[]),
               not_applicable=nal),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(nal), "not applicable")
