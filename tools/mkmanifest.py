"""Writes /verif/MANIFEST.json from the check modules present (NOTE and TECH are read from them as text)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH, NOTE = {}, {}
exec(open(os.path.join(here, "tools", "notes.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
missing = []
for i in ids:
    if not os.path.exists(os.path.join(here, "vmon", "checks", i.lower() + ".py")):
        missing.append(i)
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check {i}",
        "thorough_cmd": f"./check {i} --thorough",
        "technique": "runtime monitoring: " + TECH[i],
        "level": "exploration",
        "level_note": NOTE[i],
    })
out = {
    "version": 1,
    "setup_cmd": "./check --self-test",
    "checks": checks,
    "not_applicable": [{"property": i, "reason": "check under construction"} for i in missing],
    "notes": "No hooks in /repo: the monitors observe the public API of the unmodified library. Known findings: known_findings.json.",
}
json.dump(out, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks; without:", missing)
