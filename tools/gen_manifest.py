"Writes MANIFEST.json for the properties that have a check in rt/props."
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(line) for line in open(os.path.join(ROOT, "properties.jsonl"), encoding="utf-8")]
TECH = {}
NOTE = {}
exec(open(os.path.join(ROOT, "tools", "notes.py"), encoding="utf-8").read())
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(ROOT, "rt", "props", pid.lower() + ".py")):
        checks.append({
            "property": pid,
            "quick_cmd": f"./check {pid}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check {pid}",
            "evidence_file": f"evidence/{pid}.json",
            "technique": TECH.get(pid, "runtime monitoring: reference-model oracle over generated workloads"),
            "level": "exploration",
            "level_note": NOTE.get(pid, "No violation in the executions observed; reach is that of the random programs, values and documents generated, judged by an independent reference model."),
        })
    else:
        na.append({"property": pid, "reason": "check under construction"})
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c 'import jsonschema, sys; sys.exit(sys.version_info < (3, 12))'",
    "checks": checks,
    "not_applicable": na,
    "notes": "Checks import strong_typing from /repo's working tree; nothing is built and no hooks are needed. See DESIGN.md.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
