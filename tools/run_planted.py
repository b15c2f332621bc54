"Runs the quick check of its property against every planted bug in a scratch clone of /repo; writes tools/caught.json."
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
OUT = os.path.join(ROOT, "tools", "caught.json")
caught = json.load(open(OUT, encoding="utf-8")) if os.path.exists(OUT) and len(sys.argv) > 1 else {}
scratch = tempfile.mkdtemp(prefix="planted")
clone = os.path.join(scratch, "repo")
try:
    subprocess.run(["git", "clone", "-q", "/repo", clone], check=True)
    for sid in sys.argv[1:] or sorted(os.listdir(SEEDED)):
        prop = json.load(open(os.path.join(SEEDED, sid, "meta.json"), encoding="utf-8"))["property"]
        subprocess.run(["git", "-C", clone, "checkout", "-q", "--", "."], check=True)
        r = subprocess.run(["git", "-C", clone, "apply", os.path.join(SEEDED, sid, "patch.diff")])
        if r.returncode:
            caught[sid] = "does not apply"
        else:
            r = subprocess.run(["./check", prop], cwd=ROOT, env=dict(os.environ, VERIF_REPO=clone, VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True)
            caught[sid] = prop if r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout else "no"
        print(sid, caught[sid], flush=True)
finally:
    shutil.rmtree(scratch)
json.dump(dict(sorted(caught.items())), open(OUT, "w", encoding="utf-8"), indent=1)
