"Writes tools/planted.md, the list of planted bugs with the check that catches each (see tools/caught.json, written by tools/run_planted.py)."
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(ROOT, "tools", "caught.json"), encoding="utf-8"))
rows = []
for sid in sorted(os.listdir(os.path.join(ROOT, "seeded")), key=lambda s: int("".join(c for c in s.split("-")[0] if c.isdigit()))):
    meta = json.load(open(os.path.join(ROOT, "seeded", sid, "meta.json"), encoding="utf-8"))
    rows.append(f"| {sid} | {meta['property']} | {caught.get(sid, '?')} | {meta['needs']} |")
text = f"""{len(rows)} changes are kept under `seeded/`. Each was written from the text of its property; each compiles, passes the tests and has a demonstration
that fails with it. The column *caught* names the check run (quick tier, seed 1) that reports it.

| change | property | caught | needs |
| -- | -- | -- | -- |
""" + "\n".join(rows) + "\n"
open(os.path.join(ROOT, "tools", "planted.md"), "w", encoding="utf-8").write(text)
