"""Writes MANIFEST.json from properties.jsonl and the check modules that exist."""
import importlib
import json
import pathlib
import sys

root = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(root))
SETUP = "bash -c '. /opt/vp/env.sh; PYTHONPATH=/verif:/repo python -m vh.ext plain asan tsan'"
checks, na = [], []
for line in (root / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)
    f = root / "vh" / "props" / f"{p['id'].lower()}.py"
    if not f.exists():
        na.append(dict(property=p["id"], reason="the monitor for this property is not built yet"))
        continue
    m = importlib.import_module(f"vh.props.{p['id'].lower()}")
    checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough",
                       evidence_file=f"evidence/{p['id']}.json", technique=m.TECHNIQUE, level=m.LEVEL, level_note=m.NOTE))
hooks = dict(guard="none", enable="no hooks: the checks observe the code at its public interfaces and wrap objects from outside", source_commits=[])
(root / "MANIFEST.json").write_text(json.dumps(dict(version=1, setup_cmd=SETUP, hooks=hooks, checks=checks, not_applicable=na,
    notes="Every check runs the code of /repo's working tree; the native index builder is compiled from the working tree by the check itself."), indent=1) + "\n")
print(len(checks), "claimed", len(na), "not claimed")
