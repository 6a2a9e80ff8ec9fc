"""mkseed.py SPEC.py: SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO. Writes seeded/<ID>/."""
import json
import pathlib
import runpy
import shutil
import subprocess
import sys
import tempfile

root = pathlib.Path(__file__).resolve().parent.parent
for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    d = root / "seeded" / s["ID"]
    d.mkdir(parents=True, exist_ok=True)
    with tempfile.TemporaryDirectory(prefix="mkseed") as t:
        subprocess.run(["git", "clone", "-q", "/repo", t], check=True)
        base = subprocess.run(["git", "-C", t, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[-1]
        for f, old, new in s["EDITS"]:
            p = pathlib.Path(t, f)
            text = p.read_text()
            assert text.count(old) == 1, (f, text.count(old), old)
            first = text[: text.index(old)].count("\n") + 1
            lines = old.count("\n") + 1
            blame = subprocess.run(["git", "-C", t, "blame", "-s", "-L", f"{first},+{lines}", "--", f], capture_output=True, text=True).stdout.splitlines()
            ours = [x for x in blame if not base.startswith(x.split()[0].lstrip("^"))]
            for x in ours:
                print("  not an original line (fine as context only):", x[:120])
            p.write_text(text.replace(old, new))
        diff = subprocess.run(["git", "-C", t, "diff"], capture_output=True, text=True).stdout
    (d / "patch.diff").write_text(diff)
    (d / "meta.json").write_text(json.dumps(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), indent=1) + "\n")
    for f in ("kit.py", "demo.sh"):
        shutil.copy(root / "tools" / "seedkit" / f, d / f)
    (d / "demo.sh").chmod(0o755)
    (d / "demo.py").write_text(s["DEMO"].lstrip())
    print(s["ID"])
