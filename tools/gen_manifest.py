"""Regenerate MANIFEST.json from the check modules: /opt/venv/bin/python tools/gen_manifest.py"""

import importlib
import json
import pathlib
import sys

HERE = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(HERE))
sys.dont_write_bytecode = True
from mc import core  # noqa: E402

core.load_skfolio()
checks, missing = [], []
for line in (HERE / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)
    path = HERE / "mc" / "checks" / f"{p['id'].lower()}.py"
    if not path.exists():
        missing.append(dict(property=p["id"], reason="check not built yet"))
        continue
    m = importlib.import_module(f"mc.checks.{p['id'].lower()}")
    b = m.BOUNDS["quick"] if isinstance(m.BOUNDS, dict) else m.BOUNDS
    checks.append(
        dict(
            property=p["id"],
            quick_cmd=f"bash run.sh {p['id']}",
            thorough_cmd=f"bash run.sh {p['id']}",
            evidence_file=f"evidence/{p['id']}.json",
            technique=getattr(
                m, "TECHNIQUE", "explicit-state bounded model checking on the real code"
            ),
            level=getattr(m, "LEVEL", "model_checking"),
            level_note="exhaustive within bounds, executed on /repo's code; bounds: " + b,
        )
    )
doc = dict(version=1, setup_cmd="true", checks=checks, not_applicable=missing)
doc["notes"] = (
    "No hooks are needed: every check drives the public API of /repo/src directly. "
    "Violations are replayed with `/opt/venv/bin/python -m mc.replay <file>` in /verif."
)
(HERE / "MANIFEST.json").write_text(json.dumps(doc, indent=1) + "\n")
print(len(checks), "checks,", len(missing), "missing")
