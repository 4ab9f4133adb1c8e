import json, sys
from pathlib import Path
here = Path(__file__).resolve().parent
sys.path.insert(0, str(here))
from props import P
root = here.parent
lines, checks, na = [], [], []
for p in P:
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "state": p["state"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p["observe"], "hook_needed": None}}))
    assert len(p["title"]) <= 80, p["id"]
    if (root / "checks" / f"{p['id'].lower()}.py").is_file() and not p["na"]:
        checks.append({"property": p["id"], "quick_cmd": f"./run.sh {p['id']}", "thorough_cmd": f"./run.sh {p['id']}",
                       "evidence_file": f"evidence/{p['id']}.json",
                       "technique": "property-based testing (Hypothesis generators, shrinking, explicit oracle)",
                       "level": "exploration", "level_note": p["level_note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
(root / "properties.jsonl").write_text("\n".join(lines) + "\n")
(root / "MANIFEST.json").write_text(json.dumps({"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
                                                "not_applicable": na,
                                                "notes": "run.sh ID [--replay FILE]; VERIF_SEED and VERIF_TIER select seed and budget."}, indent=1) + "\n")
