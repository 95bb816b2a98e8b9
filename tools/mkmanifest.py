"""Writes MANIFEST.json from the list of properties and the checks in props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for d in ids:
    p = d["id"]
    if hasattr(props, p):
        t, note = props.ABOUT[p]
        checks.append({"property": p, "quick_cmd": "VERIF_TIER=quick bash tools/check.sh " + p,
                       "thorough_cmd": "VERIF_TIER=thorough bash tools/check.sh " + p,
                       "technique": t, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": p, "reason": props.NA.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "hooks": {"guard": "cargo feature \"verif\"", "enable": "the harness crates compile /repo's sources with feature verif on", "source_commits": props.HOOKS},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
