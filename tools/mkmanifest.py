"""Regenerate MANIFEST.json from properties.jsonl and the modules in props/."""
import ast, json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = "deterministic simulation with fault injection (seeded search): "
meta = json.load(open(os.path.join(HERE, "tools", "manifest_meta.json")))
checks, na = [], []
for pid in ids:
    f = os.path.join(HERE, "props", pid + ".py")
    if not os.path.exists(f):
        na.append({"property": pid, "reason": meta["not_applicable"].get(pid, "check under construction")})
        continue
    level = [n.value.value for n in ast.parse(open(f).read()).body if isinstance(n, ast.Assign) and n.targets[0].id == "LEVEL"][0]
    m = meta["checks"][pid]
    checks.append({"property": pid, "quick_cmd": "python3 check.py --property %s --tier quick" % pid,
                   "thorough_cmd": "python3 check.py --property %s --tier thorough" % pid,
                   "technique": TECH + m["technique"], "level": level, "level_note": m["note"]})
out = {"version": 1, "setup_cmd": meta["setup_cmd"], "hooks": meta["hooks"], "checks": checks, "not_applicable": na}
json.dump(out, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
