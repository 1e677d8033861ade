"""Regenerates MANIFEST.json from the check modules present (checks/Cnn.py) and properties.jsonl."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json"))) if os.path.exists(os.path.join(V, "tools", "not_applicable.json")) else {}
checks, na = [], []
for p in props:
    i = p["id"]
    path = os.path.join(V, "checks", i + ".py")
    if os.path.exists(path):
        doc = ast.get_docstring(ast.parse(open(path).read())) or ""
        tech, note = "property-based testing (hypothesis)", ""
        for line in doc.splitlines():
            if line.startswith("Technique:"): tech = line.split(":", 1)[1].strip()
        note = doc.split("Assurance:", 1)[1].strip().replace("\n", " ") if "Assurance:" in doc else ""
        checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
                       "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                       "technique": tech, "level": "exploration",
                       "level_note": note or "Generated-input search against an explicit oracle; finds violations, does not prove absence. Trusts numpy/scipy/astropy and the reference model in vlib/ref.py."})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet; this family applies and it is planned")})
m = {"version": 1, "setup_cmd": "python3 run.py --selfcheck", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks: the checks call the public functions and command-line entry points of /repo directly", "source_commits": []}}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
