"""Writes MANIFEST.json from properties.jsonl and the modules present in mc/."""
import json, os, re, ast
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(V, "mc", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": "applicable, but its exploration is not built yet; nothing is claimed for it"})
        continue
    tree = ast.parse(open(f).read())
    val = {t.id: ast.literal_eval(n.value) for n in tree.body if isinstance(n, ast.Assign)
           for t in n.targets if isinstance(t, ast.Name) and t.id in ("TECHNIQUE", "NOTE", "ASSUMPTIONS")}
    note = val.get("NOTE") or (ast.get_docstring(tree) or "").strip().split("\n")[0]
    if val.get("ASSUMPTIONS"):
        note += " Assumes: " + "; ".join(val["ASSUMPTIONS"]) + "."
    note += " Exhaustive within the bounds written to the evidence file; says nothing about data outside the catalogue."
    checks.append({"property": p["id"], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough",
                   "technique": "model checking: " + val["TECHNIQUE"], "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", [x["property"] for x in na])
