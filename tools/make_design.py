"""Composes DESIGN.md from tools/design.tmpl, properties.jsonl, the check modules, their evidence and tools/seeds.json."""
import ast, json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path[:0] = [V, "/repo"]
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = []
for p in props:
    i = p["id"]; f = f"{V}/mc/{i.lower()}.py"
    out.append(f"### {i} {p['title']}\n")
    if not os.path.exists(f):
        out.append("Model checking applies (enumeration of " + p["quantifier"]["text"] + " on the real code); not built yet.\n"); continue
    t = ast.parse(open(f).read())
    val = {n.targets[0].id: ast.literal_eval(n.value) for n in t.body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)
           and n.targets[0].id in ("TECHNIQUE", "ASSUMPTIONS", "DESIGN")}
    out.append("*Quantified over* " + p["quantifier"]["text"] + ".\n")
    out.append("*Decision:* " + val["TECHNIQUE"] + ".\n")
    if val.get("DESIGN"): out.append(val["DESIGN"].strip() + "\n")
    ev = f"{V}/evidence/{i}.json"
    cost = {}
    cf = V + "/tools/costs.json"
    if os.path.exists(cf): cost = json.load(open(cf))
    if os.path.exists(ev):
        e = json.load(open(ev))
        if e["tier"] == "quick":
            c = e["coverage"]; cost[i] = [c["cases_enumerated"], c["states"], c["transitions"], round(e["wall_s"]), c["bounds"]]
            json.dump(cost, open(cf, "w"), indent=0)
    if i in cost:
        c = cost[i]
        out.append(f"*Bounds (quick tier):* " + "; ".join(f"{k}: {v if not isinstance(v, (list, dict)) else ', '.join(map(str, v))}" for k, v in c[4].items()) + ".\n")
        out.append(f"*Cost:* {c[0]} traces, {c[1]} states, {c[2]} transitions, about {max(5, 5 * round(c[3] / 5))} s on 8 cores.\n")
    if val.get("ASSUMPTIONS"): out.append("*Assumes* " + "; ".join(val["ASSUMPTIONS"]) + ".\n")
    out.append("*Why tests cannot:* " + p["why_tests_cant"] + "\n")
S = []
sf = V + "/tools/seeds.json"
if os.path.exists(sf):
    d = json.load(open(sf))
    S.append("Each was confirmed in a scratch copy (stable tests pass, demo fails with it and passes without); result of the quick check of its property:\n")
    S.append("| change | property | caught | what it breaks |\n|---|---|---|---|")
    for k, v in sorted(d.items()): S.append(f"| {k} | {v['property']} | {v['caught']} | {v['breaks']} |")
t = open(V + "/tools/design.tmpl").read()
mf = V + "/tools/findings.md"
t = t.replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDS@@", "\n".join(S)).replace("@@MOREF@@", open(mf).read() if os.path.exists(mf) else "")
open(V + "/DESIGN.md", "w").write(t)
