"""DESIGN.md = tools/design_head.md + a per-property section generated from the property modules
+ tools/design_tail.md (findings, false alarms, planted bugs)."""
import importlib, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import ast
out = [open(os.path.join(HERE, "tools/design_head.md")).read()]
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
notes = json.load(open(os.path.join(HERE, "tools/design_notes.json")))
out.append("\n## Properties\n")
for p in props:
    f = os.path.join(HERE, "props", p["id"].lower() + ".py")
    out.append("### %s - %s\n" % (p["id"], p["title"]))
    if not os.path.exists(f):
        out.append("Not applicable: see MANIFEST.json.\n")
        continue
    ns = {}
    for node in ast.parse(open(f).read()).body:
        if isinstance(node, ast.Assign) and node.targets[0].id in ("RULE", "REQUIRED_RULES", "ASSUMPTIONS") if isinstance(getattr(node, "targets", [None])[0], ast.Name) else False:
            try:
                ns[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    n = notes.get(p["id"], {})
    out.append("*Workload.* %s\n" % ns.get("RULE", ""))
    if n.get("oracle"):
        out.append("*Monitor and oracle.* %s\n" % n["oracle"])
    out.append("*Rules that must fire in every run.* %s\n" % ", ".join("`%s`" % r for r in ns.get("REQUIRED_RULES", [])))
    if ns.get("ASSUMPTIONS"):
        out.append("*Bounds / assumptions.* %s.\n" % "; ".join(a.rstrip(".") for a in ns["ASSUMPTIONS"]))
    if n.get("cost"):
        out.append("*Cost.* %s\n" % n["cost"])
    if n.get("reach"):
        out.append("*Beyond the tests.* %s\n" % n["reach"])
out.append(open(os.path.join(HERE, "tools/design_tail.md")).read())
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
