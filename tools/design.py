"""Assembles DESIGN.md: hand-written text + tables generated from properties.jsonl and seeded/."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(f"{V}/tools/design.in.md").read()
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
rows = ["| id | property |", "|---|---|"] + [f"| {p['id']} | {p['title']} |" for p in props]
text = text.replace("@PROPS@", "\n".join(rows))
rows = ["| planted change | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(f"{V}/tools/caught.json"))
for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {caught.get(i, '(not run)')} |")
text = text.replace("@SEEDS@", "\n".join(rows))
open(f"{V}/DESIGN.md", "w").write(text)
