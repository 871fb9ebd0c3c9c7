"""refresh the table of planted bugs in DESIGN.md"""
import json, os, re
r = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| plant | caught by | breaks |", "|---|---|---|"]
for d in sorted(os.listdir(r + "/seeded")):
    m = json.load(open(f"{r}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} |")
s = open(r + "/DESIGN.md").read()
t = "<!-- plants -->\n" + "\n".join(rows) + "\n<!-- /plants -->"
s = re.sub(r"<!-- plants -->.*<!-- /plants -->", lambda _: t, s, flags=re.S) if "<!-- plants -->" in s else s.replace("PLANTS", t, 1)
open(r + "/DESIGN.md", "w").write(s)
