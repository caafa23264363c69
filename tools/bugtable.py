"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    t = " ".join(d["what_it_breaks"].split()).replace("|", "\\|")
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], t if len(t) <= 110 else t[:107] + "..."))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(\| bug \| caught by \| what it does \|\n\|---\|---\|---\|\n)(\|.*\n)*", lambda m: m.group(1) + "\n".join(rows) + "\n", s)
open(p, "w").write(s)
