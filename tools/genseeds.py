"""Rewrite the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted change | what it breaks | it needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["what_it_breaks"].rstrip("."), d["needs"],
                                          d.get("caught_by", d["property"])))
f = os.path.join(V, "DESIGN.md")
s = open(f).read()
s, n = re.subn(r"(## Planted bugs\n.*?\n\n)(?:\|[^\n]*\n)+", lambda k: k.group(1) + "\n".join(rows) + "\n", s, 1, re.S)
assert n == 1
open(f, "w").write(s)
