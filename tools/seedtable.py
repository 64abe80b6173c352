"""Fill the table of seeded changes in DESIGN.md from tools/seed_results.txt (one line: id caught|missed note)."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(os.path.join(R, "tools/seed_results.txt")):
    p = l.rstrip("\n").split(" ", 2)
    res[p[0]] = (p[1], p[2] if len(p) > 2 else "")
rows = ["| change | what it breaks | needs | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.load(open(os.path.join(R, "seeded", i, "meta.json")))
    c, note = res.get(i, ("not run", ""))
    by = ("check " + m["property"]) if c == "caught" else c
    rows.append("| %s | %s | %s | %s%s |" % (i, m["what_it_breaks"], m["needs"], by, " (%s)" % note if note else ""))
p = os.path.join(R, "DESIGN.md")
s = open(p).read()
a = s.index("## 5. Seeded changes")
a = s.index("\n", a) + 1
m = re.search(r"^## 6", s[a:], re.M)
b = a + m.start() if m else len(s)
s = s[:a] + "\n" + "\n".join(rows) + "\n" + ("\n" if m else "") + s[b:]
open(p, "w").write(s)
