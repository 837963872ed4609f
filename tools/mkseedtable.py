"""python3-vt tools/mkseedtable.py: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    with open(f) as g:
        m = json.load(g)
    by.setdefault(m["property"], []).append(os.path.basename(os.path.dirname(f)))
rows = "".join("| %s | %s |\n" % (p, ", ".join(by[p])) for p in sorted(by))
with open(H + "/DESIGN.md") as g:
    s = g.read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->\n"
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + "\n| check | planted changes it reports |\n|-------|-----------------------------|\n" + rows + "\n" + s[j:]
with open(H + "/DESIGN.md", "w") as g:
    g.write(s)
print(sum(map(len, by.values())), "planted bugs")
