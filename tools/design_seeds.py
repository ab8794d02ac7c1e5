"""Writes the table of planted bugs into DESIGN.md: design_seeds.py <folder with results>"""
import json, os, re, sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | needs | reported by |", "|---|---|---|"]
for i in sorted(os.listdir(D + "/seeded")):
    m = json.load(open(f"{D}/seeded/{i}/meta.json"))
    by = []
    r = os.path.join(sys.argv[1], i)
    for f in sorted(os.listdir(r)) if os.path.isdir(r) else []:
        x = re.match(r"check (C\d\d)=1 .* [1-9]\d* ", open(os.path.join(r, f)).read()) if re.fullmatch(r"check\.C\d\d", f) else None
        if x: by.append(x[1])
    rows.append(f"| {i} | {m['needs']} | {', '.join(by) or 'not caught'} |")
p = D + "/DESIGN.md"
s = open(p).read()
a, b = s.index("<!-- seeds -->"), s.index("<!-- /seeds -->")
open(p, "w").write(s[:a] + "<!-- seeds -->\n" + "\n".join(rows) + "\n" + s[b:])
