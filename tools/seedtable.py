"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json and seeded results given as ID=obligation."""
import json, glob, os, re
p = '/verif/DESIGN.md'
s = open(p).read()
rows = ["| planted bug | caught by | what it breaks |", "|---|---|---|"]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), d['property'], d['what_it_breaks'].replace('|', '/').replace('\n', ' ')))
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = s.replace("SEEDTABLE", t) if "SEEDTABLE" in s else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
