"""Writes the table of planted bugs between the two markers of DESIGN.md."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(f"{here}/seeded/{d}/meta.json"))
    br = " ".join(m["what_it_breaks"].split())
    br = re.split(r"(?<=[.;]) ", br)[0]
    rows.append(f"| `{d}` | {m['property']} | {br.replace('|', '/')} |")
t = "| planted bug | caught by | what it breaks |\n|---|---|---|\n" + "\n".join(rows)
p = here + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- plants -->\n", "\n<!-- /plants -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + t + s[j:])
