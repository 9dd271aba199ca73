"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import collections
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = collections.defaultdict(list)
for b in sorted(os.listdir(ROOT + "/seeded")):
    with open(ROOT + "/seeded/" + b + "/meta.json") as f:
        d[json.load(f)["property"]].append(b)
p = ROOT + "/DESIGN.md"
s = open(p).read()
a = s.index("| property | caught |")
b = s.index("\n\n", a)
s = s[:a] + "| property | caught |\n|---|---|\n" + "\n".join(
    "| {} | {} |".format(k, ", ".join(v)) for k, v in sorted(d.items())) + \
    s[b:]
open(p, "w").write(s)
