"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows, n = {}, 0
for b in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    p = json.load(open(os.path.join(ROOT, "seeded", b, "meta.json")))["property"]
    own = b.startswith(p.lower() + "-")
    rows.setdefault(p, []).append((not own, b[len(p) + 1:] if own else b))
    n += 1
table = "| check | planted changes it reports |\n|---|---|\n" + "".join(
    "| %s | %s |\n" % (p, ", ".join(x for _, x in sorted(v))) for p, v in sorted(rows.items()))
path = os.path.join(ROOT, "DESIGN.md")
s = open(path).read()
s = re.sub(r"\| check \| planted changes it reports \|\n(\|.*\n)+", lambda m: table, s)
s = re.sub(r"All \d+\nare reported now", "All %d\nare reported now" % n, s)
open(path, "w").write(s)
