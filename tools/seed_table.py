#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/also.json (other checks seen to catch one)."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
also = json.load(open(os.path.join(HERE, "tools", "also.json")))
rows = []
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    rows.append((m["property"], d, m))
rows.sort()
out = ["| planted bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for p, d, m in rows:
    by = " ".join([p] + also.get(d, [])) if p not in also.get("-missed", {}).get(d, []) else "missed"
    out.append("| %s | %s | %s | %s |" % (d, by, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/") if isinstance(m["needs"], str) else " ".join(m["needs"])))
f = os.path.join(HERE, "DESIGN.md")
s = open(f).read()
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda k: k.group(1) + "\n".join(out) + "\n" + k.group(2), s, flags=re.S)
s = re.sub(r"`seeded/` holds \S+ changes", "`seeded/` holds %d changes" % len(rows), s)
open(f, "w").write(s)
