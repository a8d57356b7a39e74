"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {"b01", "b03", "b08", "b14", "b22", "b32", "b33", "b34", "b43", "b50", "b51", "b53", "b64"}

rows = ["| bug | check | what it breaks | missed at first |", "|---|---|---|---|"]
for p in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    name = os.path.basename(os.path.dirname(p))
    m = json.load(open(p))
    rows.append("| %s | %s | %s | %s |" % (name, m["property"], m["what_it_breaks"], "yes" if name[:3] in MISSED else ""))
path = HERE + "/DESIGN.md"
text = open(path).read()
block = "<!-- planted bugs -->\n" + "\n".join(rows) + "\n<!-- end -->"
if "<!-- planted bugs -->" in text:
    text = re.sub(r"<!-- planted bugs -->.*?<!-- end -->", lambda _: block, text, flags=re.S)
else:
    text = text.replace("SEEDED_TABLE", block)
open(path, "w").write(text)
