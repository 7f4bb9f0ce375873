"""Writes DESIGN.md from tools/design.md and the planted bugs' meta.json."""
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
late = "c14_zeros c15_stats c16_gap c17_black c17_corr c17_median c18_inplace c18_tz".split()
late += json.load(open(V + "/tools/late.json")) if os.path.exists(V + "/tools/late.json") else []
missed = json.load(open(V + "/tools/missed.json")) if os.path.exists(V + "/tools/missed.json") else []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = f.split("/")[-2]
    d = json.load(open(f))
    by = "**missed**" if i in missed else d["property"]
    rows[i] = "| %s | %s | %s | %s |" % (i, d["what_it_breaks"].replace("|", "/"), d["needs"].replace("|", "/"), by + (" (after strengthening)" if i in late else ""))
t = open(V + "/tools/design.md").read()
t = t.replace("@@BUGS@@", "| id | breaks | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows.values()))
t = t.replace("@@NBUGS@@", str(len(rows)))
open(V + "/DESIGN.md", "w").write(t)
