#!/usr/bin/env python3
"""Section 11 of DESIGN.md from seeded/*/meta.json and tools/catches.json (which plant.py's results are merged into)."""
import json, os, sys
ROOT = "/verif"
cf = f"{ROOT}/tools/catches.json"
c = json.load(open(cf)) if os.path.exists(cf) else {}
if len(sys.argv) > 1:
    for k, v in json.load(open(sys.argv[1])).items():
        ch = {p: (x[2][0].strip() if len(x) > 2 and x[2] else "") for p, x in v.get("checks", {}).items() if x[0] == 1}
        if ch or k not in c:
            c[k] = ch
ids = sorted(os.listdir(f"{ROOT}/seeded"))
c = {k: c.get(k, {}) for k in ids}
json.dump(c, open(cf, "w"), indent=1, sort_keys=True)
meta = {k: json.load(open(f"{ROOT}/seeded/{k}/meta.json")) for k in ids}
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for k in sorted(ids, key=lambda k: (meta[k]["property"], k)):
    m = meta[k]
    by = ", ".join(sorted({f"{p} [{t.split(':')[0].split('/')[-1]}]" if '/' in t.split(':')[0] else p for p, t in c[k].items()})) or "**missed**"
    rows.append(f"| {k} | {m['property']} | {m['needs'].strip()} | {by} |")
s = open(f"{ROOT}/DESIGN.md").read()
i = s.find("## 11 Planted bugs")
s = s[:i] if i >= 0 else s.rstrip("\n") + "\n\n"
n = sum(1 for k in ids if c[k])
s += f"""## 11 Planted bugs and which check catches them

Every bug in `seeded/` compiles, passes the 50 tests and fails its own demonstration. {n} of {len(ids)} are caught by the quick check of their property
(the only check run against them; the sub-check that reported is in brackets). Bugs that were missed at first and made a check stronger: `point-from-proof`, `rerun-state`,
`step-wrap`, `cross-swap`, `opening-infinity` and others; the checks' messages are in `tools/catches.json`.

""" + "\n".join(rows) + "\n"
open(f"{ROOT}/DESIGN.md", "w").write(s)
