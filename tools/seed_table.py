"""Rewrites the table of planted bugs in DESIGN.md from /verif/seeded (run by hand; no check uses it)."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST = {
 "s01-atan2-pi": "missed first: constant arguments are now evaluated too (checkConst)",
 "m08-step-rounding": "missed first: step sizes that are no round decimals",
 "w01-input-zero": "missed first: zeros among the points, setInputs in two portions",
 "w03-solve-permuted": "missed first: matrices that need row exchanges", "w03-inverse-permuted": "missed first: matrices that need row exchanges",
 "a01-float-in-place": "missed first: whole numbers among the caller's values",
 "m07-node-order": "missed first: SID files with many nodes",
 "s01-skew-late": "missed first: functions wrapped around an operand before that operand changes",
 "m10-record-digits": "missed first: recorded states beyond the sliders",
 "s07-zero-row": "missed first: do_bounds, out-of-range indices",
 "m08-reset-alias": "missed first: the caller goes on using the own lists",
 "m09-obj-name": "missed first: OBJ files, capital letters and blanks in names",
}
MISSED = {}
try: exec(open(os.path.join(R, "tools", "seed_remarks.py")).read())
except FileNotFoundError: pass
rows = []
for s in sorted(os.listdir(R + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (R, s)))
    rows.append("| %s | %s | %s%s |" % (s, MISSED.get(s) or m["property"], m["what_it_breaks"].replace("|", "/"), (" – " + FIRST[s]) if s in FIRST else ""))
t = open(R + "/DESIGN.md").read()
head = "| Seed | Caught by | What it breaks – remark |\n|---|---|---|\n"
t = re.sub(r"\| Seed \| Caught by \|.*?\n\|---\|---\|---\|\n(?:SEEDTABLE\n|(?:\|.*\n)+)", lambda _: head + "\n".join(rows) + "\n", t, flags=re.S)
open(R + "/DESIGN.md", "w").write(t)
