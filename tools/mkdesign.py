#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.txt (hand-written), mc/config.py (bounds,
oracles) and tools/caught.txt (planted bugs and the checks that report them)."""
import glob, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from mc.config import CHECKS
props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))}
txt = open(os.path.join(H, "tools", "design.txt")).read()
head, rest = txt.split("@@PROPERTIES\n")
notes_txt, tail = rest.split("@@END\n")
notes = {}
for blk in notes_txt.split("@")[1:]:
    k, _, b = blk.partition("\n")
    notes[k.strip()] = b.strip()
out = [head]
for i, p in sorted(props.items()):
    c = CHECKS[i]
    out.append(f"### {i} {p['title']}\n\n{p['statement']}\n")
    out.append(notes.get(i, "") + "\n")
    out.append(f"* Bounds: {c['bounds']}.\n* Oracle: {c['oracle']}.")
    if c.get("technique"):
        out.append(f"* Technique: {c['technique']}.")
    for a in c.get("assumptions", []):
        out.append(f"* Assumes: {a}.")
    hs = [f"{h['src']} ({'/'.join(h['variants'])})" for h in c["harness"]]
    out.append("* Harness: " + ", ".join(hs) + ".\n")
out.append(tail.rstrip() + "\n")
caught = {}
f = os.path.join(H, "tools", "caught.txt")
if os.path.exists(f):
    for l in open(f):
        if l.strip() and not l.startswith("#"):
            k, _, v = l.strip().partition(" ")
            caught[k] = v
def table(folder):
    rows = []
    for d in sorted(glob.glob(os.path.join(H, folder, "*", "meta.json"))):
        b = os.path.basename(os.path.dirname(d))
        m = json.load(open(d))
        rows.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(b, '')} |")
    if rows:
        out.append("| id | breaks | what | needs | reported by |\n|----|----|----|----|----|\n" + "\n".join(rows) + "\n")


table("seeded")
out.append("`planted_inc/<id>/` holds changes of the same kind in the template definitions (`.inc` files):\n")
table("planted_inc")
open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(out))
