#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the property table, the harnesses, known_findings.txt and tools/seeded.md."""
import glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, level_note, technique="property-based testing against a reference oracle", observe=None):
    P.append((id, title, over, text, why, files, level_note, technique))
INP = NOTE = None
exec(open(f"{V}/tools/props.py").read())
rd = lambda f: open(f"{V}/{f}").read().rstrip() + "\n"
o = [rd("tools/design_head.md"), "\n", rd("tools/design_notes.md"), "\n## Property by property\n"]
for id, title, over, text, why, files, note, tech in sorted(P):
    subs = []
    for h in sorted(glob.glob(f"{V}/harness/{id}.cpp") + glob.glob(f"{V}/harness/{id}_*.cpp")):
        s = open(h).read()
        subs += [(m[0], m[1]) for m in re.findall(r'PROPW?\((\w+),(?:\s*\d+,)?\s*"([^"]*)"\)', s)]
    if not subs: continue
    n = (note or "").replace((NOTE or "") , "").strip()
    o.append(f"\n### {id} {title}\n")
    o.append(f"*Quantified over* {text} ({', '.join(over)}). *Anchored in* {', '.join(files)}.\n*Method:* {tech}. {n}\n")
    o.append("*Generated sub-properties (non-trivial when):* " + "; ".join(f"`{a}` ({b})" for a, b in subs) + ".\n")
    o.append(f"*Why tests cannot:* {why}\n")
kf = [l for l in open(f"{V}/known_findings.txt") if l.strip() and l[0] != "#"]
o.append("\n## Known findings (recorded, not repaired)\n")
o += ["* " + l[len("known: "):].rstrip() + "\n" for l in kf if l.startswith("known:")]
o.append("\n## Defects repaired in /repo (`fix:` commits)\n")
o += ["* " + l[len("fixed: "):].rstrip() + "\n" for l in kf if l.startswith("fixed:")]
if os.path.exists(f"{V}/tools/seeded.md"): o += ["\n", rd("tools/seeded.md")]
open(f"{V}/DESIGN.md", "w").write("".join(o))
