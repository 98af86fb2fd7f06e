#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below (only properties that have a harness)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, level_note, technique="property-based testing against a reference oracle", observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **({"observe_at": observe} if observe else {})),
                  _t=technique, _n=level_note))


exec(open(os.path.join(V, "tools", "props.py")).read())


def main():
    have = {os.path.basename(h)[:-4].split("_")[0] for h in glob.glob(f"{V}/harness/*.cpp")}
    ps = sorted((q for q in P if q["id"] in have), key=lambda q: q["id"])
    with open(f"{V}/properties.jsonl", "w") as f:
        for q in ps:
            assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
            f.write(json.dumps({k: v for k, v in q.items() if k[0] != "_"}) + "\n")
    m = dict(version=1, setup_cmd="python3 run.py --setup",
             hooks=dict(guard="none", enable="no hooks: the checks compile /repo's headers and image_io.cpp as they are", source_commits=[]),
             checks=[dict(property=q["id"], quick_cmd=f"python3 run.py {q['id']} quick", thorough_cmd=f"python3 run.py {q['id']} thorough",
                          evidence_file=f"evidence/{q['id']}.json", technique=q["_t"], level="exploration", level_note=q["_n"]) for q in ps],
             not_applicable=[],
             notes="Generated by tools/gen.py. Every check builds its harness from /repo's current working tree. Replay a reported case with: python3 run.py --replay <file>")
    with open(f"{V}/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(ps), "properties")


main()
