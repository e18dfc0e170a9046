"""python tools/design.py: writes DESIGN.md from design_head.md, properties.jsonl, the checks, the evidence of the last
quick runs, known_findings.txt, the planted bugs and design_tail.md"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = ["/repo/src", HERE, os.path.join(HERE, "tools")]
from oracles import ORACLE  # noqa: E402


def main():
    out = [open(os.path.join(HERE, "tools/design_head.md")).read().rstrip(), "", "## Properties", ""]
    cache = os.path.join(HERE, "tools/costs.json")
    costs = json.load(open(cache)) if os.path.exists(cache) else {}
    for line in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(line)
        i = p["id"]
        m = importlib.import_module("mc.checks." + i.lower())
        ev = os.path.join(HERE, "evidence", i + ".json")
        if os.path.exists(ev):
            e = json.load(open(ev))
            if e["tier"] == "quick":
                costs[i] = {"states": e["coverage"]["states"], "runs": e["coverage"]["traces_validated_against_impl"],
                            "wall": round(e.get("wall_s") or e["coverage"].get("wall_s") or 0)}
        q = {s.name: s.bound for s in m.spaces("quick")}
        t = {s.name: s.bound for s in m.spaces("thorough")}
        out += [f"### {i} {p['title']}", "", p["statement"], ""]
        out.append(f"* Decided by: {ORACLE[i]}")
        out.append(f"* Why not by tests: {p['why_tests_cant']}")
        own = [n for n in q if not n.startswith("c") or " " not in n or not n[1:3].isdigit()]
        borrowed = [n for n in q if n not in own]
        out.append("* Enumerated (quick): " + "; ".join(f"*{n}* - {q[n]}" for n in own)
                   + (("; " if own else "") + "and all documents of the spaces " + ", ".join(
                       n.replace("c", "C", 1) for n in borrowed) if borrowed else "") + ".")
        more = [n for n in t if n not in q]
        out.append("* Thorough: the same with larger alphabets and depths" + (
            "; in addition " + ", ".join(n.replace("c", "C", 1) if n[1:3].isdigit() else n for n in more) if more else "")
            + ".")
        out.append("* Bounds: " + "; ".join(a if isinstance(a, str) else "" for a in m.ASSUME) + ".")
        if i in costs:
            c = costs[i]
            out.append(f"* Cost (quick): {c['states']} cases, {c['runs']} runs of the implementation.")
        out.append("")
    json.dump(costs, open(cache, "w"), indent=0, sort_keys=True)
    out += ["## Defects found and repaired", "", "Each is one `fix:` commit in /repo; the check named reports it again if it returns.", "",
            "| property | commit | what failed |", "|---|---|---|"]
    for line in open(os.path.join(HERE, "known_findings.txt")):
        if line.startswith("fixed:"):
            a = line.split(None, 3)
            out.append(f"| {a[1].split('=')[1]} | {a[2]} | {a[3].strip()} |")
    res = os.path.join(HERE, "tools/planted.json")
    caught = json.load(open(res)) if os.path.exists(res) else {}
    out += ["", "## Planted bugs", "", "Written from the property texts and the code; each passes the 976 tests and has a demonstration. "
            "\"first\" says whether the check caught it when it was planted; where it did not, the check was strengthened (in general, "
            "by enlarging the space that was too narrow, never by looking for the change).", "",
            "| id | property | what it breaks | needs | first | now |", "|---|---|---|---|---|---|"]
    for b in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        m = json.load(open(os.path.join(HERE, "seeded", b, "meta.json")))
        c = caught.get(b, {})
        out.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {c.get('first', '?')} | {c.get('now', '?')} |".replace("\n", " "))
    out += ["", open(os.path.join(HERE, "tools/design_tail.md")).read().rstrip()]
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")


main()
