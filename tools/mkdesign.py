"""Write DESIGN.md: head, a section per property from its check, tail (run by hand)."""

import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf import core  # noqa: E402

core.bootstrap()
exec(open(os.path.join(HERE, "tools", "oracles.py")).read())


def main():
    read = lambda f: open(os.path.join(HERE, "tools", f)).read()  # noqa: E731
    out = [read("design_head.md"), "## The properties\n"]
    for line in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(line)
        pid = p["id"]
        prop = importlib.import_module(f"vf.props.{pid.lower()}").PROP
        quick, thorough = sum(x.quick for x in prop.laws), sum(x.thorough for x in prop.laws)
        out.append(f"### {pid} {p['title']}\n")
        out.append(p["statement"] + "\n")
        out.append(f"- **Generated:** {prop.rule}.")
        out.append(f"- **Oracle:** {ORACLE[pid]}")
        out.append(f"- **Laws** ({quick} cases quick, {thorough} thorough): " + ", ".join(f"{x.name} ({x.quick})" for x in prop.laws) + ".")
        if prop.assumptions:
            out.append("- **Bounds and assumptions:** " + "; ".join(prop.assumptions) + ".")
        out.append(f"- **Beyond the tests:** {WHY[pid]}\n")
    fixed = [x.split(" ", 3)[1:] for x in open(os.path.join(HERE, "known_findings.txt")) if x.startswith("fixed: ")]
    fixed = "\n".join(f"- {a.split('=')[1]} ({b[:7]}): {c.strip()}" for a, b, c in fixed)
    out.append(read("design_tail.md").replace("FIXED", fixed))
    rows = []
    base = os.path.join(HERE, "seeded")
    for d in sorted(os.listdir(base)):
        m = json.load(open(os.path.join(base, d, "meta.json")))
        rows.append(f"| {d} | {m['what_it_breaks']} | {m['needs']} | {m['property']} |")
    out.append("| planted bug | what it breaks | what it needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))


main()
