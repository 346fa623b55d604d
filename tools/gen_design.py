#!/usr/bin/env python3
"""fills the generated part of DESIGN.md (contracts per property, seeded bugs) from the evidence of the last run and from seeded/"""
import json, os, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- generated: tools/gen_design.py -->"


def section():
    out = [MARK, "", "## Appendix A. Functions under contract (generated from the evidence of the last run)", ""]
    for f in sorted(glob.glob(os.path.join(HERE, "evidence", "C??.json"))):
        e = json.load(open(f))
        c = e["coverage"]
        out.append("### %s" % e["property"])
        out.append("")
        for r in c["functions_under_contract"]:
            out.append("- `%s` - %s%s%s" % (r["function"], r["contract"], " **[bounded: %s]**" % r["bound"] if r["bound"] else "", "" if r["status"] == "proved" else " (%s: %s)" % (r["status"], r["reason"])))
        out.append("- bounded layer (never counted as proved): %s" % ", ".join(b["name"] for b in c["bounded_checks"]))
        out.append("")
    out += ["## Appendix B. Seeded bugs (seeded/) and what catches them", "",
            "`found by`: *obligation* = a named obligation fails, *input* = the bounded layer finds and replays a failing input.", "",
            "| bug | what it breaks | needs | found by |", "|---|---|---|---|"]
    caught = json.load(open(os.path.join(HERE, "tools", "caught.json"))) if os.path.exists(os.path.join(HERE, "tools", "caught.json")) else {}
    for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        m = json.load(open(d))
        i = os.path.basename(os.path.dirname(d))
        out.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"], m["needs"], caught.get(i, "?")))
    return "\n".join(out) + "\n"


def main():
    p = os.path.join(HERE, "DESIGN.md")
    t = open(p).read().split(MARK)[0]
    open(p, "w").write(t + section())


main()
