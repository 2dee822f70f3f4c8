#!/usr/bin/env python3-vt
"""Write properties.jsonl and MANIFEST.json from hvs/props.py (by hand, after editing it)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from hvs.props import PROPS  # noqa: E402

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for q in PROPS:
        f.write(json.dumps(dict(
            id=q["id"], title=q["title"], statement=q["statement"],
            quantifier=dict(over=q["over"], text=q["qtext"]), why_tests_cant=q["why"],
            anchors=dict(files=q["files"], mechanism=[dict(name=n, where=x) for n, x in q["mech"]]))) + "\n")

GRAPH = "abstract interpretation into value graphs, compared with reference semantics by global value numbering"
RULES = {
    "names": "name resolution", "cimports": "module resolution", "locals": "definite assignment",
    "attributes": "attribute resolution", "arity": "call arity", "destructive": "effect analysis over the call graph",
    "entropy": "entropy-source analysis", "exceptions": "exception hierarchy lint", "handlers": "exception handler lint",
    "options_new": "option table lint", "options_old": "option table lint", "choices": "accepted-value coverage",
    "consumed": "option def-use analysis", "cli": "module body value graph", "ktensor": "independent tensor formulation",
}
checks, na = [], []
for q in PROPS:
    if q["na"]:
        na.append(dict(property=q["id"], reason=q["na"]))
        continue
    tech = ([GRAPH] if q["funcs"] else []) + sorted({RULES.get(r, r.replace("_", " ")) for r in q["rules"]})
    cmd = "python3-vt check.py %s" % q["id"]
    checks.append(dict(
        property=q["id"], quick_cmd=cmd, thorough_cmd=cmd + " --tier thorough", technique="static analysis: " + "; ".join(tech),
        level="other",
        level_note="Static: decides for all inputs over real arithmetic with library calls uninterpreted or modelled; "
                   "the value graphs of %d functions against reviewed reference semantics%s. Identical normal forms "
                   "are proofs, other equalities hold up to value numbering by random interpretation; constructs "
                   "outside the analysed language are listed as undecided in the evidence." %
                   (len(q["funcs"]), (" and %d structural rules" % len(q["rules"])) if q["rules"] else "")))
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="python3-vt -m compileall -q hvs check.py", checks=checks, not_applicable=na,
                   notes="check.py decides one property; hvs/ is the analyser, spec/ the reference semantics; no hooks "
                         "in /repo."), f, indent=1)
    f.write("\n")

# the tables of DESIGN.md
import glob
import re
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()


def table(s, name, lines):
    block = "<!-- %s -->\n%s\n<!-- end %s -->" % (name, "\n".join(lines), name)
    if "<!-- %s -->" % name in s:
        return re.sub(r"<!-- %s -->.*?<!-- end %s -->" % (name, name), lambda m: block, s, flags=re.S)
    return s.replace(name, block, 1)


lines = []
for q in PROPS:
    if not q["na"]:
        fs = ", ".join("`%s`" % f.replace("hyvr.", "", 1) for f in q["funcs"])
        lines.append("* **%s %s.** %s%s Quantifies over %s." % (
            q["id"], q["title"], ("Value graphs of %s against the reference." % fs) if fs else "",
            (" Rules: %s." % ", ".join(q["rules"])) if q["rules"] else "", q["qtext"]))
s = table(s, "PROPTABLE", lines)
s = table(s, "NATABLE", ["* **%s %s**: %s." % (q["id"], q["title"], q["na"]) for q in PROPS if q["na"]])
rows = []
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    rows.append("* `%s` (%s): %s **%s**" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"],
                                            m.get("caught", "not measured")))
s = table(s, "SEEDTABLE", rows or ["(none yet)"])
open(p, "w").write(s)
