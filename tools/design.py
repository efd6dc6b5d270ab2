#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, one section per property (from
tools/props.py, the PROPERTY() and PROP() lines of props/*.cpp, known_findings.txt
and the notes below), the matrix of planted bugs, tools/design_tail.md."""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE
from design_notes import NOTES, CAUGHT

def cstrings(text):
    out, cur, last = [], "", None
    for m in re.finditer(r'"((?:[^"\\]|\\.)*)"|(,)', text):
        if m.group(2):
            out.append(cur); cur = ""
        else:
            cur += m.group(1).replace('\\"', '"')
    out.append(cur)
    return [x for x in out if x]

finds = [l.rstrip("\n") for l in open(os.path.join(root, "known_findings.txt")) if not l.startswith("#")]
out = [open(os.path.join(here, "design_head.md")).read().rstrip(), "", "## The properties, one by one", ""]
for p in PROPS:
    src = open(os.path.join(root, "props", p["id"] + ".cpp")).read()
    i = src.index("PROPERTY(")
    head = cstrings(src[i:src.index('")', i) + 1] if '")' in src[i:] else src[i:])
    rule, oracle, limits = head[1], head[2], head[3:]
    props = re.findall(r'^PROP\( *(\w+), *(\d+), *(\d+)', src, re.M)
    flavor = re.search(r'^// flavor: *(\w+)', src, re.M)
    flavor = flavor.group(1) if flavor else "plain"
    out.append("### %s. %s" % (p["id"], p["title"]))
    out.append("")
    out.append(p["statement"])
    out.append("")
    out.append("- *For all*: " + p["for_all"])
    out.append("- *Why tests cannot settle it*: " + p["why"])
    out.append("- *Anchored in*: " + "; ".join("%s (%s)" % (w, n) for n, w in p["mech"]))
    out.append("- *Generated*: " + rule)
    out.append("- *Oracle*: " + oracle)
    if limits:
        out.append("- *Bounds and tolerances*: " + "; ".join(limits))
    fl = {"plain": "", "asan": "; library and harness under address and undefined-behaviour sanitizers", "asanu": "; under address and undefined-behaviour sanitizers (alignment apart)",
          "addr": "; under address sanitizer"}[flavor]
    out.append("- *Checks (cases quick / thorough)*: " + ", ".join("%s %s / %s" % (n, format(int(q), ","), format(int(q) * int(t), ",")) for n, q, t in props) + fl)
    for n in NOTES.get(p["id"], []):
        out.append("- " + n)
    fx = [l for l in finds if ("property=%s " % p["id"]) in l]
    for l in fx:
        m = re.match(r'fixed: property=\S+ (\S+) (.*)', l)
        if m:
            out.append("- *Defect found and repaired* (%s): %s" % (m.group(1), m.group(2)))
        else:
            m = re.match(r'finding: property=\S+ key=(\S+) (.*)', l)
            out.append("- *Known finding* (key %s): %s" % (m.group(1), m.group(2)))
    out.append("")
if NOT_APPLICABLE:
    out += ["## Not applicable", ""] + ["- %s: %s" % (n["property"], n["reason"]) for n in NOT_APPLICABLE] + [""]
out += ["## Planted bugs and what catches them", "",
        "Each was written from a property's text and the code; it builds, passes all 403 tests and has a demonstration. "
        "\"Caught by\" lists checks seen to exit 1 with it applied (quick tier, VERIF_SEED=1).", "",
        "| id | breaks | needs | caught by |", "|---|---|---|---|"]
sd = os.path.join(root, "seeded")
for s in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, s, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (s, m["what_it_breaks"], m["needs"], CAUGHT.get(s, m["property"])))
out += ["", open(os.path.join(here, "design_tail.md")).read().rstrip(), ""]
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out))
