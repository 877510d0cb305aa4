#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from meta.py and props.py."""
import json, os
from meta import M
from props import PROPS
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for i in sorted(M):
        m = M[i]
        assert len(m["title"]) <= 80, (i, len(m["title"]))
        f.write(json.dumps(dict(id=i, title=m["title"], statement=m["statement"],
            quantifier=dict(over=m["over"], text=m["qtext"]), why_tests_cant=m["why"],
            anchors=dict(files=m["files"], mechanism=[dict(name=a, where=b) for a, b in m["mech"]],
                         observe_at=["public API of the headers"], hook_needed=None))) + "\n")
checks = []
for i in sorted(M):
    if i not in PROPS: continue
    checks.append(dict(property=i, quick_cmd="python3 run.py %s" % i, thorough_cmd="python3 run.py %s --thorough" % i,
        evidence_file="evidence/%s.json" % i,
        technique=PROPS[i].get("technique", "bounded-exhaustive explicit enumeration of executions of the real code against a reference model"),
        level="model_checking",
        level_note="Every execution in the stated bound is run on the real headers (ASan/UBSan build) and compared with an independent reference; nothing is sampled. Bound: " + PROPS[i]["rule"] + " Trusted: compiler, sanitizers, C library as oracle; says nothing about values outside of the enumerated alphabet."))
json.dump(dict(version=1, setup_cmd="true", checks=checks,
    not_applicable=[dict(property=i, reason=M[i]["note"]) for i in sorted(M) if i not in PROPS],
    notes="No hooks in /repo: the library is header-only and every seam needed (generators, streams, OpenMP runtime, callbacks) is reachable from outside."),
    open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)

# DESIGN.md = design/head.md + one section per property + design/tail.md
D = os.path.join(here, "design")
out = open(os.path.join(D, "head.md")).read()
costs = json.load(open(os.path.join(D, "costs.json"))) if os.path.exists(os.path.join(D, "costs.json")) else {}
for i in sorted(M):
    m = M[i]
    out += "\n### %s - %s\n\n%s\n\n" % (i, m["title"], m["statement"])
    if i not in PROPS:
        out += "Not applicable: %s\n" % m["note"]; continue
    p = PROPS[i]
    out += "*Decided by*: %s.\n\n" % p.get("technique", "bounded-exhaustive enumeration of executions of the real code against a reference model")
    out += "*Enumerated, and against what*: %s\n\n" % p["rule"]
    names = []
    for b in p["builds"]:
        fl = " ".join(b.get("flags", []))
        names.append("`%s`%s%s" % (b["src"], " (%s)" % fl if fl else "", ": sections %s" % ", ".join(b["sections"]) if b.get("sections") else ""))
    out += "*Harness builds*: %s.\n\n" % "; ".join(names)
    out += "*Why tests cannot reach it*: %s.\n\n" % m["why"].rstrip(".")
    c = costs.get(i)
    if c: out += "*Cost* (8 cores): quick %.0f s, %s comparisons%s.\n" % (c["quick_s"], format(c["quick_n"], ","),
        "; thorough %.0f s, %s comparisons" % (c["thorough_s"], format(c["thorough_n"], ",")) if "thorough_s" in c else "")
tail = open(os.path.join(D, "tail.md")).read()
rows = ["| property | commit | what failed |", "|---|---|---|"]
for l in open(os.path.join(here, "known_findings.jsonl")):
    if not l.strip(): continue
    e = json.loads(l)["entry"].split(" ", 3)
    rows.append("| %s | %s | %s |" % (e[1].split("=")[1], e[2], e[3].replace("|", "\\|")))
tail = tail.replace("DEFECT_TABLE", "\n".join(rows))
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(os.path.join(D, "caught.json")))
for i in sorted(caught):
    c = caught[i]
    rows.append("| %s | %s | %s | %s |" % (i, c["property"], c["needs"].replace("|", "\\|"), c["by"]))
tail = tail.replace("SEED_TABLE", "\n".join(rows))
open(os.path.join(here, "DESIGN.md"), "w").write(out + tail)
