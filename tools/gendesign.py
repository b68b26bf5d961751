#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.txt.

In that file a line `@property Cnn` is replaced by the title of the property and
what the last quick run of its check enumerated and cost (evidence/Cnn.json, so
run all checks before), `@bugs` by the planted bugs, `@findings` by the findings.
Thorough costs are read from tools/thorough.json.
"""
import json, os, re

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {p["id"]: p for p in map(json.loads, open(root + "/properties.jsonl"))}
thorough = json.load(open(root + "/tools/thorough.json"))


def num(n):
    for f, s in ((1e6, " million"), (1e3, " thousand")):
        if n >= f:
            return ("%.3g" % (n / f)) + s
    return str(n)


def prop(i):
    e = json.load(open("%s/evidence/%s.json" % (root, i)))
    c = e["coverage"]
    assert e["tier"] == "quick" and e["violations"] == 0, i
    t = thorough.get(i)
    out = "### %s %s\n\n" % (i, props[i]["title"])
    out += "Enumerated: " + c["rule"] + ".\n\n"
    for a in e["assumptions"]:
        out += "Left out: " + a + ".\n\n"
    out += "Cost: quick %s states, %s steps, %.1f s%s" % (num(c["states"]), num(c["transitions"]), e["wall_s"], "" if c["exhaustive"] else " (bounded)")
    if t:
        out += "; thorough %s states, %.0f s%s" % (num(t["states"]), t["wall_s"], "" if t["exhaustive"] else " (bounded)")
    return out + ".\n"


def bugs():
    out = "| planted bug | property | what it breaks | needs |\n|---|---|---|---|\n"
    for b in sorted(os.listdir(root + "/seeded")):
        m = json.load(open("%s/seeded/%s/meta.json" % (root, b)))
        out += "| %s | %s | %s | %s |\n" % (b, m["property"], m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|"))
    return out


def findings():
    out = ""
    for l in open(root + "/known-findings.txt"):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
        if m:
            out += "* %s, fixed in %s: %s\n" % m.groups()
    return out


out = []
for l in open(root + "/tools/design.txt"):
    m = re.match(r"@(\w+) ?(\S*)$", l)
    if m and m.group(1) == "property":
        out.append(prop(m.group(2)))
    elif m:
        out.append({"bugs": bugs, "findings": findings}[m.group(1)]())
    else:
        out.append(l)
open(root + "/DESIGN.md", "w").write("".join(out))
