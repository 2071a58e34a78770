#!/usr/bin/env python3
"""Fills DESIGN.md from tools/DESIGN.tmpl.md and known_findings.json's fixed entries from /repo's fix: commits (development tool)."""
import json, os, subprocess, sys, re
V = "/verif"
sys.path.insert(0, V)
FIX = {  # subject prefix -> property
 "constant folding of division": "C01", "conversion of constants to _Bool": "C02", "integer promotion of const": "C03", "shift assignment": "C03", "zero test of float": "C02",
 "switch on the promoted": "C15", "unsigned division": "C11", "comparisons of 8-byte": "C15", "conditions are compared": "C15", "bit-field layout": "C08", "keep macro hide": "C20",
 "value of hexadecimal escape": "C05", "end of a comment": "C26", "line splices and escaped": "C06", "types of operands and results in #if": "C22", "character tables": "C05",
 "comparisons in #if operands": "C22", "a zero-width bit-field": "C08", "the value of an assignment to a bit-field": "C10", "comparisons of floating operands": "C30",
 "conversion of negative char": "C30", "conversions between unsigned long": "C30", "a string initializer": "C09", "a designator of the last": "C09", "a braced initializer": "C09",
 "code points above 0xffff": "C06", "a tag declared in an inner": "C18", "a struct tag is in scope": "C18", "an identifier of an inner scope": "C18", "classification and registers": "C25", "floating arguments of variadic": "C25", "e and p after": "C26", "the # operator spells punct": "C26", "other characters are": "C26", "digraphs": "C26", "two periods": "C26", "line splices in numbers": "C26", "vertical tab": "C26", "symbols defined in another": "C16", "sections are aligned": "C16", "linking places": "C16", "undefined symbols have": "C16", "offsets of labels in relative": "C16", "relocations in ELF": "C17", "functions returning in memory": "C25",
}
try: FIX.update(json.load(open(V + "/tools/fixes.json")))
except FileNotFoundError: pass
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"]).decode().splitlines()
fixes, kf = [], []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    s = s[5:]
    p = [v for k, v in FIX.items() if s.startswith(k)]
    if not p: sys.exit("no property for " + s)
    fixes.append("* %s `%s` %s" % (p[0], h, s))
    kf.append("fixed: property=%s %s %s" % (p[0], h, s))
old = json.load(open(V + "/known_findings.json"))
json.dump({"findings": [f for f in old["findings"] if f.get("status") == "open"], "fixed": kf}, open(V + "/known_findings.json", "w"), indent=1)
seeded = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    seeded.append("* `%s` (caught by the check of %s): %s -- needs %s" % (i, m["property"], m["what_it_breaks"], m["needs"]))
na = ["* %s: %s" % (e["property"], e["reason"]) for e in json.load(open(V + "/MANIFEST.json"))["not_applicable"]]
more = open(V + "/tools/DESIGN.more.md").read() if os.path.exists(V + "/tools/DESIGN.more.md") else ""
t = open(V + "/tools/DESIGN.tmpl.md").read()
for k, v in (("@@MORE@@", more.strip()), ("@@NA@@", "\n".join(na)), ("@@FIXES@@", "\n".join(fixes)), ("@@SEEDED@@", "\n".join(seeded))): t = t.replace(k, v)
open(V + "/DESIGN.md", "w").write(t)
