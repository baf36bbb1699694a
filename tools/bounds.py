#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from the harness directives and seeded/."""
import re, glob, os, json
os.chdir(os.path.join(os.path.dirname(__file__), ".."))
rows = []
for f in sorted(glob.glob("harness/*/*.go")):
    pend = []
    for l in open(f):
        m = re.match(r"//\s?vsym (C\d+)\s*(.*)", l)
        if m:
            pend.append((m[1], m[2]))
        m = re.match(r"func (VSym_\w+)\(", l)
        if m:
            for c, d in pend:
                g = lambda k: (re.search(k + r":(\S+)", d) or [None, ""])[1]
                rows.append((c, m[1][5:] + ("/" + g("name") if g("name") else ""), g("quick") or "-", g("thorough") or "-"))
            pend = []
rows.sort()
t = "| property | harness | quick | thorough |\n|---|---|---|---|\n" + "".join("| %s | %s | %s | %s |\n" % (a, b, c.replace(",", ", "), d.replace(",", ", ")) for a, b, c, d in rows)
seeds = ""
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d))
    seeds += "| %s | %s | %s | %s |\n" % (d.split("/")[1], m["property"], m["what_it_breaks"].replace("|", "/"), m.get("caught_by", m["property"]))
seeds = "| id | property | what it breaks | caught by |\n|---|---|---|---|\n" + seeds
s = open("DESIGN.md").read()
def fill(name, body):
    global s
    a, b = "<!-- %s -->\n" % name, "<!-- end -->\n"
    s = s.replace("@%s@\n" % name, a + b)
    i = s.index(a) + len(a)
    s = s[:i] + body + s[s.index(b, i):]
fill("SEEDED", seeds)
fill("BOUNDS", t)
open("DESIGN.md", "w").write(s)
