#!/usr/bin/env python3
"""Authoring helper: fills the tables of DESIGN.md (fixes, planted bugs)."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.md").read()
def fill(tag, body):
    global s
    s = re.sub("<!-- %s -->\n.*?<!-- /%s -->" % (tag, tag), lambda m: "<!-- %s -->\n%s<!-- /%s -->" % (tag, body, tag), s, flags=re.S)
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
fill("fixes", "".join("* %s %s\n" % (l.split()[0], l.split("fix: ", 1)[1]) for l in log if "fix: " in l))
t = "| id | property | what it breaks | caught |\n|---|---|---|---|\n"
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    t += "| %s | %s | %s | %s |\n" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), m.get("caught", "yes"))
fill("seeds", t)
open(V + "/DESIGN.md", "w").write(s)
