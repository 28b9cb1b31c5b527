#!/usr/bin/env python3
"""fills in the marked parts of DESIGN.md"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V+"/DESIGN.md").read()
def put(name, text):
    global s
    a, b = "<!-- begin %s -->\n" % name, "<!-- end %s -->" % name
    i, j = s.index(a)+len(a), s.index(b)
    s = s[:i]+text+s[j:]
out = ""
for l in open(V+"/properties.jsonl"):
    p = json.loads(l)
    c = json.load(open(V+"/harness/%s/config.json" % p["id"].lower()))
    out += "\n**%s – %s**\n\n" % (p["id"], p["title"])
    for t in ("quick", "thorough"):
        out += "".join("* %s%s\n" % ("thorough: " if t == "thorough" else "", b) for b in c["bounds"][t])
    for a in c.get("assumptions") or []: out += "* *assumed:* %s\n" % a
    st = (c.get("stubs") or {}).get("*")
    if st: out += "* *stubs:* %s\n" % ", ".join(sorted(st))
put("bounds", out+"\n")
log = V+"/tools/hunt.txt"
if os.path.exists(log):
    got = {}
    for l in open(log):
        w = l.split()
        if len(w) > 3 and w[2] in ("CAUGHT", "MISSED"): got[w[0]] = (w[1], w[2], w[3])
    t = "| planted bug | property | needs | quick check |\n|---|---|---|---|\n"
    for id in sorted(got):
        m = V+"/seeded/%s/meta.json" % id
        if not os.path.exists(m): continue
        m = json.load(open(m))
        t += "| %s: %s | %s | %s | %s |\n" % (id, m["what_it_breaks"], got[id][0], m["needs"], got[id][1].lower())
    put("caught", t)
open(V+"/DESIGN.md", "w").write(s)
