"""Refreshes the tables of DESIGN.md from lib/registry.py, evidence/ and seeded/."""
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import registry



def short(r):
    for k, v in (("**[G]** ", registry.GEN_ABS), ("**[C]** ", registry.COMP_ABS), ("**[P]** ", registry.PHASE_ABS), ("**[T]** ", registry.RENDER_ABS), ("**[R]** ", registry.ABS)):
        if r.startswith(v):
            return k + r[len(v):]
    return r


props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
o = []
for p in props:
    i = p["id"]
    s = registry.SPECS.get(i)
    if s is None:
        continue
    e = {}
    f = os.path.join(V, "evidence", i + ".json")
    if os.path.exists(f):
        e = json.load(open(f))
    c = e.get("coverage", {})
    o.append("* **%s %s** – *%s* (%s).  %s.  %s  Last quick run: %s obligations over %s units, %s s." % (
        i, p["title"], s.get("technique", "abstract interpretation of MIR"), s["level"], short(s["rule"].rstrip(".")) + ("; **[C]** the same facts of the schema compiler" if i in registry.COMP and s["level"] != "other" else "") + ("; **[P]** the same facts after the generator" if i in registry.PHASE and i in registry.COMP else ""), (s.get("bounds", "") or ("Bounds: " + s["note"] + "." if s.get("note") else "Bounds: none beyond the instantiated types.")),
        c.get("obligations", "?"), c.get("units", "?"), round(e.get("wall_s", 0))))
t = []
sd = os.path.join(V, "seeded")
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    t.append("* `%s` (%s): %s. Needs: %s." % (d, m["property"], m["what_it_breaks"], m["needs"]))
p = os.path.join(V, "DESIGN.md")
x = open(p).read()


def put(x, tag, old, body):
    new = "<!-- %s -->\n%s\n<!-- /%s -->" % (tag, body, tag)
    if old in x:
        return x.replace(old, new)
    return re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (tag, tag), lambda m: new, x, flags=re.S)


x = put(x, "properties", "PROPERTIES_TABLE", "\n".join(o))
x = put(x, "seeded", "SEEDED_TABLE", "\n".join(t))
open(p, "w").write(x)
