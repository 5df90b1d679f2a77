# rewrites the generated part of DESIGN.md (per-property table) from contracts/ and properties
import os, re, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {}
for l in open(os.path.join(ROOT, "properties.jsonl")):
    d = json.loads(l); props[d["id"]] = d
out = []
for pid in sorted(props):
    src = open(os.path.join(ROOT, "contracts", pid + ".cpp")).read()
    pv = re.findall(r"^NPV_PROVE\((\w+)", src, re.M)
    bd = re.findall(r"^NPV_BOUNDED\((\w+), (\d+), (\d+)\)", src, re.M)
    out.append("### %s %s\n" % (pid, props[pid]["title"]))
    if pv: out.append("* proved for all inputs: " + ", ".join("`%s`" % x for x in pv))
    else: out.append("* no function of this property is within the verifier's reach yet: whole-group histories through MPI and ownership-rich C++ objects; bounded stand-ins only")
    if bd: out.append("* bounded stand-ins (runs, most ranks): " + ", ".join("`%s` (%s, %s)" % x for x in bd))
    for m in re.findall(r"^//@ (assume|opaque): *(.*)", src, re.M): out.append("* %s: %s" % ({"assume": "assumed", "opaque": "taken as opaque (arbitrary effect or assumed contract)"}[m[0]], m[1]))
    for m in re.findall(r"^//@ design: *(.*)", src, re.M): out.append("* " + m)
    out.append("")
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
a, b = "<!-- generated: properties -->\n", "<!-- end generated -->\n"
s = s[:s.index(a) + len(a)] + "\n" + "\n".join(out) + "\n" + s[s.index(b):]
open(p, "w").write(s)
