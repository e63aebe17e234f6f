# Fills the generated parts of DESIGN.md (between <!-- begin X --> and <!-- end X -->) from tools/worlds.py and seeded/.
import json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
import worlds as W
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
def put(name, text):
    global s
    s = re.sub(r"(<!-- begin %s -->\n).*?(<!-- end %s -->)" % (name, name), lambda m: m.group(1) + text + m.group(2), s, flags=re.S)
t = "| property | worlds (quick runs / thorough runs) |\n|---|---|\n"
for k in sorted(W.CHECKS):
    t += "| %s | %s |\n" % (k, ", ".join("%s (%d / %d)" % x for x in W.CHECKS[k]))
put("CHECKS", t)
caught = {}
f = os.path.join(H, "tools", "caught.txt")  # id: checks that reported it
if os.path.exists(f):
    for l in open(f):
        if ":" in l:
            a, b = l.split(":", 1)
            caught[a.strip()] = b.strip()
t = "| planted bug | breaks | needs | caught by |\n|---|---|---|---|\n"
for i in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", i, "meta.json")))
    t += "| %s | %s | %s | %s |\n" % (i, m["what_it_breaks"], m["needs"], caught.get(i, m["property"]))
put("SEEDED", t)
open(p, "w").write(s)
