"""refresh the tables of fixed defects and planted bugs in DESIGN.md"""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); D = os.path.join(H, "DESIGN.md"); s = open(D).read()
fx = "| property | commit | what failed |\n|---|---|---|\n"
for l in json.load(open(os.path.join(H, "known_findings.json")))["fixed"]:
    fx += "| %s | %s | %s |\n" % re.match(r"fixed: property=(\S+) (\S+) (.*)", l).groups()
sd = "| planted bug | property | needs |\n|---|---|---|\n"
for d in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", d, "meta.json"))); sd += "| %s | %s | %s |\n" % (d, m["property"], m["needs"])
s = re.sub(r"<!--fix-->.*?<!--/fix-->\n", lambda _: "<!--fix-->\n" + fx + "<!--/fix-->\n", s, flags=re.S)
s = re.sub(r"<!--seed-->.*?<!--/seed-->\n", lambda _: "<!--seed-->\n" + sd + "<!--/seed-->\n", s, flags=re.S)
open(D, "w").write(s)
