"""DESIGN.md from tools/DESIGN.in, checks.py, known-findings.txt and the results of planted bugs (tools/bugs.tsv)."""
import os, sys, json, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from checks import CHECKS
cost = dict(l.split() for l in open(R + "/tools/cost.txt"))
rows = []
for p in sorted(CHECKS):
    c = CHECKS[p]
    hs = ", ".join(s["harness"] for s in c["stages"])
    what = c["what"].split(" The real library runs under")[0].rstrip(";")
    orc = ("no crash, race, deadlock, thread left; single threaded answers" if "vsched" in str(c["stages"]) else
           "exact full conditional" if p == "P13" else "independent reader of the format" if p == "P19" else
           "the model exported" if p in ("P18", "P23") else "reference model")
    rows.append("| %s | `%s`: %s | %s | %s | %s s |" % (p, hs, what, orc, c["bounds"]["quick"], cost.get(p, "?")))
s = open(R + "/tools/DESIGN.in").read().replace("@TABLE@", "\n".join(rows))
k = open(R + "/known-findings.txt").read()
s = s.replace("@NFIX@", str(len(re.findall(r"^fixed:", k, re.M))))
b = ["| bug | property | what it needs | caught by |", "|---|---|---|---|"]
caught = dict(l.rstrip("\n").split("\t") for l in open(R + "/tools/bugs.tsv") if l.strip())
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(R + "/seeded/" + d + "/meta.json"))
    b.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), caught.get(d, "?")))
open(R + "/DESIGN.md", "w").write(s.replace("@BUGS@", "\n".join(b)))
