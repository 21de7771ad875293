"""Fills the generated sections of /verif/DESIGN.md (development only)."""
import glob, json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import symx  # noqa
from symx import harness
import props  # noqa

T = {json.loads(l)["id"]: json.loads(l) for l in open(H + "/properties.jsonl")}


def load(p, d):
    return json.load(open(p)) if os.path.exists(p) else d


times = load(H + "/tools/times.json", {})
out = []
for pid in sorted(harness.PROPS):
    p = harness.PROPS[pid]
    t = times.get(pid, {})
    out.append("**%s %s** (%d / %d configurations; %s s / %s s; replay tolerance %g)  " % (pid, T[pid]["title"], len(p.configs("quick")), len(p.configs("thorough")), t.get("quick", "?"), t.get("thorough", "?"), p.tol))
    out.append("Code: %s.  " % ", ".join("`%s`" % m["name"] for m in T[pid]["anchors"]["mechanism"]))
    out.append("Bounds: %s.  " % p.bounds)
    if getattr(p, "outside", ""):
        out.append("Outside: %s.  " % p.outside)
    if getattr(p, "assumptions", ()):
        out.append("Contracts: %s.  " % "; ".join(p.assumptions))
    out.append("Beyond the tests: %s\n" % T[pid]["why_tests_cant"])
sec = {"table": "\n".join(out)}
sec["fixes"] = "\n".join("* " + f.replace("fixed: property=", "") for f in load(H + "/known_findings.json", {})["fixed"])
res = load(H + "/tools/seed_results.json", {})
rows = ["| planted bug | check | caught | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], res.get(i, "?"), m["needs"]))
sec["seeds"] = "\n".join(rows)
mut = H + "/tools/mutation.md"
sec["mutation"] = open(mut).read().strip() if os.path.exists(mut) else "(pending)"
s = open(H + "/DESIGN.md").read()
for k, v in sec.items():
    s = re.sub("<!-- %s -->.*?<!-- /%s -->" % (k, k), lambda m: "<!-- %s -->\n%s\n<!-- /%s -->" % (k, v, k), s, flags=re.S)
open(H + "/DESIGN.md", "w").write(s)
