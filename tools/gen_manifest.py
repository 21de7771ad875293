"""MANIFEST.json from the registered harnesses.  Run with /opt/venv/bin/python tools/gen_manifest.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import symx  # noqa: E402,F401
from symx import harness  # noqa: E402
import props  # noqa: E402,F401

PY = "/opt/venv/bin/python"
NA = {
    "N01": "depends on the convergence of scipy's iterative least-squares optimisers (compiled loops with data-dependent trip counts); what petrofit itself decides - which pixels, coordinates, weights and options they get - is C27",
    "N02": "decided entirely inside photutils/scipy.ndimage compiled labelling; what petrofit itself decides - which image, map and options they get - is C39",
    "N03": "decided by photutils' iterative isophote fitter; what petrofit asks of it is C42",
    "N04": "decided by astropy's k-d tree over spherical coordinates (compiled); what petrofit asks of it is C42",
    "N05": "decided by astropy's table readers and writers and the file system (text formatting and I/O); what petrofit asks of them is C41",
    "N06": "process scheduling inside multiprocessing.Pool.map, whose order guarantee is the library's; given that guarantee, equality with serial generation is C41 and each row's computation is C14",
}

ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for pid in sorted(harness.PROPS):
    p = harness.PROPS[pid]
    note = "Bounds: %s." % p.bounds
    if p.outside:
        note += " Outside: %s." % p.outside
    if getattr(p, "assumptions", ()):
        note += " Assumes: %s." % "; ".join(p.assumptions)
    checks.append(dict(property=pid, quick_cmd="%s check.py %s quick" % (PY, pid), thorough_cmd="%s check.py %s thorough" % (PY, pid),
                       technique="symbolic execution of the real Python source, assertions decided by z3 over all inputs within the bounds, counterexamples replayed on the real package",
                       level="model_checking", level_note=note + " Floats are encoded as reals."))
na = [dict(property=i, reason=NA.get(i, "no check built")) for i in ids if i not in harness.PROPS]
out = dict(version=1, setup_cmd="%s check.py --list" % PY, checks=checks, not_applicable=na)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
