"""Writes /verif/MANIFEST.json: a property is claimed when props/<id>.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C10": "interprocedural alias and effect (mutation) analysis over the syntax tree",
 "C11": "shared-mutable-state (escape and effect) analysis over the syntax tree",
 "C21": "definite-assignment dataflow and name resolution over control-flow graphs",
}
VALUE = "interprocedural value-flow analysis (abstract interpretation into normalised terms, compared with the specification)"
LEVELNOTE = {}
NA = {
 "C40": "Accuracy of numerical integration depends on the field's smoothness and on scipy's step control at run time; no static argument over this source bounds it.",
 "C41": "Convergence of a Newton iteration on splines depends on run-time data; the source only shows that an unconverged result is not returned (that part is C18).",
 "C42": "Positivity of cell areas after elliptic smoothing depends on run-time shapes; no static bound is available.",
 "C43": "Heuristic ordering of scattered points is correct only for suitable point density, a run-time quantity.",
 "C44": "Whether a least-squares replacement removes every corner depends on the run-time shape of the line.",
 "C45": "Convergence order of the assembled operators is a statement about limits of floating-point results, not about the source.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, "props", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
            thorough_cmd="python3 check.py %s --tier thorough" % i,
            technique=TECH.get(i, VALUE), level="other",
            level_note=LEVELNOTE.get(i, "Static: each obligation compares the normalised abstract value of the source with the specification, for all inputs; obligations not proved are listed as undecided in the evidence; a violation is reported only with a distinguishing valuation of the two terms. Real arithmetic, modelled numpy/scipy semantics.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "No check built yet.")))
json.dump(dict(version=1, setup_cmd="python3 -c 'import ast, sys; assert sys.version_info >= (3, 10)'", checks=checks, not_applicable=na),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
