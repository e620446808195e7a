#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = {
    "poly": ("PolyMachine/Poly", "TracePoly"), "num": ("NumTheory", "TraceNum"), "curve": ("CurveMachine/Curve", "TraceCurve"),
    "forms": ("QSeries/ModPoly", "TraceForms"), "div": ("DivPoly", "TraceDiv"), "count": ("Counting", "TraceCount")}
KIND = {**{"C%02d" % i: ["poly"] for i in range(1, 14)}, "C03": ["num", "poly"], "C13": ["poly", "curve"], "C14": ["num"], "C15": ["num"], "C16": ["num"],
        **{"C%02d" % i: ["curve"] for i in range(17, 23)}, "C23": ["div"], "C24": ["count"], "C25": ["forms"], "C26": ["forms"],
        "C27": ["num"], "C28": ["num"], "C29": ["count"], "C30": ["poly"]}
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    ks = KIND[p]
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s --tier quick" % p,
        "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "TLA+ specification (%s) model-checked with TLC; recorded executions of the library validated against it by TLC (%s)" % (
            ", ".join(SPECS[k][0] for k in ks), ", ".join(SPECS[k][1] for k in ks)),
        "level": "model_checking",
        "level_note": "The specification's own laws are model-checked exhaustively in small bounds; every recorded execution of the real library must be a "
                      "behaviour of the specification, compared on the complete result of every operation.  Assurance about the code is bounded by the inputs "
                      "and histories executed (generated and, where small, enumerated).  Trusts TLC, the big-integer overrides of ZZ (compared with pure TLA+ "
                      "by MCZZ) and the projection in harness/."})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: the public API exposes the whole abstract state. Specification in TLA+, checked with TLC; see DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
