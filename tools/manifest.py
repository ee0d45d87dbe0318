#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks below (run by hand after a change)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "P02": ("TLA+ predicate semantics; TLC enumerates and computes outcomes, replayed into Model.Evaluate", "exhaustive over operators x types x literals x Go types and compound shapes to depth 2, random deeper ones, 64-bit numbers by rank; observed through trees and segment gates"),
 "P03": ("TLA+ tree walk; TLC computes the outcome of every enumerated and random tree, replayed into Model.Evaluate", "exhaustive over truth patterns of small trees, random deeper trees"),
 "P04": ("TLA+ missing value strategies; TLC-computed outcomes replayed into Model.Evaluate", "exhaustive over truth patterns x strategies of small trees, random deeper trees"),
 "P05": ("TLA+ output distributions; TLC-computed outcomes replayed into Model.Evaluate", "exhaustive small distributions and scores, random larger ones in exact rationals; near ties accepted only where floating point cannot tell"),
 "P06": ("TLA+ regression semantics (exact rationals, symbolic links); TLC-computed outcomes replayed", "links compared to 1e-9"),
 "P07": ("TLA+ ensemble loop; TLC-computed sums and averages replayed into Model.Evaluate", "bounded segment counts"),
 "P08": ("TLA+ gating, selectFirst and chain semantics; TLC-computed outcomes replayed", "bounded segment counts"),
 "P09": ("TLA+ expression semantics; TLC-computed outcomes replayed into Model.Evaluate", "bounded expression depth"),
 "P10": ("TLA+ imputation semantics; TLC-computed outcomes replayed into Model.Evaluate", "bounded nesting"),
 "P11": ("TLA+ verification verdict; TLC-computed verdicts compared with Model.Verify", "tables generated from specified outcomes and perturbed"),
 "P12": ("TLA+ session state machine; TLC enumerates every history of build/validate/compile/verify/evaluate and simulates long ones, replayed on objects sharing a document; results, rows and document compared after each call", "all histories to length 4 (5 thorough) over 3 objects, length 30 simulated; documents random"),
 "P14": ("TLA+ life cycle and session state machines; TLC enumerates every history, replayed on unvalidated, raw, rejected and constructed objects", "all histories to bounded length; documents random"),
 "P16": ("TLA+ numeral semantics; TLC enumerates all short texts and computes the number of random ones, compared with every accessor", "exhaustive over short texts, random beyond"),
 "P17": ("TLA+ character-by-character array scanner; TLC enumerates all short texts and written lists and reads random long ones, compared with the accessors", "exhaustive to bounded length, random beyond"),
 "P15": ("TLA+ BuildOk/MayRefuse and scoring machine; TLC-computed outcome of documents with every mistake at every place, replayed; unusable rows", "single mistakes exhaustive over 8 base documents, combined ones random"),
}
TECH.update({
 "P01": ("TLA+ pushdown machine reading XML tokens; TLC checks it against the tree definition and emits every small document, damaged documents and the trees of random documents, compared with the decoded objects", "schema table fixed in spec/schema.json; element/child pairs and grandchildren exhaustive, larger documents random"),
 "P13": ("TLA+ interleaving model of evaluations; TLC enumerates every schedule, replayed through gated row values, and refutes the design preparing rows in place; the same calls run free under the race detector against TLC-computed outcomes", "2 processes x 3 steps and 3 x 2 exhaustive (2 x 5 thorough); races seen only on executed paths"),
 "P18": ("TLA+ pushdown machine reading XML tokens; TLC enumerates every element type with every attribute, pair of attributes, child and pair of children, and every factory name, compared with the decoded objects", "schema table fixed in spec/schema.json; random larger documents"),
})
NA = {}
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p not in TECH:
        NA[p] = "check not built yet"
m = {"version": 1, "setup_cmd": "true",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "model_checking", "level_note": n}
                for p, (t, n) in sorted(TECH.items())],
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
