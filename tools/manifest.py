#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl: every property with a check binary is claimed."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = "exhaustive enumeration of bounded inputs, run on the real code and compared with an exact oracle"
GRAPH = "exhaustive exploration of all reachable states / choice sequences of the real code"
T = {
 "C09": GRAPH + ": every cursor position x move and every front/back iteration history against a cyclic-list model",
 "C13": ENUM + "; every script of random draws",
 "C14": GRAPH + ": every candidate-ear proposal in every reachable clipping state, plus enumerated polygons",
 "C18": GRAPH + ": every choice of the crossing to resolve next, plus enumerated point lists",
 "C19": GRAPH + ": every operation history against a reference set",
 "C23": GRAPH + ": every script of random draws over a bounded alphabet",
 "C27": ENUM.replace("compared with an exact oracle", "instantiated with a counting number type, each count compared with the documented growth"),
 "C28": GRAPH + ": every succession of two operations and of three inputs in a fresh process, every interleaving of two lazy listings, against answers given alone",
 "C05": "exhaustive enumeration of index triples and of the orientation algebra",
}
NOTE = {
 "C14": "Candidate order is exhausted for every simple polygon of the bounded families; the random source is the only scheduler of the algorithm.",
 "C18": "Choice sequences are exhausted up to a node cap per start, which the evidence states; larger tours run with fixed sources.",
 "C19": "Every history up to the stated length and every reachable content for up to the stated number of vertices.",
}
BASE = "Holds on every input, choice sequence and state inside the bounds listed in the evidence file; beyond them it is not decided. Trusted: the oracle (exact i128/big-integer arithmetic), rustc, and the num-* crates it uses."
checks = []
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l)["id"]
    if not os.path.exists(f"{R}/harness/src/bin/{p.lower()}.rs"):
        continue
    checks.append({"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough",
                   "evidence_file": f"evidence/{p}.json", "technique": "model checking: " + T.get(p, ENUM),
                   "level": "model_checking", "level_note": (NOTE.get(p, "") + " " + BASE).strip()})
m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks: every check drives the public API. Findings: known_findings.txt."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
