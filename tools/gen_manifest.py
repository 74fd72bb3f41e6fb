#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks the analyzer registers."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
ids = set()
for f in glob.glob(os.path.join(here, "analyzer", "*.go")):
    ids |= set(re.findall(r'register\("(C\d\d)"', open(f).read()))
TECH = {
 "C01": "path-sensitive dataflow with inductive loop facts (SSA abstract interpretation)",
 "C02": "path-sensitive dataflow with inductive loop facts (SSA abstract interpretation)",
 "C03": "path-sensitive dataflow: justified-drop obligations per loop iteration",
 "C04": "path-sensitive dataflow per clause scenario (SSA abstract interpretation)",
 "C05": "relational (two-mode) path analysis with linear loop invariants",
 "C06": "lockset dataflow analysis",
 "C07": "lock typestate and lock-order analysis",
 "C08": "parallel-structure dataflow analysis of posting lists",
 "C09": "typestate analysis of document states",
 "C47": "provenance analysis of reported positions, with loop-coverage arguments",
 "C40": "value numbering: the score term in rational normal form against the documented formula",
 "C46": "per-iteration balance (effect) analysis of the length bookkeeping",
 "C45": "distinctness analysis: comparison with every element, or a strictly monotone walk over one list without repetitions",
 "C10": "order-preservation dataflow analysis",
 "C11": "interval/linear bounds analysis with lock invariants",
 "C12": "linear bounds and overflow analysis per case",
 "C13": "comparator analysis over all paths",
 "C14": "field-provenance dataflow analysis",
 "C15": "guard-dominance analysis",
 "C16": "error-flow path analysis over the four storage backends",
 "C17": "value-provenance analysis",
 "C18": "resource typestate analysis",
 "C19": "iterator protocol typestate analysis",
 "C20": "return-value path analysis",
 "C21": "selection path analysis over registry and options",
 "C22": "option-default path analysis",
 "C23": "reply-count typestate analysis and channel-capacity check",
 "C24": "completion protocol analysis (counter and barrier path analysis)",
 "C25": "atomic-access effect analysis and field-offset check",
 "C26": "effect analysis (writes to fixed structure)",
 "C27": "shard-function provenance analysis",
 "C28": "persistence dataflow and ordering analysis",
 "C29": "filter-dominance dataflow analysis",
 "C30": "unchecked type assertion analysis with provenance",
 "C31": "type-registration coverage analysis",
 "C32": "nil-dereference dataflow analysis",
 "C33": "engine-instance provenance analysis",
 "C34": "shared-state lockset and fan-out/fan-in analysis",
 "C35": "field-correspondence analysis over types and dataflow",
 "C36": "taint analysis to command execution",
 "C37": "atomic-access and transition analysis",
 "C38": "permutation-effect analysis",
 "C39": "index-bounds analysis",
}
NA = {
 "C34": "not built: static analysis can address the per-request accumulation, joining and merge, but no such check was finished (the defect found there is repaired, see DESIGN.md); a data race that needs two requests is not decided otherwise",
 "C41": "optimality of a dynamic-programming result over all position choices: a functional correctness claim over unbounded integer sequences that dataflow or type analysis cannot decide",
 "C42": "sortedness of the outputs of recursive sorts needs quantified functional correctness over element values; only the permutation half (C38) is within reach",
 "C43": "a wall-clock bound; timing is a run-time quantity (that the timeout branch exists and is taken without blocking the workers is part of C23)",
 "C44": "durability after power loss depends on the third-party databases' sync options and the device, not on this repository's source",
}
checks = []
for p in props:
    i = p["id"]
    if i in ids:
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
          "technique": "static analysis: " + TECH.get(i, "dataflow"), "level": "other",
          "level_note": "Static decision over the type-checked SSA form of /repo's current source: every path of every function in scope, unbounded inputs and loop iterations through inductive facts. Trusts go/ssa, the analyzer's own term and linear-arithmetic engine, the stated models of library calls, and the assumptions in the evidence file. Thorough repeats the decision for linux/386 and linux/arm64 builds."})
na = []
for p in props:
    i = p["id"]
    if i not in ids:
        na.append({"property": i, "reason": NA.get(i, "not built yet: the analysis planned in DESIGN.md is not implemented")})
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks read /repo's source and need no instrumentation."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
