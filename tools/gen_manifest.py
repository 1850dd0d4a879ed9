"""Writes MANIFEST.json from the list below and properties.jsonl."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIRECT = "The real code is executed on every element of the stated bounded space; trusted: the oracle in /verif, the Python runtime, numpy. Nothing is claimed beyond the bounds."
T = {
 "C01": ("explicit-state exploration of all grow/prune histories of the real tree, routing oracle", DIRECT),
 "C02": ("explicit-state exploration of all split/prune/target/query histories, recomputation oracle", DIRECT),
 "C03": ("exhaustive enumeration of all random-choice outcomes of the real proposer with exact probabilities", DIRECT + " Random draws are intercepted, every outcome is taken with its weight."),
 "C04": ("explicit-state exploration of all move histories including disallowed moves, structural invariant", DIRECT),
 "C05": ("explicit-state exploration of all histories of moves, value changes, target updates and queries, routing oracle", DIRECT),
 "C06": ("explicit-state exploration of all backfitting histories, residual oracle", DIRECT),
 "C07": ("enumeration of the full transition matrix of the real sampler over all reachable trees, detailed balance against an independent posterior", DIRECT + " Equality up to floating point tolerance."),
 "C08": ("enumeration of all proposals, ratios and uniform draws around each acceptance boundary", DIRECT),
 "C09": ("enumeration of all trees, leaf statistics and draws over a grid, closed-form oracle", DIRECT),
 "C10": ("enumeration of all residual histories and draws over a grid, closed-form oracle", DIRECT),
 "C11": ("enumeration of all accept/reject and move outcomes of whole sweeps under a monitor", DIRECT),
 "C12": ("enumeration of all chain lengths, burn-ins, thinning fractions and chain counts", DIRECT),
 "C13": ("explicit-state exploration of all histories after a snapshot, frozen-state oracle", DIRECT),
 "C14": ("enumeration of all small chains, samples and query matrices, aggregation oracle", DIRECT),
 "C15": ("enumeration of all small targets and affine maps, paired runs on equal draws", DIRECT),
 "C16": ("enumeration of all orders of fits and mutations of inputs, paired runs on equal draws", DIRECT),
 "C17": ("enumeration of all lists of data sets and chain counts, paired runs on equal draws", DIRECT),
 "C18": ("enumeration of all scikit-learn trees over small data sets, prediction oracle", DIRECT),
 "C19": ("enumeration of base models, data sets and call histories, decomposition oracle", DIRECT),
 "C20": ("enumeration of all small sample sets, null distributions and quantiles, exact oracle", DIRECT),
 "C21": ("enumeration of all permutation and fold outcomes, recording models", DIRECT),
 "C22": ("explicit-state exploration of all random outcomes of the oblivious sampler, invariants", DIRECT),
 "C23": ("stateless exploration of all thread interleavings of the real code under a controlled scheduler up to a preemption bound", DIRECT + " Switch points are source lines of bartpy code; locks are replaced by cooperative ones."),
 "C24": ("explicit-state exploration of all request/copy/pickle histories of the samplers against a numbered generator", DIRECT),
 "C25": ("enumeration of all accept/reject patterns of short runs, counting oracle", DIRECT),
 "C26": ("enumeration of all small degenerate data sets and accept/reject patterns, termination and finiteness", DIRECT),
 "C27": ("enumeration of all parameter pairs and histories of set_params, clone and fit, observed effects", DIRECT),
 "C29": ("enumeration of the full transition matrix of the real oblivious sampler over all reachable trees, detailed balance against an independent posterior", DIRECT + " Equality up to floating point tolerance."),
 "C30": ("enumeration of all short schedules, logged values, proposal menus and initial trees under recording stand-ins", DIRECT),
 "C31": ("explicit-state exploration of every operation on either side of every way of copying, paired runs on equal draws", DIRECT),
 "C28": ("enumeration of scripted chains, tables and axes modes, the drawn artists compared with recomputed values", DIRECT),
}
checks = []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    i = json.loads(l)["id"]
    checks.append({"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "./check %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
                   "technique": "model checking: " + T[i][0], "level": "model_checking", "level_note": T[i][1] + " Bounds and counts of each run are in the evidence file."})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c 'import numpy, sklearn, pandas, joblib, statsmodels'", "checks": checks, "not_applicable": [],
     "notes": "No hooks are needed in /repo: the checks intercept numpy's random functions, joblib's backend and threading from outside. /repo carries only fix: commits (known_findings.txt)."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
