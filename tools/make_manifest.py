#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property modules that exist."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "abstract interpretation (ownership / alias labels): every in-place operation's target must not be labelled with an argument",
 "C02": "abstract interpretation (effects): no write reachable from a public call targets storage that outlives it; memo keys cover the stored value's dependencies",
 "C03": "abstract interpretation (provenance of generators): every draw comes from a generator seeded by the seed argument, streams typestate",
 "C04": "abstract interpretation of the validator and of every entry point over the abstract classes of option values",
 "C05": "information-flow analysis of option and argument labels to results and work",
 "C06": "information-flow analysis of the missing-response placeholder with masked-cell rewriting",
 "C07": "storage-type (dtype) inference with labels for storage types inherited from the caller",
 "C08": "dependence analysis along the respondent axis of the scoring functions",
 "C09": "symbolic term comparison of the serial and the parallel pair computation, pair-space coverage",
 "C10": "symbolic dataflow of the bootstrap worker and summaries",
 "C11": "typestate of pools and shared memory over all exits; picklability of dispatched work",
 "C12": "loop-bound and convergence-test analysis over abstract snapshots",
 "C13": "typestate of trial points written by objective functions",
 "C14": "abstract interpretation of guards over the abstract classes of inputs outside the domain",
 "C15": "symbolic shape and field inference of results",
 "C16": "interval and provenance analysis of the simulated responses",
 "C17": "polynomial identity over symbolic terms of the reported criteria",
 "C19": "canonical element formulas of the table and of the direct solution, interval analysis of the discriminations looked up",
 "C20": "respondent placement with classification of every operation that brings respondents together",
 "C21": "scale inference: how every value changes when all category codes are raised by one amount, or respaced",
 "C22": "factorisation of loop-carried likelihood products: one generic iteration is decomposed into item factors and their exponents",
 "C18": "dataflow of quadrature nodes, weights and densities into integrals",
}
NA = {
 "C90": "statistical consistency quantifies over sample size and noise: no sound static argument over this source bounds the estimation error; not decided.",
 "C91": "needs exact real-valued reasoning about exponentials in the kernels (non-negativity of differences of logistic terms in floating point); no static abstraction in reach decides it for all parameters.",
 "C92": "global optimality of scipy's minimisers on data-dependent likelihoods is a numerical fact about the run, not decidable from the source.",
 "C93": "quadrature error bounds depend on the smoothness of data-dependent integrands; not statically decidable here.",
 "C94": "quality of eigen-decomposition based fits is a numerical property of the input matrix; not statically decidable.",
 "C95": "orthogonality and optimality follow from the SVD computed inside LAPACK; a static check could only restate the formula (svd of a product), which is not a decision of the property.",
 "C96": "round-tripping needs trigonometric identities with quadrant cases over real arithmetic; outside the term theory used here.",
 "C97": "frequentist coverage is a statistical property of repeated experiments; not statically decidable.",
}
LEVEL_NOTE = {}
def main():
    checks, na = [], [{"property": k, "reason": v} for k, v in NA.items()]
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    for i in ids:
        if i in NA:
            continue
        if os.path.exists(os.path.join(HERE, "gsa", "props", i.lower() + ".py")):
            checks.append({"property": i, "quick_cmd": f"python3 /verif/check.py {i} --tier quick",
                           "thorough_cmd": f"python3 /verif/check.py {i} --tier thorough",
                           "technique": "static analysis: " + TECH[i], "level": "other",
                           "level_note": LEVEL_NOTE.get(i, "sound up to the library models and the listed assumptions; over-approximates paths, widens loops; decided from source only")})
        else:
            na.append({"property": i, "reason": "check not built yet"})
    doc = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "All checks are static: they parse /repo's current source on every run (python3 standard library only, nothing of /repo is executed or imported)."}
    json.dump(doc, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
main()
