#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: the head, one section per property (method and
assumptions from the last evidence files, limits from NOTE below), the
findings, the planted bugs and what was left out."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = lambda *p: open(os.path.join(HERE, *p), encoding="utf8").read()

# id -> (why the tests cannot settle it / what the analysis reaches, limits and corrections)
NOTE = {
"C01": ("all aliases, all branches and all callbacks of every public call; a test sees the branch its data takes.",
        "A store is judged by where it lands, so working on a view of an argument and on a copy of it are told apart after any number of helpers. A store whose target is completely unknown is noted, not reported. Methods of the density classes (evaluation, filter_matrix, continuous_pdf, resample, compute_metrics) are run on an object the caller owns."),
"C02": ("histories of any length: the argument is that nothing a call can write outlives it.",
        "Memoisation is allowed when the key covers what the value depends on (dependence labels of the stored value must be among those of the key), and the stored value is neither modified nor handed out afterwards. Calls are also run with every argument that has a changeable default left out, so state kept in such a default is seen, and the methods of the density classes are included."),
"C03": ("the generator behind each draw on every path; tests fix one seed.",
        "Distinct seeds are taken to give distinct streams. Optimisers that draw (basin hopping and the like) count as draws. Every call that takes a seed is also run without one: nothing may then fall back on (or advance) numpy's global generator. A generator picked from a list by position is a pick of that list, so one generator reused for several respondents is seen."),
"C04": ("every class of invalid value for every option name at every entry point, and every subset of options (singles, pairs, all, none).",
        "Classes are finite: wrong type, boundary, boundary-1, NaN-free numbers. Booleans pass where Python accepts them as integers, because the code and the documentation do not say otherwise (a check that refused them would have been a false alarm)."),
"C05": ("for each option alone and all together, where its value goes; tests use defaults or options so close to the defaults that a mix is invisible.",
        "Influence is existential (some path on the way to the result reads it), the absence of defaults is universal. The grid rule compares symbolic size and bounds of every quadrature rule with the options of the call. Arguments of every library call (also each part of a pair such as delta_sign or bounds, and the methods of the density classes) are checked for influence; an axis argument influences the reduction it steers."),
"C06": ("any pattern of missing cells, any category the placeholder happens to index.",
        "The property is decided for the methods that support tagged data. `rasch_conditional` is left out because it rejects tagged data (IndexError). Constant factors and terms of a likelihood are admitted, by the statement. A respondent without any valid response is inside the property for scorers that define it."),
"C07": ("every storage type at once, because the type stays symbolic.",
        "The statement was narrowed to responses (boolean, 8–64 bit, floating) and parameters as integers or floats: half precision parameters are out. Not decidable here: the type of a `zeros_like` buffer when two item kinds join (single category), so that one repair (0ef6646) is watched through the interval of the stored value instead."),
"C08": ("all other respondents at once: dependence, not sampling.",
        "Two findings with two keys each are recorded for the multidimensional scorers (section 4)."),
"C09": ("any number of items and workers: the pair function, the enumeration of pairs and the positions are symbolic.",
        "That the coefficient is symmetric in its two rows is an assumption (it is a statement about a numerical minimisation); the rule asks that both positions hold the same computed value. A single item with a parallel pool (an empty chunk) is out of the statement's range."),
"C10": ("any number of respondents, replicates and workers, one- and two-dimensional parameters.",
        "The caller's model is opaque. Percentile method and axis, ddof, counts and orders of the results are compared as terms. The join of replicates of the same field counts as that field."),
"C11": ("every exit, including exceptions raised between opening and releasing a resource, which no test provokes.",
        "Operations taken to be able to raise while a resource is open: every call except a list of total ones. Handles attached by a worker to an existing block may be dropped with their last reference (an earlier version asked for an explicit close in the worker: a false alarm, since the block itself is owned and unlinked by the parent). A write by the parent into the shared block while dispatched work may be reading it is reported (order of dispatch, write, collection)."),
"C12": ("any data: the bound on sweeps and the meaning of the stop test, also for aliased snapshots, which look right for a first sweep.",
        "A tolerance must be positive by its interval. Convergence tests over several parameters must cover those that the loop reports as monitored."),
"C13": ("the minimiser may end on any trial point. Tests compare at 1e-3 and cannot see a difference of 1e-5 that becomes 1e-2 for flat likelihoods.",
        "Six genuine defects were found and repaired by this check."),
"C14": ("the whole class of inputs outside each domain restriction, symbolic sizes.",
        "Thresholds are described by facts on a generic row (ascending; descending; symmetric about a centre; any). A check for which the tree has no restriction in code or documentation is not made."),
"C15": ("symbolic sizes, with the sizes 1 and 2 analysed separately since `squeeze` and broadcasting change shapes there.",
        "Axis order is judged through reordering operations on the way out."),
"C16": ("all parameters, sizes, seeds and spellings of the model name: intervals and shapes are symbolic.",
        "The named model's probabilities are compared when the term is in a recognised form; else that clause is noted. A value left behind by a loop is the value at its last index."),
"C17": ("an identity between reported terms; tests compare to frozen numbers for one option set.",
        "k counts density points only, as documented in the code (the item parameters are not part of k there); that is a design decision of the repository and not questioned."),
"C18": ("which density and which rule reach each sum on all paths through the sweeps; with the default options all densities coincide, so tests cannot see a mix.",
        "Sums that are not over quadrature nodes are recognised by their index sets and left alone."),
"C19": ("all discriminations, proportions, densities and grids; tests look up a handful of points with a tolerance of the table step.",
        "'The same difficulty' is meant up to the table's step. One finding (section 4). `grm_mml` with more than one item kind uses the same table and is covered by the 'discriminations looked up' rule."),
"C20": ("all permutations and all data; tests estimate one data set in one order and accept errors larger than one misplaced respondent causes.",
        "Every operation that brings respondents together is classified by what it computes; one that is in no class is noted, not reported. Positions among *sorted distinct* patterns do not depend on the order of respondents and are accepted; sums over the patterns need the counts as a factor. Three findings (section 4)."),
"C21": ("all datasets and all renumberings at once (the shift is a symbol); the tests' codes always start at 0 or 1 and have no gaps.",
        "In the order-only mode (estimators, ability estimators, polyserial) a difference of codes may only be compared with zero or with another difference. Operations with no known effect on codes are noted, not reported. `reverse_score` is left out: its documentation fixes codes from 1 to `max_val`; the mean of an item is on the scale of the codes by definition."),
"C22": ("any number of items and sweeps: one generic iteration stands for all; the tests' tolerances absorb one item counted twice.",
        "The loop-carried array is taken apart into factors (products, quotients, powers; branches become alternatives). A factor that reads answers through something other than the loop's own item, or that the decomposition does not know (logarithms, stacked arrays reduced at once, products kept under two names), is noted, not reported. "
        "The division is compared with the multiplication it undoes as a term, after renaming the loop variable; a difference is reported only when it is a parameter read at a newer version. Masks of missing answers do not appear in the terms: a mask of another item is C06's. Joint and conditional estimation build sums, not products, and are outside.")
}
def main():
    props = [json.loads(l) for l in R("properties.jsonl").splitlines() if l.strip()]
    man = json.loads(R("MANIFEST.json"))
    tech = {c["property"]: c["technique"] for c in man["checks"]}
    na = {c["property"]: c["reason"] for c in man["not_applicable"]}
    out = [R("tools", "design_head.md"), "## 2. The properties and how each is decided\n"]
    for p in props:
        i = p["id"]
        if i in na:
            continue
        ev = json.loads(R("evidence", i + ".json"))
        cov = ev["coverage"]
        out.append(f"### {i} {p['title']}\n")
        out.append(f"*Technique:* {tech[i]}.\n")
        out.append(f"*Decision:* {cov['explanation']}\n")
        out.append(f"*Oracle:* the statement in `properties.jsonl`; nothing is compared with a recorded run. "
                   f"*Reach:* {NOTE[i][0]}\n")
        out.append(f"*Limits and corrections:* {NOTE[i][1]}\n")
        out.append("*Assumptions:* " + "; ".join(ev["assumptions"]) + ".\n")
        out.append("*Rule instances on the current tree:* " + ", ".join(
            f"{k} {v}" for k, v in cov["obligations"].items()
        ) + f" ({len(cov['public_calls_analysed'])} public calls, {cov['scenarios_analysed']} scenarios, "
            f"{cov['functions_reached']} functions). Quick and thorough differ in the number of option combinations.\n"
            if isinstance(cov.get("obligations"), dict) else "")
    out.append("## 3. Not applicable\n")
    for p in props:
        if p["id"] in na:
            out.append(f"* **{p['id']} {p['title']}** – {na[p['id']]}")
    out.append("")
    out.append(R("tools", "design_tail.md"))
    out.append("## 6. Planted bugs and what catches them\n")
    out.append("Every kept change passes the test suite, fails its demonstration and is caught by the check of "
               "its property (run on a tree with the change applied).\n")
    out.append("| planted change | property | what it breaks | needs |\n|---|---|---|---|")
    sd = os.path.join(HERE, "seeded")
    for d in sorted(os.listdir(sd)):
        m = json.loads(R("seeded", d, "meta.json"))
        c = lambda s: " ".join(str(s).split()).replace("|", "/")
        out.append(f"| {d} | {m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} |")
    open(os.path.join(HERE, "DESIGN.md"), "w", encoding="utf8").write("\n".join(out) + "\n")
main()
