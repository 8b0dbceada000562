"""C21: only the order of the response categories matters, not the numbers that name them."""
from .. import entries as E
from ..values import *   # noqa
from . import common as cm

ASSUMPTIONS = ["the placeholder for missing answers stays the placeholder (it is no category code)",
               "means, quantiles and sums over respondents are linear in what is summed",
               "numpy.unique, its inverse and its counts depend on the order of the values only"]

DATA = ("dataset",)
MD = ("girth.multidimensional_ability_map", "girth.multidimensional_ability_eap", "girth.multidimensional_grm_mml")
# (codes, only their order counts: codes with gaps give the same result as codes without)
SETS = {"girth.grm_mml": (DATA, True), "girth.grm_mml_eap": (DATA, True), "girth.pcm_mml": (DATA, True), "girth.gum_mml": (DATA, True),
        "girth.grm_jml": (DATA, True), "girth.pcm_jml": (DATA, True), "girth.condition_polytomous_response": (DATA, True),
        "girth.multidimensional_grm_mml": (DATA, False), "girth.multidimensional_ability_map": (DATA, True), "girth.multidimensional_ability_eap": (DATA, True),
        "girth.initial_guess_md": (DATA, False), "girth.classical_test_statistics": (DATA, False),
        "girth.common.polychoric_correlation": (("ordinal_data", "start_val", "stop_val"), False),
        "girth.common.polychoric_correlation_serial": (("ordinal_data", "start_val", "stop_val"), False),
        "girth.common.contingency_table": (("vals1", "vals2", "start_val", "stop_val"), False),
        "girth.common.polyserial_correlation": (("ordinal",), True), "girth.common.cronbach_alpha": (("data", "dataset"), False)}
# results that are themselves on the scale of the codes
CODED = {("girth.classical_test_statistics", "['Mean']")}


def check(ctx):
    for n, (leaves, order) in SETS.items():
        for sc in cm.scenarios(n, ctx.tier):
            strict = order or n in MD and not sc.get("initial_guess", True)
            r = ctx.run(n, dict(sc, codes=leaves, strict=strict))
            if not any(x in r.args for x in leaves):
                raise cm.AnalysisBroken(f"{n}: none of the parameters {leaves} found")
            cm.must_return(ctx, r)
            judge(ctx, n, r, strict)
    ctx.need("results examined", 200)
    ctx.need("values made of category codes", 200)
    return ("Every value carries its scale in the category codes: how it changes when all codes are raised by one and the same amount. Comparing codes with codes, their distinct values, their positions "
            "among the distinct values and differences of codes are unaffected; a code compared with a fixed number, limited by one, taken as true or false, multiplied, or used as a position or size is "
            "not, and nothing computed from it may reach a result. Where no category may be counted by arithmetic (estimators, abilities, polyserial correlation), distances between codes may not "
            "reach a result either.")


def judge(ctx, n, r, strict):
    I = r.I
    ctx.count("values made of category codes", sum(1 for k in I.codes.memo.values() if k != 0 and not isinstance(k, I.codes.Bad)))
    for op, t in I.codes.unknown.items():
        ctx.notes.append(f"{n}: what {op} does with category codes is not known")
    seen = set()
    for p, sh, f, v in cm.retfacts(r):
        ctx.count("results examined")
        for lab in sorted(d for d in f.deps if d.startswith("code:")):
            if lab in I.codebad and lab not in seen:
                seen.add(lab)
                node, c, why = I.codebad[lab]
                ctx.find("codes", node, f"the result {p or 'of'} {n if not p else ''} depends on the numbers that name the categories: {why}".replace("  ", " "), ctx=c, run=r, key=why)
        k = I.codes(f.term)
        if k != 0 and (n, p) not in CODED:
            ctx.find("result", cm.fnnode(r), f"the result {p} of {n} is {'on the scale of the category codes' if k != 'd' else 'a matter of the distance between category codes'}", run=r, fn=n, key=p)
    for lab, (node, c, why) in I.codebad.items():
        if lab not in seen and why.endswith("position or size"):
            ctx.find("codes", node, f"{n}: {why}", ctx=c, run=r, key=why)
    for e in I.evs("branch"):
        f = e.d.get("f")
        ctx.count("decisions examined")
        if f is not None and f.dt != "b" and I.codes(f.term) != 0:
            ctx.find("codes", e.node, f"{n}: a category code is taken as true or false", ctx=e.ctx, run=r, key="truth")
