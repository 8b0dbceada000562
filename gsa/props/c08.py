"""C08: the ability of a respondent is a function of that respondent's own responses."""
from .. import entries as E
from .. import terms as tm
from ..values import *   # noqa
from . import common as cm
from .c05 import flat

ASSUMPTIONS = ["library routines act element by element, along the axis they are given, or on the whole array, as documented",
               "the optimisers are functions of the objective and the bounds they are given"]
AGG = {"min": "min", "amin": "min", "nanmin": "min", "max": "max", "amax": "max", "nanmax": "max", "unique": "unique"}


def check(ctx):
    for n, ent in E.ENTRIES.items():
        if "score" not in ent.tags:
            continue
        for sc in cm.scenarios(n, ctx.tier):
            r = ctx.run(n, dict(sc, mix=True))
            cm.must_return(ctx, r)
            judge(ctx, n, r)
    ctx.need("scored vectors", 6)
    return ("Every value carries the respondent it belongs to: an axis along which it is aligned with the respondents, or the position of one respondent. Operations that act across respondents "
            "(reductions along their axis, distinct values, sorting, gathers by another index, values kept from another pass of the loop over respondents) are marked where they happen. The scores "
            "must be aligned with the respondents along their last axis and no mark may flow into them, nor into the condition under which the call raises.")


def judge(ctx, n, r):
    I = r.I
    for p, sh, f, v in cm.retfacts(r):
        ctx.count("scored vectors")
        ctx.count("operations followed", len(I.events))
        marks(ctx, n, r, f.deps, "the score")
        if sh is None or not sh:
            if f.pl not in (("ax", 0), ("ax", 1)):
                ctx.find("position", cm.retnode(r), f"the result of {n} is not an array aligned with the respondents", run=r, key=n)
        elif f.pl != ("ax", len(sh) - 1) or not tm.same(sh[-1], E.PEOPLE):
            ctx.find("position", cm.retnode(r), f"the scores of {n} are not stored at the position of their respondent", run=r, key=n)
    for e in I.events.values():
        if e.kind == "raise" and e.d.get("ctrlf"):
            d = frozenset().union(*[f.deps for f in flat(e.d["ctrlf"])])
            if any(f.pl == "MIX" for f in flat(e.d["ctrlf"])):
                ctx.find("mixed", e.node, f"{n} fails for all respondents when a condition over them holds", ctx=e.ctx, run=r, fn=n)
            ctx.count("conditions of errors examined")
            marks(ctx, n, r, d, "the condition under which the call fails")


def marks(ctx, n, r, deps, what):
    for lab in sorted(d for d in deps if d.startswith("mix:")):
        node, c, op = r.I.mix[lab]
        ctx.find("mixed", node, f"{what} of {n} depends on other respondents through {op}", ctx=c, run=r, fn=n, key=AGG.get(op, op))
