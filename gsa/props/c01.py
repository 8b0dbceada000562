"""C01: no call changes its caller's objects; recoding calls return storage of their own."""
from .. import entries as E
from ..values import *   # noqa
from . import common as cm

ASSUMPTIONS = ["callables supplied by the caller (density, irt_model) do not modify the arrays they are given",
               "library calls outside the model's table of in-place operations do not modify their arguments"]

RECODERS = ("girth.tag_missing_data", "girth.common.reverse_score", "girth.condition_polytomous_response")


def check(ctx):
    for n in E.ENTRIES:
        for sc in cm.scenarios_opts(n, ctx.tier):
            r = ctx.run(n, sc)
            cm.must_return(ctx, r)
            I = r.I
            ctx.count("public calls x scenarios")
            ctx.count("array and container writes classified by owner", I.stats["stores"])
            for e in I.evs("mut"):
                if e.owner[0] == "param":
                    ctx.find("argument-modified", e.node, f"{e.how}: changes the caller's `{e.owner[1]}`", ctx=e.ctx, run=r)
            if n in RECODERS:
                first = r.ret.items[0] if isinstance(r.ret, Tup) else r.ret
                for v in I.alts(first):
                    ctx.count("recoded results checked for own storage")
                    if isinstance(v, Arr) and I.owner.get(v.loc, ("",))[0] == "param":
                        ctx.find("result-aliases-argument", leave_node(r), f"the returned dataset is (a view of) the caller's `{I.owner[v.loc][1]}`", run=r)
    for n, sc, call in cm.density_clients():
        r = ctx.custom(n, sc, call)
        cm.must_return(ctx, r)
        ctx.count("uses of a density object")
        for e in r.I.evs("mut"):
            if e.owner[0] == "param":
                ctx.find("argument-modified", e.node, f"{e.how}: changes the caller's `{e.owner[1]}`", ctx=e.ctx, run=r)
    ctx.need("public calls x scenarios", len(E.ENTRIES))
    ctx.need("recoded results checked for own storage", 3)
    return ("Abstract interpretation of every public call with every argument's storage labelled by its owner; views, slices, "
            "transposes, closures, callbacks and helpers keep the label. Every in-place operation (item and slice assignment, "
            "augmented assignment, out=, in-place methods, dictionary and list updates, attribute assignment) is an obligation: "
            "its target must not be labelled with an argument. The recoding calls must return storage without an argument label.")


def leave_node(r):
    fn = [e for e in r.I.evs("leave") if e.d["call"] is E.SITE]
    return fn[-1].node if fn else None
