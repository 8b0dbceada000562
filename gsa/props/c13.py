"""C13: reported estimates are the minimiser's answer, not a leftover trial point."""
from .. import entries as E
from ..values import *   # noqa
from . import common as cm

ASSUMPTIONS = ["re-evaluating the objective at the returned point writes what an evaluation at that point writes (no hidden state)",
               "the minimiser may end with any trial point, so its last evaluation is not assumed to be its answer"]


def sites(I, f):
    return sorted({t[0] for t in f.trial}, key=str)


def check(ctx):
    for n, e in E.ENTRIES.items():
        for sc in cm.scenarios(n, ctx.tier):
            r = ctx.run(n, sc)
            cm.must_return(ctx, r)
            one(ctx, n, r)
    ctx.need("minimisations analysed", 60)
    ctx.need("reported values traced", 300)
    return ("Every public call is interpreted with each numerical minimisation modelled as an unknown number of objective evaluations at unknown trial points followed by the returned point. "
            "Whatever the objective writes into storage that outlives it (arrays, closures, attributes, list elements) is labelled with the minimisation and the cell it was written to; "
            "the label is removed only by overwriting that storage from the returned point (assigning it, or running the same objective at it). "
            "Every leaf of the result, including arrays inside returned objects, must be free of labels; labels survive copies, arithmetic, views, loops and further sweeps, "
            "so carrying a leftover into the next sweep is reported too.")


def one(ctx, n, r):
    I = r.I
    ctx.count("minimisations analysed", len(I.evs("optcall")))
    for p, s, f, v in cm.retfacts(r):
        ctx.count("reported values traced")
        for st in sites(I, f):
            node = I.proj.nodes[st] if isinstance(st, int) else cm.fnnode(r)
            ctx.find("trial-point", node, f"the reported {p} may stem from the last trial point of this minimisation instead of the point it returned", run=r)
    # a minimisation whose result is dropped although its objective leaves nothing behind is dead work, not a defect
