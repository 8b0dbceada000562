"""C06: a response tagged as missing carries no information."""
from .. import entries as E
from .. import terms as tm
from ..terms import SENT, has_sent
from ..values import *   # noqa
from . import common as cm
from .c05 import flat

ASSUMPTIONS = ["library routines with a where= mask, masked arrays and nan-aware routines leave out the masked elements, as documented",
               "a minimiser given objectives that differ by an additive constant returns the same point"]

# functions whose result has one cell per response: what a missing cell must hold
CELLS = {"girth.convert_responses_to_kernel_sign": {"": 0}, "girth.trim_response_set_and_counts": {"[0]": SENT, "[1]": None},
         "girth.common.reverse_score": {"": SENT}, "girth.condition_polytomous_response": {"[0]": SENT, "[2]": False}}
# conditional maximum likelihood rejects tagged data (the response sum is used as an index and raises IndexError): not a method that supports it
UNSUPPORTED = {"girth.rasch_conditional"}


def subjects():
    for n, e in E.ENTRIES.items():
        if n in UNSUPPORTED:
            continue
        if e.tags & {"est", "score", "missing", "guess", "boot"} or n == "girth.condition_polytomous_response":
            yield n


def check(ctx):
    for n in subjects():
        for sc in cm.scenarios(n, ctx.tier):
            r = ctx.run(n, dict(sc, missing=True))
            cm.must_return(ctx, r)
            judge(ctx, n, r)
    tagging(ctx)
    ctx.need("results examined", 10)
    return ("For every cell of the responses the analysis carries, next to its ordinary value, the value it takes when that response is tagged as missing. Selections, masks, fills, reductions, "
            "look-ups and comparisons act on both. A reduction that meets a missing cell must leave it out (mask) or meet its neutral element; otherwise a mark is set that flows on: placeholder used, "
            "missing responses counted, constant term, constant factor. No mark but a constant term or factor of a likelihood may reach a result, or the condition of an error; results with one cell "
            "per response must hold the declared value in missing cells; and tag_missing_data must replace exactly the cells outside the declared responses.")


def judge(ctx, n, r):
    I = r.I
    want = CELLS.get(n, {})
    for p, sh, f, v in cm.retfacts(r):
        ctx.count("results examined")
        ctx.count("operations followed", len(I.events))
        for l in sorted((l for l in f.bad), key=str):
            blame(ctx, n, r, l, f"{n}{name(p)}", p)
        for s, (t, ti) in f.miss.items():
            ctx.count("missing cells followed to a result")
            if p in want and want[p] is not None:
                w = want[p]
                ok = t is SENT if w is SENT else t.op == "const" and t.args[0] == w
                if not ok:
                    ctx.find("cells", cm.retnode(r), f"a missing response leaves {n} as {tm.show(t)[:80]} where {'its tag' if w is SENT else w} is expected", run=r, key=n + p)
            elif has_sent(t):
                ctx.find("placeholder", cm.retnode(r), f"the placeholder of a missing response reaches {n}{name(p)}", run=r, key=n + p)
        for q, w in want.items():
            if q == p and w is not None and not f.miss:
                ctx.find("cells", cm.retnode(r), f"{n}{name(p)} does not mark missing responses", run=r, key=n + p)
    for e in I.evs("sentindex"):
        ctx.find("index", e.node, f"{n} uses the placeholder of a missing response as an index", ctx=e.ctx, run=r, key=n, fn=n)
    for e in I.events.values():
        if e.kind == "raise" and e.d.get("ctrlf"):
            ctx.count("conditions of errors examined")
            for f in flat(e.d["ctrlf"]):
                for l in sorted(I.cbad(f), key=str):
                    if l[0] in ("sent", "contrib"):
                        ctx.find("error", e.node, f"{n} fails when a response is missing: {l[1]}", ctx=e.ctx, run=r, key=n, fn=n)


def name(p):
    return f"{p}" if p else " (result)"


def blame(ctx, n, r, l, what, p):
    if l[0] == "sent":
        ctx.find("placeholder", cm.retnode(r), f"{what} depends on the placeholder of missing responses: {l[1]}", run=r, key=site(l[1]), fn=n)
    elif l[0] == "contrib":
        ctx.find("counted", cm.retnode(r), f"{what} depends on how many responses are missing: {l[1]}", run=r, key=site(l[1]), fn=n)
    elif l[0] == "frac":
        ctx.find("counted", cm.retnode(r), f"{what} measures a sum over the responses present against a number that includes the missing ones: {l[1]}", run=r, key=site(l[1]), fn=n)
    elif l[0] in ("offset", "scale"):
        if p.startswith(("['AIC']", "['BIC']")):
            ctx.count("constant factors of likelihoods")
        else:
            ctx.find("counted", cm.retnode(r), f"{what} contains a constant for every missing response: {l[1]}", run=r, key=site(l[1]), fn=n)


def site(msg):
    """'file:line (function): what' without the line"""
    a, _, b = msg.partition(":")
    c, _, d = b.partition(" ")
    return a + " " + d


def tagscenarios():
    return [{}, {"dt": "f"}]


def member(t, D, V):
    """True/False when t says that a cell is / is not one of the declared responses"""
    if t.op == "not":
        x = member(t.args[0], D, V)
        return None if x is None else not x
    if t.op == "isin" and t.args[0] is D and t.args[1] is V:
        return True
    return None


def tagging(ctx):
    n = "girth.tag_missing_data"
    for sc in tagscenarios():
        tagged(ctx, n, ctx.run(n, sc))


def tagged(ctx, n, r):
    cm.must_return(ctx, r)
    D, V = tm.sym("in", "dataset"), tm.sym("in", "valid_responses")
    for p, sh, f, v in cm.retfacts(r):
        ctx.count("tagging results")
        t = f.term
        if sh is None or len(sh) != 2 or not all(tm.same(a, b) for a, b in zip(sh, (E.ITEMS, E.PEOPLE))):
            ctx.find("tagging", cm.retnode(r), "the tagged data does not have the shape of the data", run=r, key="shape")
            continue
        conds = [u for u in tm.subterms(t).values() if u.op in ("isin", "phi") or u.op == "sym" and u.args and u.args[0] == "phi"]
        if conds and not any(u.op == "isin" for u in conds):
            ctx.count("tagging decided by a loop (not judged)")
            continue
        m = tm.mk("isin", D, V)
        yes, no = tm.replace(t, {m: tm.TRUE}), tm.replace(t, {m: tm.FALSE})
        if yes is not D:
            ctx.find("tagging", cm.retnode(r), f"a declared response is changed by tagging: {tm.show(yes)[:120]}", run=r, key="valid")
        if no is not SENT:
            ctx.find("tagging", cm.retnode(r), f"an undeclared response is not tagged as missing: {tm.show(no)[:120]}", run=r, key="invalid")
