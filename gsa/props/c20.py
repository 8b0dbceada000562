"""C20: respondents are exchangeable and each of them counts once."""
from .. import entries as E
from .. import pointwise as pw
from .. import terms as tm
from ..values import *   # noqa
from . import common as cm

ASSUMPTIONS = ["sums, counts and extreme values do not depend on the order of their elements, apart from rounding",
               "library routines act element by element, along the axis they are given, or on the whole array, as documented",
               "the distinct columns returned by numpy.unique, their counts and their inverse belong together"]

SYMRED = {"sum", "nansum", "mean", "nanmean", "average", "min", "max", "nanmin", "nanmax", "amin", "amax", "any", "all", "prod", "nanprod", "std", "var", "nanstd", "nanvar",
          "ptp", "median", "nanmedian", "count_nonzero", "percentile", "quantile", "logsumexp", "len", "size", "trapz"}
WEIGHED = {"sum", "nansum", "mean", "nanmean", "average", "prod", "nanprod", "std", "var", "median", "count_nonzero", "logsumexp"}
SYM = {"unique", "ucount", "ulen", "uinv", "udim", "dim", "len", "sizeof", "shapeof", "seldim", "bincount", "hist2d", "histogram", "corrcoef", "cov", "sorted", "sort", "count", "contains", "set",
       "dot", "einsum", "lin", "popcount", "kendall", "dtype"}
POSITION = {"ix": "picks respondents by position", "cum": "accumulates along the order of the respondents", "diff": "compares neighbouring respondents",
            "carried": "keeps a value from one respondent to the next", "argmax": "uses the position of a respondent", "argmin": "uses the position of a respondent",
            "argsort": "uses the positions of respondents", "uidx": "uses the position of the first respondent with a pattern", "nonzero": "uses the positions of respondents", "rev": "turns the order of the respondents",
            "roll": "shifts the respondents", "rs": "cuts the respondents into rows", "resized": "repeats respondents by position", "partial": "leaves out respondents by position", "prev": "keeps a value from one respondent to the next"}
CHAIN = {"cast", "copy", "asarray", "float", "int", "new", "round", "abs", "neg", "not", "sqrt", "square", "exp", "log", "expit", "log1p", "inv", "trunc", "floor", "array", "pack"}
FREE = {"girth.standard_errors_bootstrap"}


def check(ctx):
    for n, ent in E.ENTRIES.items():
        if n in FREE or ent.tags and ("synth" in ent.tags or "fa" in ent.tags):
            continue
        for sc in cm.scenarios(n, ctx.tier) if ctx.tier != "quick" else thin(cm.scenarios(n, ctx.tier)):
            r = ctx.run(n, dict(sc, mix="order"))
            if not any(placed(r.I, v) for v in r.args.values()):
                break
            cm.must_return(ctx, r)
            judge(ctx, n, r)
    ctx.need("results examined", 60)
    ctx.need("operations across respondents", 40)
    return ("Every value carries the respondents it belongs to (the axis along which it is aligned with them, or the position of one). Each operation that brings respondents together is classified by "
            "what it computes: sums, counts, extreme values, distinct patterns, histograms, products with the respondents summed out and selections by a condition on the respondent's own data are "
            "independent of the order; picking by position, running totals, differences of neighbours, shifts and values kept from one pass of a loop over respondents to the next are not, and may "
            "not flow into a result. A sum over distinct response patterns must have their counts as a factor.")


def thin(scs):
    """one scenario per setting that changes the path of the data: quick tier"""
    return scs if len(scs) < 5 else [scs[0], scs[-1]]


def placed(I, v):
    try:
        return I.facts(v).pl is not None
    except Exception:
        return False


def judge(ctx, n, r):
    I = r.I
    labs = {}
    for p, sh, f, v in cm.retfacts(r):
        ctx.count("results examined")
        for lab in f.deps:
            if lab.startswith("mix:"):
                labs.setdefault(lab, p)
    for lab, p in sorted(labs.items()):
        node, c, op = I.mix[lab]
        ctx.count("operations across respondents")
        for t in I.order.get(lab, []):
            why = kind(t)
            if why is None:
                ctx.notes.append(f"{n}: operation {op} at {I.proj.where(node)} was not classified ({head(t)})")
            elif why != "sym":
                ctx.find("order", node, f"the result {p or 'of'} {n if not p else ''} depends on the order of the respondents: {op} {why}".replace("  ", " "), ctx=c, run=r, key=op)
    for k in ("cast", "store"):
        for e in I.evs(k):
            if narrow(e.cdt):
                f = e.f if k == "cast" else e.vf
                if headcount(f.term, I) and not f.itv[1] <= 127:
                    ctx.find("counts", e.node, f"{n}: a number of respondents is kept in a type that cannot hold large ones", ctx=e.ctx, run=r, fn=n, key="narrow")
    for e in I.evs("reduce"):
        if e.dims and any(d in I.pdims or d.op == "seldim" and d.args[0] in I.pdims for d in e.dims):
            ctx.count("sums over respondents")
            if unpaired(e.term):
                ctx.find("order", e.node, f"{n}: {e.op} over respondents pairs sorted values with values in the order of the respondents", ctx=e.ctx, run=r, fn=n, key="sorted")
        if not e.dims or not any(tm.contains(d, lambda u: u.op == "udim") for d in e.dims) or str(e.op).split(".")[-1] not in WEIGHED | {"dot", "einsum"}:
            continue
        ctx.count("sums over distinct response patterns")
        if not weighed(e.term) and not weighed(e.out):
            what = "likelihood" if tried(e.term) else "abilities"
            ctx.find("counts", e.node, f"{n}: {e.op} over the distinct response patterns without counting how many respondents gave each ({what})", ctx=e.ctx, run=r, fn=n, key=what)


def narrow(to):
    return isinstance(to, str) and (to.startswith("inh:#") or to == "b")


def headcount(t, I):
    return counts(t) or t.op == "red" and name(t) == "count_nonzero" or t.op == "bincount" or t.op == "red" and name(t) in ("sum", "nansum") and isinstance(t.args[-1], tm.T) \
        and t.args[-1].op in ("eq", "ne", "lt", "le", "and", "or", "not")


def tried(t):
    """part of an objective: depends on the point a minimiser is trying"""
    todo, seen = [t], set()
    while todo:
        u = todo.pop()
        if u.id in seen or u.op == "optres":
            continue
        seen.add(u.id)
        if u.op == "sym" and u.args[0] == "optvar":
            return True
        todo += [a for a in u.args if isinstance(a, tm.T)]
    return False


EACH = {"add", "mul", "div", "pow", "sub", "log", "exp", "log1p", "abs", "neg", "square", "sqrt", "eq", "ne", "lt", "le", "and", "or", "not", "where", "ite", "cast", "ix", "take", "min2", "max2", "expit",
        "T", "transpose", "copy", "new", "fn", "join", "st"}


def unpaired(t):
    """a value made of sorted answers and, beside them, of answers in the order they came"""
    todo, seen, srt, raw = [t], set(), False, False
    while todo:
        u = todo.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        if u.op in ("sort", "sorted"):
            srt = True
        elif u.op == "sym":
            raw = raw or u.args[0] == "in"
        elif u.op in EACH:
            todo += [a for a in (u.args[:1] if u.op == "ix" else u.args) if isinstance(a, tm.T)]
    return srt and raw


def head(t, d=2):
    if not isinstance(t, tm.T):
        return str(t)[:20]
    return t.op + ("(" + ",".join(head(a, d - 1) for a in t.args[:3]) + ")" if d and t.args else "")


def name(t):
    a = t.args[0] if t.args else None
    a = a.args[0] if isinstance(a, tm.T) and a.op == "const" else a
    return str(a).split(".")[-1]


def kind(t):
    """'sym': the order of the respondents does not matter; a reason why it does; None: not known"""
    for _ in range(40):
        if t.op in CHAIN and t.args and isinstance(t.args[0], tm.T):
            t = t.args[0]
        elif t.op in ("div", "mul", "add", "sub", "pow") or t.op == "join":
            ks = [kind(a) for a in t.args if isinstance(a, tm.T) and not tm.is_const(a) and across(a)]
            bad = [k for k in ks if k not in ("sym", None)]
            return bad[0] if bad else None if None in ks or not ks else "sym"
        else:
            break
    if t.op == "red":
        return "sym" if name(t) in SYMRED else POSITION.get(name(t)) or (POSITION["cum"] if name(t).startswith("cum") else None)
    if t.op in SYM:
        return "sym"
    if t.op == "take":
        return gather(t)
    if t.op == "sym":
        if t.args[0] == "dim":
            return "sym"
        return None
    if t.op == "ix":
        return POSITION["ix"] if any(positional(a) for a in t.args[1:]) else None
    return POSITION.get(t.op)


def across(t):
    return tm.contains(t, lambda u: u.op in ("red", "dot", "einsum", "cum", "ix", "take", "unique", "diff", "carried", "sym") and (u.op != "sym" or u.args[0] in ("in", "dim")))


def positional(a):
    """a position or a slice that is fixed by number, not by what respondents answered"""
    if isinstance(a, str) or a in (None, True, False):
        return False
    if isinstance(a, tm.T):
        if a.op == "const":
            return isinstance(a.args[0], (int, float)) and not isinstance(a.args[0], bool)
        if a.op in ("slice", "rng"):
            return True
        return not answers(a)
    return False


def answers(a):
    """mentions what respondents answered or where a loop is; how many respondents there are says nothing of them"""
    todo, seen = [a], set()
    while todo:
        u = todo.pop()
        if u.id in seen or u.op in ("seldim", "udim", "ulen", "len"):
            continue
        seen.add(u.id)
        if u.op == "sym" and u.args[0] in ("in", "it"):
            return True
        todo += [x for x in u.args if isinstance(x, tm.T)]
    return False


def gather(t):
    ks = [a for a in t.args[1:] if isinstance(a, tm.T) and not (a.op == "const" and isinstance(a.args[0], (str, bool)))]
    out = "sym"
    for k in ks:
        if k.op in ("eq", "ne", "lt", "le", "not", "and", "or", "isnan", "isfinite", "ge", "gt", "uinv", "isin"):
            continue
        if k.op == "arange0" or k.op in ("delete", "arange", "slice", "linspace") or tm.is_const(k):
            return POSITION["ix"]
        if k.op in POSITION and k.op != "nonzero":
            return POSITION[k.op]
        out = None
    return out


# ---------------------------------------------------------------- patterns and their counts
def counts(t):
    while t.op in ("take", "ix", "cast", "copy", "asarray", "new", "float", "div", "rs") and t.args and isinstance(t.args[0], tm.T):
        t = t.args[0]
    return t.op == "ucount" or t.op == "bincount" and isinstance(t.args[0], tm.T) and tm.contains(t.args[0], lambda u: u.op == "uinv")


def weighed(t):
    """a product with the counts as a factor (or a sum of such products)"""
    if t.op in ("add", "sub", "join"):
        return all(weighed(a) for a in t.args if isinstance(a, tm.T) and not tm.is_const(a))
    if t.op in ("mul", "div"):
        return any(weighed(a) for a in t.args if isinstance(a, tm.T))
    if t.op in ("cast", "copy", "asarray", "new", "ix", "neg", "transpose", "T") and t.args and isinstance(t.args[0], tm.T) and not counts(t):
        return weighed(t.args[0])
    return counts(t)
