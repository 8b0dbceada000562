"""C16: synthetic responses."""
import ast
from .. import entries as E
from .. import terms as tm
from ..terms import mk, const, sym
from ..values import *   # noqa
from . import common as cm
from .c09 import isslice, iscolon

ASSUMPTIONS = ["a generator's uniform draws lie in [0, 1) and are independent",
               "category probabilities add up to one, apart from rounding"]
DI, PO = "girth.synthetic.create_synthetic_irt_dichotomous", "girth.synthetic.create_synthetic_irt_polytomous"
NI, NP, LV = E.NI, E.NP, sym("dim", "difficulty", 1)
DIFF, DISC, TH, GU = sym("in", "difficulty"), (sym("in", "discrimination"), sym("arg", "discrimination")), sym("in", "thetas"), (sym("in", "guessing"), sym("arg", "guessing"))
A, B, T, G = sym("c16", "a"), lambda k: sym("c16", "b") if k is None else mk("ix", sym("c16", "b"), k), sym("c16", "theta"), sym("c16", "g")


def check(ctx):
    for sc in ({}, {"discr": "scalar"}, {"md": True}):
        r = ctx.run(DI, sc)
        cm.must_return(ctx, r)
        dichotomous(ctx, r, sc)
    rets = {}
    for m in ("grm", "pcm", "gum", "grm_md", "GRM", "Pcm", "GUM", "Grm_MD"):
        for sc in ({"model": m}, {"model": m, "discr": "scalar"}):
            if "discr" in sc and m.lower() == "grm_md":
                continue
            r = ctx.run(PO, sc)
            if r.I.heap is None:
                ctx.count("model names")
                ctx.find("model", cm.fnnode(r), f"the model name {m!r} is refused", run=r, key=m)
                continue
            sh, f = r.I.rd(r.ret)
            ctx.count("model names")
            if "discr" not in sc:
                low = m.lower()
                if m == low:
                    if any(core(f.term) is core(t) for t in rets.values()):
                        ctx.find("model", cm.retnode(r), f"model {m!r} draws from the same probabilities as another model", run=r, key=m)
                    rets[m] = f.term
                elif low in rets and rets[low] is not f.term:
                    ctx.find("model", cm.retnode(r), f"model name {m!r} gives other responses than {low!r}", run=r, key=m)
            if m == m.lower():
                polytomous(ctx, r, m)
    ctx.need("responses", 4)
    return ("Both generators are interpreted for every model (names in lower, upper and mixed case), with discrimination per item, common to all items, or with several dimensions. From the returned term: the storage type, the layout, symbolic lower and upper bounds of the category "
            "(0 and 1; 1 and the declared number of categories), the comparison of every response with a standard uniform draw of its own (drawn in the loop over items, or as a matrix of the layout of the result), and, where the probability is written in a recognised form, that it is the named model's.")


# bounds ---------------------------------------------------------------
def bounds(I, t, depth=0):
    """symbolic bounds (list of lower terms, list of upper terms) that hold for t"""
    if depth > 12:
        return [], []
    n = tm.num_const(t)
    if n is not None:
        return [t], [t]
    d = depth + 1
    if t.op in ("min2", "max2") and len(t.args) == 2:
        (l1, u1), (l2, u2) = bounds(I, t.args[0], d), bounds(I, t.args[1], d)
        l1, u1 = l1 or [], u1 or []
        if t.op == "min2":
            return meet(l1, l2, 1), u1 + u2 + list(t.args)
        return l1 + l2 + list(t.args), meet(u1, u2, -1)
    if t.op == "add":
        ls, us = [const(0)], [const(0)]
        for a in t.args:
            l, u = bounds(I, a, d)
            ls = [mk("add", x, y) for x in ls for y in l]
            us = [mk("add", x, y) for x in us for y in u]
        return ls, us
    if t.op in ("cast", "astype", "copy", "asarray", "ala") or t.op == "ix":
        return bounds(I, t.args[0], d)
    if t.op == "st":
        l1, u1 = bounds(I, t.args[0], d)
        l2, u2 = bounds(I, t.args[-1], d)
        if t.args[0].op == "sym" and t.args[0].args[:1] == ("phi",):
            return l2, u2
        return meet(l1, l2, 1), meet(u1, u2, -1)
    if t.op == "join":
        ls, us = None, None
        for a in t.args:
            l, u = bounds(I, a, d)
            ls = l if ls is None else meet(ls, l, 1)
            us = u if us is None else meet(us, u, -1)
        return ls or [], us or []
    if t.op == "where" and len(t.args) == 3:
        (l1, u1), (l2, u2) = bounds(I, t.args[1], d), bounds(I, t.args[2], d)
        return meet(l1, l2, 1), meet(u1, u2, -1)
    if t.op in ("eq", "ne", "lt", "le", "gt", "ge", "and", "or", "not", "any", "all", "isnan"):
        return [const(0)], [const(1)]
    if t.op == "searchsorted":
        return [const(0)], []
    if t.op == "red" and str(t.args[0]) in ("sum", "count_nonzero"):
        for e in I.evs("reduce"):
            if e.d.get("out") is t or e.d.get("term") is t.args[-1]:
                dims = e.d.get("dims")
                if dims is not None and all(isinstance(x, tm.T) for x in dims):
                    n = const(1)
                    for x in dims:
                        n = mk("mul", n, x)
                    return [const(0)], [n]
        return [const(0)], []
    if t.op == "sym" and t.args[:1] == ("phi",):
        for e in I.evs("loop") + I.evs("drain"):
            if e.d.get("lid") == t.args[1]:
                c = (e.d.get("end") or {}).get(t.args[2])
                if isinstance(c, ArrC) and c.f.term is not t:
                    return bounds(I, c.f.term, d + 3)
    return [], []


def meet(a, b, s):
    """bounds valid for either of two values: those implied by both"""
    out = []
    for x in a:
        if any(diff(x, y, s) for y in b):
            out.append(x)
    for y in b:
        if any(diff(y, x, s) for x in a):
            out.append(y)
    return out


def diff(x, y, s):
    """x <= y (s = 1) or x >= y (s = -1) for all sizes"""
    d = mk("add", mk("mul", const(s), y), mk("mul", const(-s), x))
    v = tm.num_const(d)
    if v is not None:
        return v >= 0
    p = tm.poly(d)
    # linear in dimensions that are at least two
    lo = 0
    for m, c in p.items():
        if m == ():
            lo += c
        elif len(m) == 1 and m[0][1] == 1 and c >= 0:
            lo += 2 * c
        else:
            return False
    return lo >= 0


def within(I, f, lo, hi, sh=None):
    ls, us = bounds(I, f.term)
    a = f.itv[0] >= tm.num_const(lo) or any(diff(lo, x, 1) for x in ls)
    h = tm.num_const(hi)
    b = h is not None and f.itv[1] <= h or any(diff(x, hi, 1) for x in us) or any(tm.same(x, hi) for x in us)
    return a, b


# draws ----------------------------------------------------------------
def draws_of(t):
    return [u for u in tm.subterms(t).values() if u.op == "draw"]


def ancestors(I, e):
    """source nodes being executed when the event happened: the node and the calls leading to it"""
    out = [e.node]
    c = e.ctx
    while c:
        c, site = I.ctxinfo[c]
        out.append(I.proj.nodes.get(site) if isinstance(site, int) else None)
    return [n for n in out if isinstance(n, ast.AST)]


def inloop(I, e, loop):
    inner = {id(n) for n in ast.walk(loop.d.get("owner") or loop.node)}
    return any(id(n) in inner for n in ancestors(I, e))


def dims_of(e):
    """dimensions of a draw: terms, or None"""
    v = e.d.get("kw", {}).get("size")
    if v is None:
        v = (e.d.get("args") or [None] * 4)[-1] if e.d.get("args") and e.method in ("random", "standard_normal") else (e.args[2] if len(e.d.get("args") or []) > 2 else None)
    if v is None:
        return ()
    if isinstance(v, Tup):
        return tuple(x.f.term for x in v.items if isinstance(x, Sc))
    if isinstance(v, Sc):
        return (v.f.term,)
    return None


def uniform(ctx, r, t, node, rowvar):
    """every response of the term is compared with a standard uniform draw of its own"""
    I = r.I
    ds = draws_of(t)
    if not ds:
        ctx.find("uniform", node, "the responses are not compared with a random draw", run=r, key="none")
        return
    evs = {id(e.d.get("res")): e for e in I.evs("draw") if e.d.get("res") is not None}
    for d in ds:
        es = [e for e in I.evs("draw") if e.d.get("res") is d]
        for e in es:
            ctx.count("uniform draws")
            if e.method not in ("uniform", "random", "random_sample", "rand", "sample"):
                ctx.find("uniform", e.node, f"the responses are compared with a {e.method} draw, not with a uniform one", ctx=e.ctx, run=r)
                continue
            if e.method == "uniform":
                a = list(e.d.get("args") or [])
                lo = a[0] if a else e.kw.get("low")
                hi = a[1] if len(a) > 1 else e.kw.get("high")
                for v, want in ((lo, 0), (hi, 1)):
                    if v is not None and (not isinstance(v, Sc) or tm.num_const(v.f.term) != want):
                        ctx.find("uniform", e.node, "the uniform draw is not from 0 to 1", ctx=e.ctx, run=r)
            dm = dims_of(e)
            if dm is None:
                continue
            dm = [x for x in dm if tm.num_const(x) != 1]
            people = any(tm.same(x, NP) for x in dm)
            items = any(tm.same(x, NI) for x in dm)
            known = all(tm.same(x, NP) or tm.same(x, NI) or tm.num_const(x) is not None for x in dm)
            loops = [l for l in I.evs("loop") + I.evs("drain") if l.d.get("form") != "unrolled" and inloop(I, e, l)]
            over_items = any(rowloop(l, NI) for l in loops)
            over_people = any(rowloop(l, NP) for l in loops)
            if not known:
                continue
            if not (people or over_people):
                ctx.find("uniform", e.node, "one uniform draw is shared by several respondents", ctx=e.ctx, run=r)
            if not (items or over_items):
                ctx.find("uniform", e.node, "one set of uniform draws is shared by all items", ctx=e.ctx, run=r)


def rowloop(l, n):
    k = l.d.get("n")
    return isinstance(k, tm.T) and tm.same(k, n)


# dichotomous ----------------------------------------------------------
def dichotomous(ctx, r, sc):
    I = r.I
    node = cm.retnode(r)
    sh, f = I.rd(r.ret)
    ctx.count("responses")
    if f.dt not in ("i", "n") and not f.dt.startswith(("inh:#int", "inh:#uint")):
        ctx.find("type", node, f"the responses are not stored as integers ({f.dt})", run=r, key="type")
    a, b = within(I, f, const(0), const(1))
    if not (a and b):
        ctx.find("range", node, "the responses are not shown to be zeros and ones", run=r, key="range")
    if sh is not None and (len(sh) != 2 or not (tm.same(sh[0], NI) and tm.same(sh[1], NP))):
        ctx.find("layout", node, "the result does not have one row per item and one column per ability: " + ", ".join(tm.show(d) for d in sh), run=r, key="layout")
    uniform(ctx, r, f.term, node, None)
    cmp_ = strip(f.term)
    p = None
    if cmp_.op in ("lt", "le", "gt", "ge") and len(cmp_.args) == 2:
        x, y = cmp_.args
        if cmp_.op in ("gt", "ge"):
            x, y = y, x
        if isdraw(x):
            p = y
        elif isdraw(y):
            ctx.find("model", node, "a response is one when the draw exceeds the probability", run=r, key="direction")
    elif cmp_.op == "where" and len(cmp_.args) == 3:
        one, zero = tm.num_const(cmp_.args[1]), tm.num_const(cmp_.args[2])
        c = cmp_.args[0]
        if c.op in ("lt", "le", "gt", "ge") and {one, zero} == {0, 1}:
            x, y = c.args
            if c.op in ("gt", "ge"):
                x, y = y, x
            if one == 0:
                x, y = y, x
            if isdraw(x):
                p = y
            elif isdraw(y):
                ctx.find("model", node, "a response is one when the draw exceeds the probability", run=r, key="direction")
    if p is None:
        ctx.notes.append("comparison of the responses not recognised: " + tm.show(cmp_)[:60])
        return
    if isdraw(p):
        return
    c = canon(p)
    es = [u for u in tm.subterms(c).values() if u.op == "expit"]
    outer = [u for u in es if not any(u is not v and tm.contains(v, lambda q: q is u) for v in es)]
    if len(outer) != 1:
        ctx.notes.append("probability of a correct response not recognised: " + tm.show(c)[:80])
        return
    ctx.count("probability formulas")
    e = outer[0]
    X = sym("c16", "E")
    q = tm.replace(c, {e: X})
    want = mk("add", G, mk("mul", X, mk("add", const(1), mk("mul", const(-1), G))))
    arg = e.args[0]
    alts = arg.args if arg.op == "join" else (arg,)
    uni = mk("mul", A, mk("add", T, mk("mul", const(-1), B(None))))
    md = mk("add", mk("dot", A, T), B(None))
    known = lambda t: not [u for u in tm.subterms(t).values() if u.op == "sym" and u not in (A, T, G, X, B(None))] and not any(u.op in ("join", "st", "take") for u in tm.subterms(t).values())
    neg = mk("add", const(1), mk("mul", const(-1), X))
    mirror = all(tm.same(x, mk("mul", const(-1), uni)) or tm.same(x, mk("mul", const(-1), md)) for x in alts)
    w = tm.replace(want, {X: neg}) if mirror else want
    if known(q) and not tm.same(q, w):
        ctx.find("model", node, "the probability is not guessing + (1 - guessing) * logistic: " + tm.show(q)[:100], run=r, key="guess")
    if mirror:
        return
    if sc.get("md"):
        ok = any(tm.same(x, md) for x in alts) or not all(known(x) for x in alts)
    else:
        ok = len(alts) == 1 and (tm.same(arg, uni) or not known(arg))
    if not ok:
        ctx.find("model", node, "the logistic is not of " + ("discrimination @ theta + intercept" if sc.get("md") else "discrimination * (theta - difficulty)") + ": " + tm.show(arg)[:120], run=r, key="logit")


def strip(t):
    while t.op in ("cast", "astype", "copy", "asarray", "int"):
        t = t.args[0]
    return t


def isdraw(t):
    t = strip(t)
    while t.op in ("ix", "reshape", "T"):
        t = t.args[0]
    return t.op == "draw"


def canon(t, memo=None):
    """parameters by name, whatever axes were added; logistic functions in one form"""
    memo = {} if memo is None else memo
    r = memo.get(t.id)
    if r is not None:
        return r
    if t is DIFF:
        r = B(None)
    elif t in DISC:
        r = A
    elif t in GU:
        r = G
    elif t is TH:
        r = T
    elif t.op == "ix":
        b = canon(t.args[0], memo)
        ks = [a for a in t.args[1:] if not iscolon(a) and not (isinstance(a, tm.T) and a.op == "const" and a.args[0] == "new") and a != "new"]
        if not ks:
            r = b
        elif b in (A, G) and all(isinstance(k, tm.T) and k.op == "sym" and k.args[:1] == ("it",) for k in ks):
            r = b
        elif b is B(None) and isinstance(ks[0], tm.T) and ks[0].op == "sym" and ks[0].args[:1] == ("it",) and len(t.args) >= 2 and t.args[0] is DIFF:
            r = b if len(ks) == 1 else mk("ix", b, *ks[1:])
        elif b is B(None):
            r = mk("ix", b, *ks)
        elif b.op in ("mul", "add") and len(ks) == 1:
            # index of an elementwise combination of the thresholds with numbers
            r = mk(b.op, *[push(a, ks[0]) for a in b.args])
        else:
            r = mk("ix", b, *ks)
    elif t.op == "join" and t.args:
        xs = []
        for a in t.args:
            c = canon(a, memo)
            if not any(c is x for x in xs):
                xs.append(c)
        r = xs[0] if len(xs) == 1 else mk("join", *xs)
    elif t.op == "expit":
        r = mk("expit", canon(t.args[0], memo))
    elif t.op in ("cast", "astype", "copy", "asarray") and t.args:
        r = canon(t.args[0], memo)
    elif t.args:
        r = mk(t.op, *[canon(a, memo) if isinstance(a, tm.T) else a for a in t.args])
        r = logistic(r)
    else:
        r = t
    memo[t.id] = r
    return r


def push(a, k):
    if a is B(None):
        return mk("ix", a, k)
    if a.op in ("mul", "add"):
        return mk(a.op, *[push(x, k) for x in a.args])
    return a


def logistic(t):
    """1 / (1 + exp(-x)) and exp(x) / (1 + exp(x))"""
    if t.op != "div" or len(t.args) != 2:
        return t
    n, d = t.args
    ex = [u for u in (d.args if d.op == "add" else ()) if isinstance(u, tm.T) and u.op == "exp"]
    if len(ex) == 1 and tm.same(d, mk("add", const(1), ex[0])):
        if tm.num_const(n) == 1:
            return mk("expit", mk("mul", const(-1), ex[0].args[0]))
        if n is ex[0]:
            return mk("expit", ex[0].args[0])
    return t


# polytomous -----------------------------------------------------------
def polytomous(ctx, r, model):
    I = r.I
    node = cm.retnode(r)
    sh, f = I.rd(r.ret)
    ctx.count("responses")
    if f.dt not in ("i", "n") and not f.dt.startswith(("inh:#int", "inh:#uint")):
        ctx.find("type", node, f"the responses are not stored as integers ({f.dt})", run=r, key="type")
    if sh is not None and (len(sh) != 2 or not (tm.same(sh[0], NI) and tm.same(sh[1], NP))):
        ctx.find("layout", node, "the result does not have one row per item and one column per ability: " + ", ".join(tm.show(d) for d in sh), run=r, key="layout")
    K = mk("add", LV, const(1))
    want = [mk("floordiv", K, const(2)), mk("add", mk("floordiv", mk("add", LV, const(-1)), const(2)), const(1)), mk("div", K, const(2))] if model == "gum" else [K]
    hits = [within(I, f, const(1), w) for w in want]
    if not any(a for a, b in hits):
        ctx.find("range", node, "the lowest category is not one", run=r, key="low")
    if not any(b for a, b in hits):
        ctx.find("range", node, f"the responses of model {model} are not shown to be at most the declared number of categories", run=r, key="high " + model)
    else:
        w = [w for (a, b), w in zip(hits, want) if b]
        # a tighter bound would hide the last category
        ls, us = bounds(I, f.term)
        for u in us:
            if not tm.num_const(u) is None or all(diff(mk("add", u, const(1)), x, 1) for x in w):
                ctx.find("range", node, f"the responses of model {model} are cut below the declared number of categories: {tm.show(u)[:60]}", run=r, key="cut " + model)
        for l in ls:
            if tm.num_const(l) is not None and tm.num_const(l) > 1:
                ctx.find("range", node, "the lowest category is not one", run=r, key="low")
    uniform(ctx, r, f.term, node, None)
    category(ctx, r, f.term, node)
    if model == "grm_md" and not tm.contains(f.term, lambda u: u.op in ("dot", "einsum", "matmul", "call") or u.op == "red" and tm.contains(u, lambda q: q is TH)):
        ctx.find("model", node, "the multidimensional model does not combine the dimensions of ability", run=r, key="dot")
    if model in ("grm", "grm_md"):
        graded(ctx, r, model)
    else:
        credit(ctx, r, model, f.term)


def core(t):
    """the value below clipping"""
    while True:
        if t.op in ("min2", "max2") and len(t.args) == 2:
            xs = [a for a in t.args if tm.contains(a, lambda u: u.op == "draw")]
            if len(xs) != 1:
                return t
            t = xs[0]
        elif t.op in ("cast", "astype", "copy", "asarray"):
            t = t.args[0]
        else:
            return t


def offset(t, depth=0):
    """what is added to the number of cumulative probabilities below the draw"""
    if depth > 12:
        return None
    t = core(t)
    if t.op in ("searchsorted", "red"):
        return 0
    if t.op in ("ala", "ix") and isinstance(t.args[0], tm.T):
        return offset(t.args[0], depth + 1)
    if t.op == "st":
        return offset(t.args[-1], depth + 1)
    if t.op == "join":
        xs = {offset(a, depth + 1) for a in t.args if tm.contains(a, lambda u: u.op == "draw")}
        return xs.pop() if len(xs) == 1 else None
    if t.op == "add":
        xs = [a for a in t.args if tm.contains(a, lambda u: u.op == "draw")]
        cs = [tm.num_const(a) for a in t.args if not any(a is x for x in xs)]
        if len(xs) == 1 and None not in cs:
            o = offset(xs[0], depth + 1)
            return None if o is None else o + sum(cs)
    return None


def category(ctx, r, t, node):
    """the category is one plus the number of cumulative probabilities below the draw"""
    I = r.I
    o = offset(t)
    if o is not None:
        ctx.count("category rules")
        if o != 1:
            ctx.find("category", node, f"the category is the number of cumulative probabilities below the draw plus {o}, not plus one", run=r, key="offset")
    if tm.contains(t, lambda u: u.op == "searchsorted") and not tm.contains(t, lambda u: u.op in ("cumsum", "call", "dot") or u.op == "sym" and u.args[:1] in (("optvar",),)) and not accumulated(t):
        ctx.find("category", node, "the draw is not placed among cumulative probabilities", run=r, key="cumsum")
    for u in tm.subterms(t).values():
        if u.op == "cumsum" and tm.contains(u, lambda q: q.op == "draw") and not (u.args[0].op == "ix" and any(slicestart(a) for a in u.args[0].args[1:])):
            ctx.find("category", node, "the draw itself is accumulated with the probabilities", run=r, key="accumulate")
    for u in tm.subterms(t).values():
        if u.op == "cumsum" and len(u.args) > 1 and tm.show(u.args[1]).strip("'") in ("(0,)", "(-2,)"):
            have, used = stored_rows(u.args[0])
            if have is not None and used is not None and have != used:
                ctx.find("category", node, f"the probabilities are stored in rows {rows_text(have)} but rows {rows_text(used)} are accumulated", run=r, key="rows")
    ss = [u for u in tm.subterms(t).values() if u.op == "searchsorted"]
    for s in ss:
        ctx.count("category rules")
        a, v = s.args[0], s.args[1]
        w = rowread(v)
        if w is None or not isdraw(w):
            if w is not None and w.op != "cumsum":
                ctx.find("category", node, "the position searched is not that of the uniform draw", run=r, key="draw")
            continue
        c = rowread(a)
        if c is None:
            continue
        if isdraw(c):
            ctx.find("category", node, "the draw is not placed among cumulative probabilities", run=r, key="cumsum")
            continue
        if c.op == "draw" or c.op != "cumsum" and not tm.contains(c, lambda u: u.op == "cumsum"):
            ctx.find("category", node, "the draw is not placed among cumulative probabilities", run=r, key="cumsum")
        elif c.op == "cumsum" and len(c.args) > 1 and tm.show(c.args[1]).strip("'") not in ("(0,)", "(-2,)"):
            ctx.find("category", node, "probabilities are not accumulated over the categories", run=r, key="axis")
    if not ss:
        for u in tm.subterms(t).values():
            if u.op in ("lt", "le", "gt", "ge") and len(u.args) == 2 and any(isdraw(a) for a in u.args):
                ctx.count("category rules")
                x, y = u.args if isdraw(u.args[1]) else (u.args[1], u.args[0])
                op = u.op if isdraw(u.args[1]) else {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}[u.op]
                if not tm.contains(x, lambda q: q.op in ("cumsum", "expit", "phi") or q.op == "sym" and q.args[:1] == ("phi",)):
                    ctx.find("category", node, "the draw is not compared with cumulative probabilities", run=r, key="cumsum")


def rows_of(a):
    """(start, stop) of a slice of rows with constant ends, (0, None) for all of them; None: another index"""
    if iscolon(a):
        return (0, None)
    if isinstance(a, tm.T) and a.op == "const":
        a = a.args[0]
    txt = tm.show(a) if isinstance(a, tm.T) else str(a)
    if not txt.startswith("slice("):
        return None
    p = [x.strip() for x in txt[6:].rstrip(")").split(",")]
    try:
        lo, hi, st = [None if x == "None" else int(x) for x in p]
    except ValueError:
        return None
    return (lo or 0, hi) if st in (None, 1) else None


def rows_text(x):
    return f"{x[0]}:" + ("" if x[1] is None else str(x[1]))


def stored_rows(a):
    """(rows of the scratch array that hold the probabilities, rows that are read): None when not understood"""
    a = strip(a)
    used = (0, None)
    if a.op == "ix":
        used = rows_of(a.args[1])
        a = a.args[0]
    have, cleared = None, False
    while a.op == "st":
        k = a.args[1]
        first = k.args[0] if isinstance(k, tm.T) and k.op == "key" else k
        outer = rows_of(first.args[0]) if isinstance(first, tm.T) and first.op == "key" else None
        if outer is not None:
            if have not in (None, outer):
                return None, None
            have = outer
        elif isinstance(first, tm.T) and tm.num_const(first) is not None:
            cleared = True                       # a row set by hand
        a = a.args[0]
    return (None, None) if cleared else (have, used)


def rowread(t):
    """the last value stored into the rows a term reads, for the rows [1:] or [0] of a scratch array"""
    t = strip(t)
    path = []
    while t.op == "ix":
        for a in reversed([x for x in t.args[1:]]):
            if not iscolon(a) and not (isinstance(a, tm.T) and (a.op == "ala" or a.op == "sym" and a.args[:1] in (("ala",), ("it",)))):
                path.append(a)
        t = t.args[0]
    if len(path) > 1:
        return None
    want = path[0] if path else None
    if want is None:
        return t if t.op in ("draw", "cumsum") else None
    n0 = tm.num_const(want) if isinstance(want, tm.T) else None
    start = slicestart(want)
    if n0 is None and start is None:
        return None
    while t.op == "st":
        k, v = t.args[1], t.args[-1]
        ks = [x for x in k.args if not iscolon(x)] if isinstance(k, tm.T) else []
        ks = [y for x in ks for y in ([z for z in x.args if not iscolon(z)] if isinstance(x, tm.T) and x.op == "key" else [x])]
        if len(ks) == 0:
            return v
        if len(ks) > 1:
            return None
        m0, ms = tm.num_const(ks[0]) if isinstance(ks[0], tm.T) else None, slicestart(ks[0])
        if n0 is not None:
            if m0 is not None and m0 == n0:
                return v
            if n0 < 0 and ms is not None:
                return mk("ix", v, const(n0))
            if ms is not None and ms <= n0:
                return mk("ix", v, const(n0 - ms))
            if m0 is None and ms is None:
                return None
        else:
            if ms is not None and ms == start:
                return v
            if m0 is not None and 0 <= m0 < start:
                pass
            elif ms is not None or m0 is not None:
                # rows partly covered
                if m0 is not None and m0 >= start or ms is not None and ms < start:
                    return v
                return mk("ix", v, want)
            else:
                return None
        t = t.args[0]
    return None


def accumulated(t):
    """probabilities of categories summed by hand, or thresholds' curves used directly"""
    for u in tm.subterms(t).values():
        if u.op == "st" and u.args[-1].op == "add" and len(tm.poly(u.args[-1])) > 1 and tm.contains(u.args[-1], lambda q: q.op == "ix" and tm.contains(q, lambda z: z.op == "sym" and z.args[:1] == ("phi",))):
            return True
    return False


def slicestart(a):
    s = tm.show(a) if isinstance(a, tm.T) else str(a)
    if "slice(" not in s:
        return None
    p = s[s.index("slice(") + 6:].rstrip(")").split(",")
    if len(p) >= 2 and p[1].strip() == "None":
        try:
            return int(p[0]) if p[0].strip() != "None" else 0
        except ValueError:
            return None
    return None


def graded(ctx, r, model):
    """the stored probability of category k is the difference of the logistic curves of thresholds k-1 and k"""
    I = r.I
    for e in I.evs("store"):
        comps = e.d.get("comps")
        if not comps or comps[0][0] != "i" or e.aug or not tm.contains(e.vf.term, lambda u: u.op in ("expit", "exp")):
            continue
        if e.vf.term.op == "ala" or tm.contains(e.vf.term, lambda u: u.op in ("draw", "cumsum", "searchsorted")):
            continue
        c = canon(after(I, e, e.vf.term))
        row = comps[0][1].f.term
        lin, c0, bad = {}, 0, False
        sub = {u.id: u for u in tm.subterms(c).values()}
        for m, k in tm.poly(c).items():
            if m == ():
                c0 += k
            elif len(m) == 1 and m[0][1] == 1 and sub.get(m[0][0]) is not None and sub[m[0][0]].op == "expit":
                lin[m[0][0]] = lin.get(m[0][0], 0) + k
            else:
                bad = True
        if bad or not lin:
            continue
        curves = []
        for i, k in lin.items():
            a = sub[i].args[0]
            q = threshold(a, model)
            if q is None:
                continue
            idx, sign = q
            if idx is False:
                ctx.count("probability formulas")
                ctx.find("model", e.node, f"the curve of a threshold is not the logistic of the {'linear form plus intercept' if model == 'grm_md' else 'discrimination times the distance from the threshold'}: {tm.show(a)[:100]}", ctx=e.ctx, run=r, key="curve")
                bad = True
                continue
            if sign < 0:
                c0, k = c0 + k, -k
            curves.append((idx, k))
        if bad or len(curves) != len(lin):
            continue
        ctx.count("probability formulas")
        n = tm.num_const(row)
        ok = None
        if n == 0:
            ok = len(curves) == 1 and c0 == 1 and curves[0][1] == -1 and tm.num_const(curves[0][0]) == 0
        elif n == -1 or tm.same(row, LV):
            ok = len(curves) == 1 and c0 == 0 and curves[0][1] == 1 and (tm.num_const(curves[0][0]) == -1 or tm.same(curves[0][0], mk("add", LV, const(-1))))
        elif n is None or n > 0:
            up = [i for i, k in curves if k == 1]
            dn = [i for i, k in curves if k == -1]
            ok = len(curves) == 2 and c0 == 0 and len(up) == 1 == len(dn) and tm.same(up[0], mk("add", row, const(-1))) and tm.same(dn[0], row)
        if ok is False:
            ctx.find("model", e.node, "the probability of a category is not the difference of the curves of its two thresholds: " + tm.show(c)[:120], ctx=e.ctx, run=r, key="difference")


def after(I, e, t):
    """a value left behind by a loop that has ended is that of its last iteration"""
    for l in I.evs("loop"):
        it = l.d.get("idt")
        if it is not None and l.n is not None and tm.contains(t, lambda q: q is it) and not inloop(I, e, l):
            t = tm.replace(t, {it: mk("add", l.n, const(-1))})
    return t


def threshold(a, model):
    """(index of the threshold, sign) of a logit, (False, 0) if it is another function of the parameters, None if not recognised"""
    bs = [u for u in tm.subterms(a).values() if u.op == "ix" and u.args[0] is B(None)]
    rest = [u for u in tm.subterms(a).values() if u.op == "sym" and u not in (A, T, B(None)) and not any(tm.contains(b.args[1], lambda q: q is u) for b in bs if isinstance(b.args[1], tm.T))]
    if rest or len(bs) != 1 or len(bs[0].args) != 2 or any(u.op in ("join", "st", "take") for u in tm.subterms(a).values()):
        return None
    b = bs[0]
    form = mk("add", mk("dot", A, T), b) if model == "grm_md" else mk("mul", A, mk("add", T, mk("mul", const(-1), b)))
    for s in (1, -1):
        if tm.same(a, mk("mul", const(s), form)):
            return b.args[1], s
    return False, 0


def credit(ctx, r, model, t):
    """category weights are exponentials of running sums of discrimination * (theta - threshold), divided by their total over the categories"""
    I = r.I
    cums = [u for u in tm.subterms(t).values() if u.op == "exp"]
    if not cums:
        if not tm.contains(t, lambda u: u.op in ("expit", "softmax", "logsumexp")):
            return
        if not tm.contains(t, lambda u: u.op in ("softmax", "logsumexp")):
            ctx.find("model", cm.retnode(r), f"model {model} draws from logistic curves, not from exponentials of running sums", run=r, key="credit")
        return
    ctx.count("probability formulas")
    if not any(tm.contains(u.args[0], lambda q: q.op == "cumsum") for u in cums):
        ctx.find("model", cm.retnode(r), f"the category weights of model {model} are not running sums over the thresholds", run=r, key="credit cumsum")
    sub = tm.subterms(t).values()
    tot = [u for u in sub if u.op == "red" and str(u.args[0]) == "sum" and tm.contains(u, lambda q: q.op == "exp")]
    if not tot:
        ctx.find("model", cm.retnode(r), f"the category weights of model {model} are not divided by their total", run=r, key="credit total")
    for u in tot:
        if str(u.args[1]) not in ("(0,)", "(-2,)"):
            ctx.find("model", cm.retnode(r), f"the category weights of model {model} are not divided by their total over the categories", run=r, key="credit axis")
    for u in cums:
        arg = u.args[0]
        for p, ok in ((DIFF, "the thresholds"), (TH, "the abilities")):
            if not tm.contains(arg, lambda q: q is p):
                ctx.find("model", cm.retnode(r), f"the category weights of model {model} do not use {ok}", run=r, key="credit " + ok)
        if not any(tm.contains(arg, lambda q, d=d: q is d) for d in DISC):
            ctx.find("model", cm.retnode(r), f"the category weights of model {model} do not use the discrimination", run=r, key="credit discrimination")
    for e in I.evs("store"):
        if not e.aug or e.d.get("tshape") is None or len(e.tshape) != 2 or tm.contains(e.vf.term, lambda u: u.op in ("exp", "cumsum")):
            continue
        # one step: + theta, - threshold
        v = e.vf.term
        if v.op == "add":
            for m, k in tm.poly(v).items():
                if len(m) != 1:
                    continue
                q = {u.id: u for u in tm.subterms(v).values()}.get(m[0][0])
                if q is None:
                    continue
                c = canon(q)
                if c is T and k != 1 or c is B(None) and k != -1:
                    ctx.find("model", e.node, "a step of the running sum is not ability minus threshold", ctx=e.ctx, run=r, key="step")
    mirrored = any(u.op in ("flip", "reverse") or u.op == "ix" and any(isinstance(a, tm.T) and reversing(a) for a in u.args[1:]) for u in sub)
    if model == "gum":
        fold(ctx, r)
        if not mirrored:
            ctx.find("model", cm.retnode(r), "the unfolding model does not combine a category with its mirror image", run=r, key="unfold")
    elif mirrored:
        ctx.find("model", cm.retnode(r), "the partial credit model combines categories with their mirror images", run=r, key="unfold")


def reversing(a):
    """an index that runs backwards"""
    if isslice(a):
        return ", -1)" in tm.show(a)
    return a.op != "const" and any(c < 0 for m, c in tm.poly(a).items() if m and any(u.op == "sym" and u.args[:1] == ("it",) and (u.id, 1) in m for u in tm.subterms(a).values()))


def fold(ctx, r):
    """category j of the unfolding model collects subjective categories j and (last - j)"""
    I = r.I
    K = mk("add", LV, const(1))
    for l in I.evs("loop"):
        if l.form == "unrolled" or l.d.get("idt") is None:
            continue
        for e in I.evs("store"):
            if not inloop(I, e, l):
                continue
            rows = [u for u in tm.subterms(e.vf.term).values() if u.op == "ix" and len(u.args) > 1 and isinstance(u.args[1], tm.T) and tm.contains(u.args[1], lambda q: q is l.idt)]
            other = [u for u in rows if u.args[1] is not l.idt]
            if len({u.args[1].id for u in other}) != 1 or len(rows) == len(other):
                continue
            ctx.count("probability formulas")
            k = other[0].args[1]
            mirror = [mk("mul", const(-1), mk("add", l.idt, const(1))), mk("add", LV, mk("mul", const(-1), l.idt))]
            if not any(tm.same(k, m) for m in mirror):
                ctx.find("model", e.node, "a category of the unfolding model is not combined with its mirror image: " + tm.show(k)[:60], ctx=e.ctx, run=r, key="mirror")
            if isinstance(l.n, tm.T) and not any(tm.same(l.n, x) for x in (mk("floordiv", K, const(2)), mk("add", mk("floordiv", mk("add", LV, const(-1)), const(2)), const(1)))):
                if not tm.contains(l.n, lambda q: q.op == "sym" and q is not LV):
                    ctx.find("model", l.node, "not exactly half of the categories of the unfolding model are combined: " + tm.show(l.n)[:60], ctx=l.ctx, run=r, key="half")
