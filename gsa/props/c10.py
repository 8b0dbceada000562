"""C10: bootstrap replicates, their summaries and their streams."""
import ast
from .. import entries as E
from .. import terms as tm
from ..terms import mk, const, sym
from ..values import *   # noqa
from . import common as cm

ASSUMPTIONS = ["the caller's model is a function of its dataset and options, returning the documented fields",
               "numpy's array_split(arange(n), k) cuts 0..n-1 into k consecutive pieces that together have n elements"]
NAME = "girth.standard_errors_bootstrap"
B, P = sym("arg", "bootstrap_iterations"), sym("arg", "n_processors")
DATA = sym("in", "dataset")
FIELDS = ("Discrimination", "Difficulty")
FLOATING = ("float", "cast", "asarray", "copy", "atleast_1d")


def check(ctx):
    for sc in ({"parallel": True}, {"parallel": False}, {"parallel": True, "solution": True}, {"parallel": True, "thresholds": True}, {"parallel": False, "thresholds": True}):
        r = ctx.run(NAME, sc)
        cm.must_return(ctx, r)
        ctx.count("scenarios")
        replicates(ctx, r, sc)
        summaries(ctx, r, sc)
    ctx.need("replicate model calls", 5)
    return ("The bootstrap is interpreted for a serial and a parallel call, with and without a supplied solution, for one- and two-dimensional difficulties. "
            "Obligations: each replicate calls the caller's model on dataset columns selected by one draw of N column numbers out of N with replacement, with the caller's merged options; "
            "the replicate loops run exactly the requested number of times and no replicate is skipped or filtered; workers get distinct streams; "
            "each reported number is the stated function (percentiles 2.5 and 97.5, n-1 standard deviation, mean minus full-data estimate) of the replicates of its own parameter, in its own shape.")


def options_ok(ctx, r, e, which):
    I = r.I
    v = e.kw.get("options")
    v = v[0] if v is not None else (e.rawargs[1] if len(e.rawargs) > 1 else None)
    if v is None:
        ctx.find("options", e.node, f"the model is run on the {which} without the caller's options", ctx=e.ctx, run=r)
        return
    c = I.c(v.loc) if isinstance(v, Ref) else None
    if not isinstance(c, DictC):
        ctx.find("options", e.node, f"the model is run on the {which} with something that is not the options dictionary", ctx=e.ctx, run=r)
        return
    for k in sorted(KEYS(r)):
        ctx.count("options passed to the model")
        x = c.keys.get(k)
        fs = [I.facts(y) for y in leaves(I, x)] if x is not None else []
        if not any("opt:" + k in f.deps for f in fs) or any(l.startswith("default:") for f in fs for l in f.deps):
            if k == "distribution" and x is not None:
                if any(getattr(y, "name", "") == "opt:distribution" or "opt:distribution" in str(getattr(y, "data", "")) for y in leaves(I, x)):
                    continue
            ctx.find("options", e.node, f"the model is run on the {which} with another {k} than the caller's", ctx=e.ctx, run=r, key=k)


def KEYS(r):
    return set(E.OPT_KEYS)


def leaves(I, x):
    for _, v in cm.walkv(I, x):
        yield v


def replicates(ctx, r, sc):
    I = r.I
    full, boot = [], []
    for e in I.evs("modelcall"):
        a = e.args[0] if e.args else e.kw.get("dataset")
        if a is None or a[2] is None:
            continue
        t = a[2].term
        (boot if tm.contains(t, lambda u: u.op == "draw") else full).append((e, a))
    for e, a in full:
        ctx.count("full-data model calls")
        if a[2].term is not DATA:
            ctx.find("full-data", e.node, "the model for the full-data solution is not run on the caller's dataset: " + tm.show(a[2].term)[:80], ctx=e.ctx, run=r)
        options_ok(ctx, r, e, "full data")
        if sc.get("solution"):
            ctx.find("full-data", e.node, "the full-data solution is re-estimated although it was supplied", ctx=e.ctx, run=r)
    if not boot:
        ctx.find("resample", cm.fnnode(r), "the model is never run on a resample of the data", run=r, key="none")
        return
    base = {t for e, _ in full for t in e.pc} or None
    for e, a in boot:
        ctx.count("replicate model calls")
        options_ok(ctx, r, e, "resample")
        resample(ctx, r, e, a)
        number(ctx, r, e, base)
    for e in I.evs("branch"):
        f = e.d.get("f")
        if f is not None and "irt_model" in f.deps and "rng" in f.deps:
            ctx.find("dropped", e.node, "replicates are treated differently depending on their outcome", ctx=e.ctx, run=r)
    for e in I.evs("seqslice"):
        if any("irt_model" in f.deps for f in heldfacts(I, e.of)):
            ctx.find("dropped", e.node, "only some of the replicates are used", ctx=e.ctx, run=r)
    for e in I.evs("dispatch"):
        if e.process:
            cm.shared_streams(ctx, r, e)


def heldfacts(I, v):
    out = []
    for _, x in cm.walkv(I, v):
        if isinstance(x, It) and x.items is None and x.elem is not None:
            continue
        if isinstance(x, (Sc, Arr, Unk)):
            out.append(I.rd(x)[1])
    return out


def resample(ctx, r, e, a):
    I = r.I
    v, sh, f = a
    t = f.term
    bad = lambda m: ctx.find("resample", e.node, m, ctx=e.ctx, run=r)
    if sh is None or len(sh) != 2 or sh[0] is not E.ITEMS and not tm.same(sh[0], E.ITEMS):
        return bad("a replicate does not hold one row per item")
    if not tm.same(sh[1], E.PEOPLE):
        bad("a replicate does not hold as many respondents as the dataset: " + tm.show(sh[1])[:80])
    while t.op in FLOATING or t.op in ("T", "transpose") and isinstance(t.args[0], tm.T) and t.args[0].op in ("T", "transpose"):
        t = t.args[0] if t.op in FLOATING else t.args[0].args[0]
    ds = [u for u in tm.subterms(t).values() if u.op == "draw"]
    ok = t.op == "take" and t.args[0] is DATA and len(t.args) == 3 and isinstance(t.args[2], tm.T) and t.args[2].op == "draw" and str(tm.show(t.args[1])).strip("'") == ":"
    if not ok and not wholecolumns(t):
        return bad("respondents are not resampled as whole columns of the dataset: " + tm.show(t)[:120])
    for d in ds:
        for q in I.evs("draw"):
            if q.res is not d:
                continue
            ctx.count("resampling draws")
            n, sz = q.d.get("a"), q.d.get("size")
            if q.method == "choice":
                if n is None or not (tm.same(n.term, E.PEOPLE) or n.term.op.startswith("arange") and tm.contains(n.term, lambda u: u is E.PEOPLE)):
                    bad("the resampled respondents are drawn from another range than all respondents")
                if q.d.get("replace") is False:
                    bad("respondents are drawn without replacement")
                if q.d.get("p") is not None:
                    bad("respondents are drawn with unequal probabilities")
            elif q.method in ("integers", "randint"):
                lo, hi = rng_bounds(I, q)
                if lo is None or tm.pconst(lo) != 0 or not tm.same(hi, E.PEOPLE) or endpoint(q):
                    bad("the resampled respondents are drawn from another range than all respondents")
            else:
                bad(f"respondents are selected by {q.method}, which does not draw with replacement uniformly")


def endpoint(q):
    v = q.kw.get("endpoint")
    return v is not None and not (isinstance(v, Sc) and tm.num_const(v.f.term) == 0)


def rng_bounds(I, q):
    xs = [I.facts(x).term for x in q.args[:2]]
    lo, hi = q.kw.get("low"), q.kw.get("high")
    if lo is not None:
        xs.insert(0, I.facts(lo).term)
    if hi is not None:
        xs.append(I.facts(hi).term)
    if len(xs) == 1:
        return const(0), xs[0]
    return (xs[0], xs[1]) if len(xs) == 2 else (None, None)


def wholecolumns(t):
    """a gather along the respondents whose index is one draw (other spellings)"""
    u = t
    if u.op in ("T", "transpose"):
        u = u.args[0]
        return u.op == "take" and isinstance(u.args[0], tm.T) and u.args[0].op in ("T", "transpose") and u.args[0].args[0] is DATA and u.args[1].op == "draw"
    if u.op in ("take", "ix") and u.args[0] is DATA:
        ix = [x for x in u.args[1:] if isinstance(x, tm.T)]
        ix = [x for x in ix if x.op == "draw"]
        return len(ix) == 1 and len(u.args) == 3
    return False


def number(ctx, r, e, base):
    I = r.I
    # the loops around this call, through the call chain
    loops, tasks = [], []
    ids = set()
    chain = [e.ctx]
    while chain[-1]:
        chain.append(I.ctxinfo[chain[-1]][0])
    lp = [l for l in I.evs("loop") if l.form != "unrolled" and around(I, l, e)]
    lp += [l for l in I.evs("drain") if l.d.get("owner") is not None and around(I, l, e)]
    ctx.count("replicate loops", len(lp))
    par = [d for d in I.evs("dispatch") if d.process]
    serial = not par
    what = "; ".join(tm.show(l.n)[:60] for l in lp if l.n is not None)
    total = None
    for l in lp:
        if l.d.get("breaks") or l.d.get("rets"):
            ctx.find("number", l.node, "the replicate loop can end before all requested replicates are run", ctx=l.ctx, run=r)
        for d in range(1):
            pass
    ns = [l.n for l in lp]
    if any(n is None for n in ns) or not ns:
        ctx.find("number", e.node, "the replicates are not run in a loop over the requested number", ctx=e.ctx, run=r)
        return
    tn = [it.n for d in par for it in d.its if it.n is not None] if par else []
    prod = const(1)
    chunks = 0
    for n in ns:
        if n.op == "chunklen" and n.args[0] is B:
            k = n.args[1]
            outer = tn[:1] if par else []
            if outer:
                if not tm.same(outer[0], k):
                    ctx.find("number", e.node, f"the replicates are cut into {tm.show(k)[:40]} pieces but {tm.show(outer[0])[:40]} pieces are run", ctx=e.ctx, run=r)
            elif tm.pconst(k) != 1 and not any(tm.same(m, k) for m in ns if m is not n):
                ctx.find("number", e.node, "only some of the pieces of the requested replicates are run", ctx=e.ctx, run=r)
            chunks += 1
        else:
            prod = mk("mul", prod, n)
    if chunks == 1:
        rest = [n for n in ns if n.op != "chunklen"]
        if rest and not (len(rest) == 1 and not par):
            ctx.find("number", e.node, "the number of replicates run is not the number requested: " + what, ctx=e.ctx, run=r)
    else:
        for n in tn[:1]:
            prod = mk("mul", prod, n)
        if chunks or not tm.same(prod, B):
            ctx.find("number", e.node, "the number of replicates run is not the number requested: " + (tm.show(prod)[:80]), ctx=e.ctx, run=r)
    extra = [t for t in e.pc if base is not None and t not in base]
    if base is None:
        extra = [t for t in e.pc if any(tm.contains(t[0], lambda u: u.op == "draw" or u.op == "usermodel" or u is B) for _ in (0,))]
    extra = [t for t in extra if not tm.contains(t[0], lambda u: u is P) or tm.contains(t[0], lambda u: u is B or u.op in ("draw", "usermodel"))]
    if extra:
        ctx.find("dropped", e.node, "a replicate is only run under a condition: " + tm.show(extra[0][0])[:80], ctx=e.ctx, run=r)
    n = e.node
    while n is not None:
        p = getattr(n, "_parent", None)
        if isinstance(p, ast.Try) and any(n is s for s in p.body) and any(not any(isinstance(z, ast.Raise) for z in ast.walk(h)) for h in p.handlers):
            ctx.find("dropped", p.handlers[0], "a failing replicate is silently left out", ctx=e.ctx, run=r, key="except")
        n = p


def around(I, l, e):
    """is the event inside the loop (same function, or a function called from the loop)?"""
    n, c = e.node, e.ctx
    while True:
        if c == l.ctx:
            m = n
            while m is not None:
                if m is (l.d.get("owner") or l.node):
                    return True
                m = getattr(m, "_parent", None)
        if not c:
            return False
        c, site = I.ctxinfo[c]
        n = I.proj.nodes.get(site) if isinstance(site, int) else None
        if n is None and c != l.ctx:
            continue
        if n is None:
            return False


# ------------------------------------------------------------------ summaries
def strip(t, memo=None):
    """without re-shaping to one row per replicate and back (element order is kept)"""
    memo = {} if memo is None else memo
    r = memo.get(t.id)
    if r is None:
        if t.op == "rs" or t.op in FLOATING:
            r = strip(t.args[0], memo)
        elif t.args:
            r = mk(t.op, *[strip(a, memo) if isinstance(a, tm.T) else a for a in t.args])
        else:
            r = t
        memo[t.id] = r
    return r


def whose(t):
    """field name a sample term holds the replicates of: a replicate's own field"""
    if t.op == "get" and t.args[0].op == "usermodel" and tm.contains(t, lambda u: u.op == "draw"):
        return tm_const(t.args[1])
    if t.op == "sym" and t.args and t.args[0] == "phi":
        for a in t.args[1:]:
            if isinstance(a, tuple) and a and a[-1] in ("mD", "mA"):
                return {"mD": "Difficulty", "mA": "Discrimination"}[a[-1]]
    if t.op == "join" and t.args:        # two ways to the same replicates (worker processes, or none)
        own = {whose(a) for a in t.args if isinstance(a, tm.T)}
        return own.pop() if len(own) == 1 else None
    return None


def tm_const(t):
    return t.args[0] if isinstance(t, tm.T) and t.op == "const" else t


def atoms(t):
    sub = {u.id: u for u in tm.subterms(t).values()}
    return [(tuple((sub.get(a), p) for a, p in m), c) for m, c in tm.poly(t).items()]


def summaries(ctx, r, sc):
    I = r.I
    node = cm.retnode(r)
    sol = cm.field(I, r.ret, "Solution")
    top = {k: cm.field(I, r.ret, k) for k in ("95th CI", "Standard Errors", "Bias")}
    for k in FIELDS:
        want_shape = (sym("dim", "irt", 0),) + ((sym("dim", "irt", 1),) if k == "Difficulty" and sc.get("thresholds") else ())
        own = sym("in", "solution." + k) if sc.get("solution") else None
        v = cm.field(I, sol, k) if sol is not None else None
        sf = I.rd(v)[1].term if v is not None else None
        if sf is None or (own is not None and sf is not own) or (own is None and not (sf.op == "get" and sf.args[0].op == "usermodel" and sf.args[0].args[0] is DATA and tm_const(sf.args[1]) == k)):
            ctx.find("solution", node, f"the reported solution's {k} is not the full-data estimate", run=r, key=k)
            continue
        groups = []
        ci = cm.field(I, top["95th CI"], k) if top["95th CI"] is not None else None
        its = I.items_of(ci) if ci is not None else None
        if its is None and isinstance(ci, Arr):
            its = rows(I, ci, len(want_shape))
        if its is None or len(its) != 2:
            ctx.find("interval", node, f"the interval of {k} is not a pair of arrays", run=r, key=k + "pair")
            its = []
        for q, x in zip((2.5, 97.5), its):
            groups.append((f"interval of {k}", x, lambda t, q=q: percentile(t, q, k)))
        se = cm.field(I, top["Standard Errors"], k) if top["Standard Errors"] is not None else None
        groups.append((f"standard error of {k}", se, lambda t: std(t, k)))
        bi = cm.field(I, top["Bias"], k) if top["Bias"] is not None else None
        groups.append((f"bias of {k}", bi, lambda t: bias(t, k, sf)))
        for label, x, judge in groups:
            ctx.count("reported summaries")
            if x is None:
                ctx.find("summary", node, f"the {label} is not reported", run=r, key=label)
                continue
            sh, f = I.rd(x) if not isinstance(x, tuple) else x
            if sh is None or len(sh) != len(want_shape) or not all(tm.same(a, b) for a, b in zip(sh, want_shape)):
                ctx.find("shape", node, f"the {label} does not have the shape of the parameter: {[tm.show(d)[:40] for d in sh] if sh is not None else 'unknown'}", run=r, key=label)
            why = judge(strip(f.term))
            if why:
                ctx.find("summary", node, f"the {label} {why}", run=r, key=label)


def rows(I, arr, nd):
    sh, f = I.rd(arr)
    if sh is None or len(sh) != nd + 1 or tm.pconst(sh[0]) != 2:
        return None
    t = strip(f.term)
    if t.op in ("pack", "stack") and len(t.args) == 2:
        return [(sh[1:], f.w(term=a)) for a in t.args]
    if t.op == "percentile":
        q = t.args[1]
        if q.op == "pack" and len(q.args) == 2:
            return [(sh[1:], f.w(term=mk("percentile", t.args[0], a))) for a in q.args]
        if q.op == "const" and isinstance(q.args[0], (tuple, list)) and len(q.args[0]) == 2:
            return [(sh[1:], f.w(term=mk("percentile", t.args[0], const(a)))) for a in q.args[0]]
    return None


def axis0(red):
    a = tm_const(red.args[1])
    return str(a) in ("(0,)", "0")


def sample(t, k):
    w = whose(t)
    if w is None:
        return "is not computed from all the replicates: " + tm.show(t)[:80]
    if w != k:
        return f"is computed from the replicates of {w}"
    return None


def percentile(t, q, k):
    if t.op == "ix" and t.args[0].op == "percentile":
        i = tm.num_const(t.args[1])
        qs = t.args[0].args[1]
        if i is not None and qs.op == "pack":
            t = mk("percentile", t.args[0].args[0], qs.args[int(i)])
    if t.op != "percentile" or t.args[0].op != "red":
        return "is not a percentile of the replicates: " + tm.show(t)[:80]
    got = tm.num_const(t.args[1])
    if got is None or abs(got - q) > 1e-9:
        return f"is the {got if got is not None else tm.show(t.args[1])[:40]} percentile, not the {q}"
    if not axis0(t.args[0]):
        return "is taken over the parameters, not over the replicates"
    return sample([a for a in t.args[0].args if isinstance(a, tm.T)][-1], k)


def std(t, k):
    if t.op in ("sqrt", "pow") and t.args[0].op == "red" and t.args[0].args[0] in ("var", "nanvar") and (t.op == "sqrt" or tm.num_const(t.args[1]) == 0.5):
        u = t.args[0]
    elif t.op == "red" and t.args[0] in ("std", "nanstd"):
        u = t
    else:
        reds = [x for x in tm.subterms(t).values() if x.op == "red" and x.args[0] in ("std", "nanstd", "var", "nanvar", "mean", "nanmean")]
        if not reds or any(x.args[0] in ("std", "nanstd", "var", "nanvar") for x in reds):
            return "is not the sample standard deviation of the replicates: " + tm.show(t)[:80]
        return None          # spelled out by hand: not judged
    dd = [a for a in u.args if isinstance(a, tm.T) and a.op == "ddof"]
    if not dd or tm.num_const(dd[0].args[0]) != 1:
        return "does not divide by n - 1"
    if not axis0(u):
        return "is taken over the parameters, not over the replicates"
    return sample([a for a in u.args if isinstance(a, tm.T) and a.op != "ddof"][-1], k)


def bias(t, k, sol):
    # the mean of the differences is the difference of the means
    if t.op == "red" and t.args[0] in ("mean", "nanmean") and axis0(t):
        x = [a for a in t.args if isinstance(a, tm.T)][-1]
        ms = atoms(x)
        mean = [(m, c) for m, c in ms if len(m) == 1 and m[0][0] is not None and whose(m[0][0])]
        rest = [(m, c) for m, c in ms if (m, c) not in mean]
        at = mean[0][0][0][0] if mean else None
        if len(mean) != 1 or mean[0][1] != 1:
            return "is not the replicate mean minus the full-data estimate: " + tm.show(t)[:80]
        why = sample(at, k)
    else:
        ms = atoms(t)
        mean = [(m, c) for m, c in ms if len(m) == 1 and m[0][0] is not None and m[0][0].op == "red"]
        rest = [(m, c) for m, c in ms if (m, c) not in mean]
        if len(mean) != 1:
            return "is not the replicate mean minus the full-data estimate: " + tm.show(t)[:80]
        u = mean[0][0][0][0]
        if u.args[0] not in ("mean", "nanmean"):
            return f"uses the {u.args[0]} of the replicates, not their mean"
        if not axis0(u):
            return "is taken over the parameters, not over the replicates"
        if mean[0][1] != 1:
            return "has the wrong sign or scale"
        why = sample([a for a in u.args if isinstance(a, tm.T)][-1], k)
    if why:
        return why
    if len(rest) != 1 or len(rest[0][0]) != 1 or rest[0][0][0] != (sol, 1) or rest[0][1] != -1:
        return "does not subtract the full-data estimate of this parameter"
    return None
