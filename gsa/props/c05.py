"""C05: supplied options and arguments reach the computation and are not mixed with defaults."""
from .. import entries as E
from .. import terms as tm
from ..terms import sym
from ..values import *   # noqa
from . import common as cm
from . import c18

ASSUMPTIONS = ["the caller's density is a function of its argument only",
               "influence is judged over all executions: an option influences a value when some operation on the way to the value reads it"]

TOGGLES = {"use_LUT", "estimate_distribution", "initial_guess"}
WORK = {"num_processors", "n_processors"}            # need only reach the work done
MAIN = ("Discrimination", "Difficulty", "Ability", "Guessing", "Delta", "Tau", "Difficulties", "Rayleigh_Scale")
FIT = ("AIC.final", "BIC.final", "AIC", "BIC")
NULL = ("AIC.null", "BIC.null")
# fields that report an argument instead of an estimate
GIVEN = {("girth.rasch_jml", "Discrimination"), ("girth.rasch_mml", "Discrimination"), ("girth.rasch_conditional", "Discrimination"), ("girth.onepl_mml alpha", "Discrimination")}
A0, B0, N0, H0 = c18.A0, c18.B0, c18.N0, c18.H0


# steps whose outcome the result facts already carry (what a branch decides, what is stored where)
INNER = {"branch", "store", "index", "sentindex", "arith", "bitop", "half", "cast", "shape", "storeshape", "squeeze", "reduce", "mut", "dictstore", "seqslice",
         "badindex", "reorder"}


def flat(v, depth=0):
    """facts inside an event's payload"""
    if depth > 4:
        return
    if isinstance(v, F):
        yield v
    elif isinstance(v, (Sc, Unk)):
        yield v.f
    elif isinstance(v, (tuple, list)):
        for x in v:
            yield from flat(x, depth + 1)
    elif isinstance(v, dict):
        for x in v.values():
            yield from flat(x, depth + 1)
    elif isinstance(v, Tup):
        yield from flat(v.items, depth + 1)


def seen(r):
    """{label: where} over the result and everything the call did"""
    out = {}
    for p, sh, f, v in cm.retfacts(r):
        for d in f.deps:
            out.setdefault(d, (cm.retnode(r), 0, f"result{p}"))
    for e in r.I.events.values():
        if e.kind in ("enter", "leave", "defaults", "drain", "raise") or e.kind in INNER:
            continue
        pay = [e.d.get("nF"), [b[0] for b in e.d.get("breaks") or ()]] if e.kind == "loop" else list(e.d.values())
        for f in flat(pay):
            for d in f.deps:
                if d not in out:
                    out[d] = (e.node, e.ctx, f"an operation ({e.kind})")
    return out


def check(ctx):
    clients(ctx)
    for n, ent in E.ENTRIES.items():
        if not (set(ent.tags) & {"est", "score", "guess"} or n == "girth.create_beta_LUT" or "boot" in ent.tags or n.endswith("polychoric_correlation")):
            arguments(ctx, n)
            continue
        runs = []
        union = set()
        for sc in cm.scenarios(n, ctx.tier):
            r = lut(ctx, sc) if n == "girth.create_beta_LUT" else ctx.run(n, dict(sc))
            cm.must_return(ctx, r)
            runs.append((sc, r))
            s = seen(r)
            union |= set(s)
            leak(ctx, r, s, None)
            if ent.opts and n != "girth.create_beta_LUT":
                fields(ctx, n, ent, sc, r)
            if "distribution" in ent.opts:
                grids(ctx, r)
            if "number_of_samples" in ent.opts and sc.get("estimate_distribution") and n != "girth.create_beta_LUT":
                samples(ctx, n, r)
        for k in ent.opts:
            ctx.count("documented options")
            if k in TOGGLES:
                toggle(ctx, n, k, runs)
            elif "opt:" + k not in union:
                ctx.find("unused-option", cm.fnnode(runs[0][1]), f"option {k!r} of {n} influences neither the result nor the work done", run=runs[0][1], key=f"{n}:{k}")
        params(ctx, n, runs, union)
        if n == "girth.create_beta_LUT" or not ent.opts or "boot" in ent.tags:
            continue
        base = runs[0][0]
        for k in ent.opts:
            r = ctx.run(n, dict(base, options=(k,)))
            cm.must_return(ctx, r)
            ctx.count("calls naming one option")
            leak(ctx, r, seen(r), {k})
    ctx.need("documented options", 30)
    return ("Every option and argument value carries a label through every operation, loop and callback; default values carry another. For a call that supplies all options, and for each "
            "call that supplies a single one, the default value of a supplied option may reach no result and no operation. Each documented option must reach every estimate it governs "
            "(density, bounds and size of the grid, iteration limit, sample count, hyper-quadrature size), switches must change what is computed, arguments must reach the result, and every "
            "quadrature grid must have the supplied size and be spread over the supplied bounds.")


def lut(ctx, sc):
    """build the table and look one value up in it"""
    name = "girth.create_beta_LUT"

    def call(I, sc):
        I.listidx = bool(sc.get("rows"))
        a = E.ENTRIES[name].build(I, sc)
        I.args0 = dict(a)
        f = I.call(E.resolve(I, name), [], dict(a), E.SITE)
        if I.heap is None:
            return f
        return I.call(f, [E.scalar(I, "alpha_value", (0.2, 5)), E.scalar(I, "p_value", (0, 1))], {}, E.SITE)
    r = ctx.custom(name, dict(sc), call)
    r.args, r.fn = r.I.args0, E.resolve(r.I, name)
    return r


def leak(ctx, r, s, only):
    ctx.count("calls checked for defaults")
    for d, (node, c, what) in sorted(s.items(), key=lambda x: str(x[0])):
        if d.startswith("default:") and (only is None or d[8:] in only):
            ctx.find("default-used", node, f"the default value of {d[8:]!r} reaches {what} although the caller supplied the option", ctx=c, run=r, key=d)


def needed(ent, sc):
    ks = [k for k in ent.opts if k not in TOGGLES and k not in WORK]
    if not sc.get("estimate_distribution"):
        ks = [k for k in ks if k != "number_of_samples"]
    return ks


def fields(ctx, n, ent, sc, r):
    I = r.I
    ks = needed(ent, sc)
    if "est" not in ent.tags:
        fs = cm.retfacts(r)
        deps = frozenset().union(*[f.deps for _, _, f, _ in fs]) if fs else frozenset()
        ctx.count("result values checked for influence")
        for k in ks:
            if "opt:" + k not in deps:
                ctx.find("no-influence", cm.fnnode(r), f"the result of {n} does not depend on option {k!r}", run=r, key=f"{n}:{k}")
        return
    for names, drop in ((MAIN, ()), (FIT, ()), (NULL, ("max_iteration", "number_of_samples", "hyper_quadrature_n"))):
        for path in names:
            if (n, path) in GIVEN or (n + " alpha", path) in GIVEN and sc.get("alpha"):
                continue
            v = r.ret
            for k in path.split("."):
                v = cm.field(I, v, k) if v is not None else None
            if v is None:
                continue
            for x in I.alts(v):
                if not isinstance(x, (Sc, Arr, Unk)):
                    continue
                f = I.facts(x)
                ctx.count("result values checked for influence")
                for k in ks:
                    if k not in drop and "opt:" + k not in f.deps:
                        ctx.find("no-influence", cm.fnnode(r), f"{path} of {n} does not depend on option {k!r}", run=r, key=f"{n}:{path}:{k}")


def toggle(ctx, n, k, runs):
    """the switch must change what is computed"""
    ctx.count("switches compared")
    for i, (a, ra) in enumerate(runs):
        for b, rb in runs[i + 1:]:
            if a.get(k) != b.get(k) and all(a.get(q) == b.get(q) for q in set(a) | set(b) if q != k):
                fa, fb = ({p: (f.term, f.deps) for p, sh, f, v in cm.retfacts(x)} for x in (ra, rb))
                ea, eb = ({(e.kind, e.node._id) for e in x.I.events.values() if e.kind in ("enter", "optcall", "reduce", "loop")} for x in (ra, rb))
                if fa == fb and ea == eb:
                    ctx.find("no-influence", cm.fnnode(ra), f"switching option {k!r} of {n} changes nothing that is computed", run=ra, key=f"{n}:{k}")
                return


def params(ctx, n, runs, union):
    r = runs[0][1]
    for p in list(getattr(r, "args", None) or {}):
        if p in ("options", "solution", "irt_model", "model") or p.startswith("_"):
            continue
        if not any(p in (getattr(x, "args", None) or {}) and "arg:" + p in labels(x, x.args[p]) for _, x in runs):
            continue
        ctx.count("arguments")
        shapes = any(tm.contains(d, lambda u: u.op == "sym" and u.args[:2] == ("arg", p)) for _, x in runs for _, sh, _, _ in cm.retfacts(x) for d in (sh or ()))
        if "arg:" + p not in union and not shapes:
            ctx.find("unused-argument", cm.fnnode(r), f"argument {p!r} of {n} influences neither the result nor the work done", run=r, key=f"{n}:{p}")
            continue
        for k in (0, 1):
            # parts of a pair
            lab = f"arg:{p}:{k}"
            if lab not in union and not shapes and any(p in (getattr(x, "args", None) or {}) and lab in labels(x, x.args[p]) for _, x in runs):
                ctx.find("unused-argument", cm.fnnode(r), f"part {k} of argument {p!r} of {n} influences neither the result nor the work done", run=r, key=f"{n}:{lab}")


CLIENTS = {"continuous_pdf": ("bounds:0", "bounds:1", "n_points"), "resample": ("new_number_of_samples",),
           "__call__": ("evaluation_locations", "unweighted_integration"), "filter_matrix": ("evaluation_locations",),
           "compute_metrics": ("unweighted_integration", "distribution_x_weights", "k_params")}


def methods():
    out = []
    for n, sc, call in cm.density_clients():
        out.append((n, sc, call, CLIENTS[n.split(".")[-1]]))
    return out


def arguments(ctx, n):
    """every documented argument of a call without estimation options"""
    runs, union = [], set()
    for sc in cm.scenarios(n, ctx.tier):
        r = ctx.run(n, dict(sc))
        cm.must_return(ctx, r)
        runs.append((sc, r))
        union |= set(seen(r))
    params(ctx, n, runs, union)


def clients(ctx):
    """arguments of the methods of the density classes"""
    for n, sc, call, names in methods():
        if n.endswith("continuous_pdf") and not sc or n.endswith("LatentPDF.__call__") and not sc["estimate_distribution"]:
            continue
        r = ctx.custom(n, sc, call)
        cm.must_return(ctx, r)
        union = seen(r)
        dims = [d for _, sh, _, _ in cm.retfacts(r) for d in (sh or ())]
        for p in names:
            if p == "unweighted_integration" and n.endswith("CubicSplinePDF.__call__") or p == "evaluation_locations" and "LatentPDF" in n:
                continue
            ctx.count("arguments")
            at = lambda u: u.op == "sym" and len(u.args) > 1 and u.args[1] == p
            if "arg:" + p not in union and not any(tm.contains(d, at) for d in dims) and not any(tm.contains(f.term, at) for _, _, f, _ in cm.retfacts(r)):
                ctx.find("unused-argument", cm.retnode(r), f"argument {p!r} of {n} influences neither the result nor the work done", run=r, key=f"{n}:{p}")


def labels(r, v):
    try:
        return r.I.facts(v).deps
    except Exception:
        return frozenset()


def grids(ctx, r):
    I = r.I
    for e in I.events.values():
        if e.kind == "quad":
            ctx.count("grids compared with the options")
            bad = [w for t, w, f in zip((A0, B0, N0), ("lower bound", "upper bound", "size"), e.args) if not tm.same(f.term, t)]
            if bad:
                ctx.find("grid", e.node, f"the {' and '.join(bad)} of this integration are not those supplied", ctx=e.ctx, run=r)
        elif e.kind == "reduce" and e.dims is not None:
            main = any(d is N0 for d in e.dims)
            hyper = any(d is H0 for d in e.dims)
            if hyper and not main:
                continue
            for u in c18.rootterms(e.term):
                ctx.count("grids compared with the options")
                why = c18.mapping(u)
                if why:
                    ctx.find("grid", e.node, "an integral is evaluated at nodes that are not those supplied: " + why, ctx=e.ctx, run=r)
            for u in pdfs(e.term):
                ctx.find("density", e.node, f"an integral over the latent ability uses {u} instead of the supplied density", ctx=e.ctx, run=r, key=u)
    for e in I.evs("optcall"):
        if e.d.get("objective") is not None:
            for u in pdfs(e.objective.term, lambda q: q.op == "sym" and q.args and q.args[0] == "optvar"):
                ctx.find("density", e.node, f"ability is penalised with {u} instead of the supplied density", ctx=e.ctx, run=r, key=u)


def samples(ctx, n, r):
    """the estimated density has as many free values as requested"""
    es = [e for e in r.I.evs("optcall") if e.d.get("shape") is not None or e.d.get("xshape") is not None]
    ctx.count("estimated densities")
    if not any(tm.same(t, c18.NS) for e in es for t in (e.d.get("xshape") or e.d.get("shape") or ())):
        ctx.find("samples", cm.fnnode(r), f"no density with the requested number of samples is fitted in {n}", run=r, key=n)


def pdfs(t, at=None):
    """library densities of the normal family evaluated at nodes (or at a trial ability)"""
    at = at or (lambda q: q.op == "qroots")
    out = set()
    for u in tm.subterms(t).values():
        nm = c18.fname(u)
        if isinstance(nm, str) and nm.split(".")[-1] in ("pdf", "logpdf") and nm.startswith(("norm", "scipy.stats.norm")) and tm.contains(u, at):
            out.add(nm)
    return out
