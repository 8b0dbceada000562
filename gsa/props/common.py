"""scenarios and helpers shared by the property rules"""
import itertools
from .. import entries as E
from .. import terms as tm
from ..loader import AnalysisBroken
from ..values import *   # noqa


def scenarios(name, tier="quick"):
    e = E.ENTRIES[name]
    out = []
    if "est" in e.tags or "guess" in e.tags:
        axes = []
        used = e.opts
        axes.append([("use_LUT", b) for b in ((True, False) if "use_LUT" in used else (True,))])
        axes.append([("estimate_distribution", b) for b in ((False, True) if "estimate_distribution" in used else (False,))])
        axes.append([("initial_guess", b) for b in ((True, False) if "initial_guess" in used else (True,))])
        for combo in itertools.product(*axes):
            out.append(dict(combo))
        if name == "girth.onepl_mml":
            out.append(dict(out[0], alpha=True))
        return out
    if "three" in e.tags:
        return [{}]
    if "score" in e.tags and "md" not in e.tags:
        return [{}, {"discr": "scalar"}]
    if "boot" in e.tags:
        return [{"parallel": True}, {"parallel": False}, {"parallel": True, "solution": True}]
    if name.endswith("polychoric_correlation"):
        return [{}, {"serial": True}]
    if name.endswith("sparsify_loadings"):
        return [{}, {"guess": True}]
    if "fa" in e.tags:
        return [{"guess": True}, {"guess": False}]
    if name.endswith("create_synthetic_irt_dichotomous"):
        return [{}, {"discr": "scalar"}, {"md": True}]
    if name.endswith("create_synthetic_irt_polytomous"):
        return [{"model": m} for m in ("grm", "pcm", "gum", "grm_md", "GRM")] + [{"model": "grm", "discr": "scalar"}]
    return [{}]


PARTIAL = ("quadrature_n", "max_iteration")


def scenarios_opts(name, tier="quick"):
    """scenarios plus: no options at all, and a dictionary naming only two options"""
    out = scenarios(name, tier)
    e = E.ENTRIES[name]
    if "est" in e.tags or "guess" in e.tags or e.opts or name.endswith("validate_estimation_options"):
        out = out + [dict(out[0], options=PARTIAL), dict(out[0], options="none")]
    return out


def must_return(ctx, r):
    if r.I.heap is None:
        why = [f"{r.I.proj.where(e.node)}: {e.d.get('what')}" for e in r.I.evs("raise")][-3:]
        raise AnalysisBroken(f"{r.label}: the analysis finds no normal exit ({'; '.join(why)})")


def walkv(I, v, depth=0, path=""):
    """every (path, leaf value) reachable from a returned value"""
    if v is None or depth > 8:
        return
    if isinstance(v, U):
        for x in v.vals:
            yield from walkv(I, x, depth + 1, path)
    elif isinstance(v, Tup):
        for i, x in enumerate(v.items):
            yield from walkv(I, x, depth + 1, f"{path}[{i}]")
    elif isinstance(v, Ref):
        c = I.c(v.loc)
        if isinstance(c, ListC):
            if c.items is not None:
                for i, x in enumerate(c.items):
                    yield from walkv(I, x, depth + 1, f"{path}[{i}]")
            elif c.elem is not None:
                yield from walkv(I, c.elem, depth + 1, path + "[*]")
        elif isinstance(c, DictC):
            for k, x in c.keys.items():
                yield from walkv(I, x, depth + 1, f"{path}[{k!r}]")
            if c.rest is not None:
                yield from walkv(I, c.rest, depth + 1, path + "[*]")
        elif isinstance(c, ObjC):
            for k, x in c.attrs.items():
                if not (isinstance(x, Ref) and x.loc == v.loc):
                    yield from walkv(I, x, depth + 1, f"{path}.{k}")
        else:
            yield path, v
    else:
        yield path, v


def retfacts(r):
    """[(path, shape, F)] of every number / array in the result"""
    I = r.I
    out = []
    for p, v in walkv(I, r.ret):
        if isinstance(v, (Sc, Arr, Unk)) or isinstance(v, Prim) and v.kind == "ma":
            s, f = I.rd(v)
            out.append((p, s, f, v))
    return out


def retnode(r):
    fn = [e for e in r.I.evs("leave") if e.d["call"] is E.SITE]
    return fn[-1].node if fn else None


def fnnode(r):
    return getattr(r.fn, "node", None)


def field(I, v, key):
    """value under a constant key of a returned dictionary (through unions)"""
    out = None
    for x in I.alts(v):
        c = I.c(x.loc) if isinstance(x, Ref) else None
        if isinstance(c, DictC) and key in c.keys:
            out = I.joinV(out, c.keys[key])
    return out


def shared_streams(ctx, r, e):
    """work items sent to processes must not carry one and the same generator"""
    I = r.I
    idxs = set()
    for it, el in zip(e.its, e.elems):
        if el is not None:
            for v in flat(I, el):
                if isinstance(v, Ref) and isinstance(I.c(v.loc), RngC):
                    f = I.c(v.loc).f
                    ctx.count("generators sent to workers")
                    t = f.term.args[1] if f.term.op == "pick" else f.term
                    if not tm.contains(t, lambda u: u.op == "sym" and u.args and u.args[0] in ("task", "it", "k", "nextidx", "comp")):
                        ctx.find("stream-shared", e.node, "every worker receives a copy of the same generator: they repeat each other's numbers", ctx=e.ctx, run=r)
        elif it.items is not None:
            seen = set()
            for x in it.items:
                for v in flat(I, x):
                    if isinstance(v, Ref) and isinstance(I.c(v.loc), RngC):
                        ctx.count("generators sent to workers")
                        if v.loc in seen:
                            ctx.find("stream-shared", e.node, "two workers receive the same generator", ctx=e.ctx, run=r)
                        seen.add(v.loc)


def flat(I, v, d=0):
    it = I.items_of(v) if d < 4 else None
    if it is None:
        return [v]
    out = []
    for x in it:
        out += flat(I, x, d + 1)
    return out


# ------------------------------------------------- the density objects as client code uses them
def density_clients():
    """(label, scenario, call(I, sc)) : every method of the density classes, on an object the caller owns"""
    num = lambda n, lo: Sc(F(sym("arg", n), (lo, INF), "i", frozenset(["arg:" + n])))
    real = lambda n: Sc(F(sym("arg", n), (-INF, INF), "f", frozenset(["arg:" + n])))

    def own(I, o, name):
        """the object and everything it holds belong to the caller"""
        for r in I.alts(o):
            if isinstance(r, Ref):
                I.owner[r.loc] = ("param", name)
                c = I.c(r.loc)
                for v in (c.attrs.values() if isinstance(c, ObjC) else ()):
                    for x in I.alts(v):
                        if isinstance(x, (Arr, Ref)) and I.owner.get(x.loc) is None:
                            I.owner[x.loc] = ("param", name)
        return o

    def spline(I):
        loc = ("h", "param", "options")
        I.heap[loc] = DictC({"number_of_samples": num("number_of_samples", 5), "quadrature_bounds": E.opt_value("quadrature_bounds")})
        I.owner[loc] = ("param", "options")
        o = I.call(E.resolve(I, "girth.utilities.CubicSplinePDF"), [Ref(loc)], {}, E.SITE)
        return o

    def latent(I, est):
        return I.call(E.resolve(I, "girth.utilities.LatentPDF"), [E.options(I, bools={"estimate_distribution": est})], {}, E.SITE)

    def meth(I, o, name, args):
        return I.call(I.getattr(o, name, E.SITE), args, {}, E.SITE)

    def locs(I):
        return E.arr_param(I, "evaluation_locations", (sym("dim", "evaluation_locations", 0),))

    def pint(I):
        return E.arr_param(I, "unweighted_integration", (sym("dim", "unweighted_integration", 0), sym("dim", "unweighted_integration", 1)))

    def dw(I):
        return E.arr_param(I, "distribution_x_weights", (sym("dim", "unweighted_integration", 1),))

    def on(build, then):
        def call(I, sc):
            o = build(I)
            return then(I, o) if I.heap is not None else None
        return call
    S = "girth.utilities.CubicSplinePDF"
    L = "girth.utilities.LatentPDF"
    mod = "girth.utilities.latent_ability_distribution"
    out = [(S + ".__call__", {}, on(spline, lambda I, o: I.call(own(I, o, "density"), [locs(I)], {}, E.SITE))),
           (S + ".filter_matrix", {}, on(spline, lambda I, o: meth(I, own(I, o, "density"), "filter_matrix", [locs(I)]))),
           (S + ".continuous_pdf", {}, on(spline, lambda I, o: meth(I, own(I, o, "density"), "continuous_pdf", []))),
           (S + ".continuous_pdf", {"bounds": True}, on(spline, lambda I, o: meth(I, own(I, o, "density"), "continuous_pdf", [Tup([real("bounds:0"), real("bounds:1")]), num("n_points", 3)]))),
           (mod + ".resample", {}, on(spline, lambda I, o: I.call(E.resolve(I, mod + ".resample"), [own(I, o, "cubic_spline_pdf"), num("new_number_of_samples", 5)], {}, E.SITE)))]
    for est in (False, True):
        out += [(L + ".__call__", {"estimate_distribution": est}, on(lambda I, est=est: latent(I, est), lambda I, o: I.call(o, [pint(I), num("iteration", 0)], {}, E.SITE))),
                (L + ".compute_metrics", {"estimate_distribution": est}, on(lambda I, est=est: latent(I, est),
                                                                           lambda I, o: meth(I, own(I, o, "latent_pdf"), "compute_metrics", [pint(I), dw(I), num("k_params", 0)])))]
    return out
