"""C04: invalid options are rejected, valid ones merged over the defaults."""
import ast
import re
from .. import entries as E
from .. import terms as tm
from ..terms import sym
from ..values import *   # noqa
from ..loader import AnalysisBroken
from . import common as cm

ASSUMPTIONS = ["a boolean is accepted where Python itself accepts it as an integer (isinstance(True, int))"]

V = "girth.validate_estimation_options"
D = "girth.default_options"


def c(x):
    return Sc(cF(x))


def S(lo, hi, dt, name="v"):
    return Sc(F(sym("opt", name), (lo, hi), dt, frozenset(["arg:opt"])))


def lst(I, items):
    n = I.__dict__.setdefault("_c04n", 0) + 1
    I._c04n = n
    loc = ("h", "param", f"optlist{n}")
    I.heap[loc] = ListC(list(items))
    return Ref(loc)


def dct(I, items):
    n = I.__dict__.setdefault("_c04n", 0) + 1
    I._c04n = n
    loc = ("h", "param", f"optdict{n}")
    I.heap[loc] = DictC(dict(items))
    return Ref(loc)


def tup(*xs):
    return Tup([c(x) for x in xs])


ints = lambda lo: [
    ("a float in range", lambda I: S(lo, 1000, "f")), ("a whole float", lambda I: c(float(lo + 12))), ("a string", lambda I: c("12")),
    ("None", lambda I: c(None)), ("a list", lambda I: lst(I, [c(lo + 1)])), ("a tuple", lambda I: tup(lo + 1)), ("an array", lambda I: E.arr_param(I, "optarr", (sym("dim", "optarr", 0),))),
    ("just below the limit", lambda I: c(lo - 1)), ("anything below the limit", lambda I: S(-INF, lo - 1, "i")), ("minus one", lambda I: c(-1)), ("zero", lambda I: c(0))]
okint = lambda lo: [("the smallest", lambda I: c(lo)), ("one more", lambda I: c(lo + 1)), ("any valid", lambda I: S(lo, INF, "i")), ("a large one", lambda I: c(100000))]
boolbad = [("the integer 1", lambda I: c(1)), ("the integer 0", lambda I: c(0)), ("a string", lambda I: c("True")), ("None", lambda I: c(None)), ("a float", lambda I: c(1.0)),
           ("any integer", lambda I: S(-INF, INF, "i")), ("a list", lambda I: lst(I, []))]
okbool = [("True", lambda I: c(True)), ("False", lambda I: c(False)), ("a boolean", lambda I: S(0, 1, "b"))]

BAD = {
    "max_iteration": ints(1),
    "distribution": [("a number", lambda I: c(5)), ("a string", lambda I: c("norm")), ("None", lambda I: c(None)), ("a list", lambda I: lst(I, [c(1.0)])), ("an array", lambda I: E.arr_param(I, "optarr", (sym("dim", "optarr", 0),)))],
    "quadrature_bounds": [("a number", lambda I: c(4.3)), ("decreasing", lambda I: tup(4, -3)), ("decreasing list", lambda I: lst(I, [c(2.5), c(-2.5)])), ("equal", lambda I: tup(2, 2)), ("a string", lambda I: c("ab")), ("None", lambda I: c(None)),
                          ("one number", lambda I: tup(3)), ("an empty tuple", lambda I: Tup([])), ("three numbers", lambda I: tup(-3, 3, 5)), ("a list of four", lambda I: lst(I, [c(-3), c(-1), c(1), c(3)])),
                          ("a dictionary", lambda I: dct(I, {0: c(-1), 1: c(1)})),
                          ("any decreasing", lambda I: Tup([S(0, INF, "f", "lo"), S(-INF, 0, "f", "hi")]))],
    "quadrature_n": ints(8),
    "hyper_quadrature_n": ints(8),
    "use_LUT": boolbad, "estimate_distribution": boolbad, "initial_guess": boolbad,
    "number_of_samples": ints(5),
    "num_processors": [("a string", lambda I: c("1")), ("a float", lambda I: c(2.0)), ("None", lambda I: c(None)), ("a list", lambda I: lst(I, [c(1)])), ("any float", lambda I: S(1, INF, "f"))],
}
GOOD = {
    "max_iteration": okint(1),
    "distribution": [("a callable", lambda I: Prim("usercall", label="opt:distribution", deps=frozenset(["opt:distribution"]), itv=(0, INF)))],
    "quadrature_bounds": [("a pair", lambda I: tup(-6.25, 5.5)), ("integers", lambda I: tup(0, 1)), ("a list", lambda I: lst(I, [c(-3), c(3)])), ("both negative", lambda I: tup(-2, -1.5)), ("both positive", lambda I: tup(0.5, 7)),
                          ("any increasing", lambda I: Tup([S(-INF, -1, "f", "lo"), S(1, INF, "f", "hi")]))],
    "quadrature_n": okint(8), "hyper_quadrature_n": okint(8),
    "use_LUT": okbool, "estimate_distribution": okbool, "initial_guess": okbool,
    "number_of_samples": okint(5),
    "num_processors": [("one", lambda I: c(1)), ("two", lambda I: c(2)), ("any", lambda I: S(1, INF, "i"))],
}
NONDICT = [("a list", lambda I: lst(I, [c(21.0)])), ("a list of pairs", lambda I: lst(I, [Tup([c("max_iteration"), c(5)])])), ("a tuple", lambda I: tup(3, 4)), ("a string", lambda I: c("max_iteration")),
           ("a number", lambda I: c(3)), ("a float", lambda I: c(2.5)), ("True", lambda I: c(True)),
           ("an empty list", lambda I: lst(I, [])), ("an empty tuple", lambda I: Tup([])), ("an empty string", lambda I: c("")), ("zero", lambda I: c(0)), ("False", lambda I: c(False))]
UNKNOWN = ["Bad Key", "max_iterations", "Distribution", "", 5, None, True]


def call(ctx, name, mkval, tag, sc=None):
    """public call `name` with mkval(I) as its options"""
    if name == V:
        build = lambda I, sc: {"options_dict": mkval(I)}
    else:
        eb = E.ENTRIES[name].build

        def build(I, s):
            out = eb(I, dict(s, options="none"))
            out["options"] = mkval(I)
            return out
    ctx.cache.clear()
    r = ctx.run(name, sc or {}, build, tagdef=False, tag=tag)
    r.tag = tag
    return r


def rejected(ctx, name, mkval, tag, what, sc=None):
    r = call(ctx, name, mkval, tag, sc)
    ctx.count("invalid option values tried on " + ("the validator" if name == V else "estimators and scorers"))
    if r.I.heap is not None:
        node = cm.fnnode(r)
        ctx.find("invalid-accepted", node, f"{what} is accepted by {name}", run=r, key=f"{name}|{what}")
    if len(ctx.runs) > 200 and any(x.name == name for x in ctx.runs[:-1]):
        ctx.runs.pop()


def accepted(ctx, name, mkval, tag, what, expect=None):
    r = call(ctx, name, mkval, tag)
    ctx.count("valid option dictionaries tried")
    node = cm.fnnode(r)
    I = r.I
    if I.heap is None:
        ctx.find("valid-refused", node, f"{what} is refused by {name}", run=r, key=f"{what}")
        return None
    evs = [e for e in I.evs("raise")]
    if evs:
        ctx.find("valid-refused", evs[0].node, f"{what} may be refused ({evs[0].what})", run=r, ctx=evs[0].ctx, key=what)
    return r


def optcontent(I, v, ctx, r):
    out = None
    for x in I.alts(v):
        k = I.c(x.loc) if isinstance(x, Ref) else None
        if not isinstance(k, DictC) or k.rest is not None or k.maybe:
            return None
        if out is not None and set(out) != set(k.keys):
            return None
        if out is None:
            out = dict(k.keys)
        else:
            out = {q: I.joinV(out[q], k.keys[q]) for q in out}
    return out


def same(I, a, b):
    """the very same value"""
    if a is None or b is None:
        return False
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.loc == b.loc
    if isinstance(a, Tup) and isinstance(b, Tup):
        return len(a.items) == len(b.items) and all(same(I, x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Sc) and isinstance(b, Sc):
        return tm.same(a.f.term, b.f.term) and (a.f.dt == b.f.dt)
    if isinstance(a, Prim) and isinstance(b, Prim):
        return a.kind == b.kind and a.data.get("label") == b.data.get("label")
    return vsame(a, b)


def samedefault(I, J, a, b):
    """equal defaults taken from two separate runs"""
    if isinstance(a, Tup) and isinstance(b, Tup):
        return len(a.items) == len(b.items) and all(samedefault(I, J, x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Sc) and isinstance(b, Sc):
        return tm.same(a.f.term, b.f.term)
    if isinstance(a, Meth) and isinstance(b, Meth):
        return a.name == b.name
    return type(a) is type(b)


def check(ctx):
    base = call_defaults(ctx)
    dflt = optcontent(base.I, base.ret, ctx, base)
    if dflt is None:
        raise AnalysisBroken("default_options() has no fixed set of option names")
    for k in sorted(set(E.OPT_KEYS) - set(dflt)):
        ctx.find("missing-default", cm.fnnode(base), f"default_options() has no value for {k!r}", run=base, key=k)
    known = [k for k in dflt if k in BAD]
    ctx.count("documented options", len(known))
    documented(ctx, base, dflt)
    full = lambda I, but=None: {k: GOOD[k][0][1](I) for k in known if k != but}

    # --- merged result
    def merged(mk_, tag, what):
        made = {}

        def mkval(I):
            v = mk_(I)
            made.clear()
            made.update(v)
            return dct(I, v)
        r = accepted(ctx, V, mkval, tag, what)
        if r is None:
            return
        got = optcontent(r.I, r.ret, ctx, r)
        node = cm.retnode(r) or cm.fnnode(r)
        if got is None:
            ctx.find("result-not-complete", node, f"{what}: the result is not one complete options dictionary", run=r, key=what)
            return
        for k in sorted(set(got) | set(dflt), key=str):
            ctx.count("option values of the merged result compared")
            if k not in got:
                ctx.find("option-lost", node, f"{what}: the result has no {k!r}", run=r, key=k)
            elif k in made:
                if not same(r.I, got[k], made[k]):
                    ctx.find("option-changed", node, f"{what}: the result's {k!r} is not the supplied value", run=r, key=k)
            elif k not in dflt:
                ctx.find("option-invented", node, f"{what}: the result has an undocumented {k!r}", run=r, key=k)
            elif not samedefault(r.I, base.I, got[k], dflt[k]):
                ctx.find("default-changed", node, f"{what}: the result's {k!r} is not the default", run=r, key=k)

    merged(lambda I: {}, "empty", "an empty dictionary")
    for k in known:
        for w, g in GOOD[k]:
            merged(lambda I: {k: g(I)}, f"ok {k} {w}", f"{k}: {w}")
            merged(lambda I: dict({q: GOOD[q][-1][1](I) for q in known if q != k and q != "quadrature_bounds"}, **{k: g(I)}), f"okfull {k} {w}", f"{k}: {w}, with the other options")
        for q in known:
            if q > k:
                merged(lambda I: {k: GOOD[k][0][1](I), q: GOOD[q][0][1](I)}, f"pair {k} {q}", f"{k} and {q}")
                merged(lambda I: {q: GOOD[q][-1][1](I), k: GOOD[k][-1][1](I)}, f"pair2 {k} {q}", f"{q} and {k}")
    r = accepted(ctx, V, lambda I: c(None), "none", "None")
    if r is not None:
        got = optcontent(r.I, r.ret, ctx, r)
        if got is None or set(got) != set(dflt) or not all(samedefault(r.I, base.I, got[k], dflt[k]) for k in dflt):
            ctx.find("default-changed", cm.fnnode(r), "without options the result is not the defaults", run=r, key="none")
    # the defaults are themselves valid
    accepted(ctx, V, lambda I: dct(I, {k: (Tup(list(v.items)) if isinstance(v, Tup) else v) for k, v in dflt.items() if k != "distribution"}), "defaults", "the defaults themselves")

    # --- rejection by the validator, alone and in company
    for k in known:
        for w, b in BAD[k]:
            rejected(ctx, V, lambda I: dct(I, {k: b(I)}), f"bad {k} {w}", f"{k}: {w}")
            rejected(ctx, V, lambda I: dct(I, dict(full(I, k), **{k: b(I)})), f"badlast {k} {w}", f"{k}: {w}, after valid options")
            rejected(ctx, V, lambda I: dct(I, dict([(k, b(I))] + list(full(I, k).items()))), f"badfirst {k} {w}", f"{k}: {w}, before valid options")
        for q in known:
            if q != k:
                b = BAD[k][0][1]
                rejected(ctx, V, lambda I: dct(I, {q: GOOD[q][0][1](I), k: b(I)}), f"badpair {k} {q}", f"{k}: {BAD[k][0][0]}, after a valid {q}")
                rejected(ctx, V, lambda I: dct(I, {k: b(I), q: GOOD[q][0][1](I)}), f"badpair2 {k} {q}", f"{k}: {BAD[k][0][0]}, before a valid {q}")
    for u in UNKNOWN:
        rejected(ctx, V, lambda I: dct(I, {u: c(1)}), f"unk {u!r}", f"unknown option {u!r}")
        rejected(ctx, V, lambda I: dct(I, dict(full(I), **{"Bad Key": c(1)}) if not isinstance(u, str) else {**full(I), u: c(1)}), f"unkfull {u!r}", f"unknown option {u!r} with valid options")
    for w, b in NONDICT:
        rejected(ctx, V, b, f"nondict {w}", f"{w} instead of a dictionary")

    # --- every entry point validates
    for n in E.ENTRIES:
        e = E.ENTRIES[n]
        if not takes_options(ctx, n):
            continue
        ctx.count("entry points taking options")
        scs = cm.scenarios(n, ctx.tier) if ctx.tier == "thorough" else cm.scenarios(n, ctx.tier)[:1]
        for sc in scs:
            for k in known:
                bads = BAD[k] if ctx.tier == "thorough" else [BAD[k][0], BAD[k][-1]]
                for w, b in bads:
                    rejected(ctx, n, lambda I: dct(I, {k: b(I)}), f"bad {k} {w} {sc}", f"{k}: {w}", sc)
            rejected(ctx, n, lambda I: dct(I, {"Bad Key": c(1)}), f"unk {sc}", "an unknown option", sc)
            for w, b in (NONDICT[1], NONDICT[4], NONDICT[7]):
                rejected(ctx, n, b, f"nondict {w} {sc}", f"{w} instead of a dictionary", sc)
    ctx.need("documented options", 10)
    ctx.need("entry points taking options", 22)
    return ("The validator and every estimator / scorer that takes options are interpreted with one abstract or concrete value per class "
            "(wrong type, below the limit, at the limit, unknown name, non-dictionary), alone, first, last and paired with valid options. An "
            "invalid value must leave no path to a normal return; a valid dictionary must leave no path to an exception, and the result must "
            "hold exactly the supplied value per supplied name and the value of default_options() per other name. Defaults stated in the "
            "documentation of default_options are compared with the values in its source.")


def call_defaults(ctx):
    return ctx.run(D, {}, lambda I, sc: {}, tagdef=False, tag="raw")


def takes_options(ctx, n):
    if n in (V, "girth.standard_errors_bootstrap"):
        return False
    fn = E.resolve(ctx.base, n)
    if not isinstance(fn, Fn):
        return False
    a = fn.node.args
    return "options" in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def documented(ctx, base, dflt):
    """`name: ... Default = value` in the documentation"""
    fn = E.resolve(base.I, D)
    doc = ast.get_docstring(fn.node) or ""
    keys = "|".join(map(re.escape, dflt))
    parts = re.split(r"(?m)^\s*(" + keys + r")\s*:", doc)
    for k, body in zip(parts[1::2], parts[2::2]):
        m = re.search(r"[Dd]efault\s*=?\s*:?\s*(\([^()]*\)|True|False|None|-?[0-9.]+)", body)
        if not m:
            continue
        try:
            want = ast.literal_eval(m.group(1).rstrip("."))
        except (ValueError, SyntaxError):
            continue
        ctx.count("documented defaults compared")
        v = dflt[k]
        have = tuple(x.f.itv[0] if isinstance(x, Sc) else None for x in v.items) if isinstance(v, Tup) else (v.f.itv[0] if isinstance(v, Sc) else None)
        if have != want:
            ctx.find("documented-default", fn.node, f"{k}: documented default {want}, actual {have}", run=base, key=k)
