"""C15: documented fields, one entry per item / respondent in the dataset's order, for data of any size."""
from .. import entries as E
from .. import npmodel
from .. import terms as tm
from ..terms import const, sym, mk
from ..values import *   # noqa
from . import common as cm

ASSUMPTIONS = ["a two-parameter (dichotomous) dataset holds at most two distinct valid responses per item"]

# d items, p respondents, f factors, w thresholds of the item with most categories, v = 2w+1 unfolding thresholds
METRICS = {"AIC.final": "", "AIC.null": "", "AIC.delta": "", "BIC.final": "", "BIC.null": "", "BIC.delta": ""}
UNI = {"Discrimination": "d", "Ability": "p", "LatentPDF": None, **METRICS}
MDF = {"Discrimination": "df", "Ability": "fp", "LatentPDF": None, "AIC": None, "BIC": None}
FIELDS = {
    "girth.rasch_jml": {"Difficulty": "d", "Discrimination": ("", "d")}, "girth.rasch_conditional": {"Difficulty": "d", "Discrimination": ("", "d")},
    "girth.rasch_mml": {"Difficulty": "d", "Discrimination": ("", "d")}, "girth.onepl_mml": {"Difficulty": "d", "Discrimination": ""},
    "girth.onepl_jml": {"Difficulty": "d", "Discrimination": ""}, "girth.twopl_jml": {"Difficulty": "d", "Discrimination": "d"},
    "girth.threepl_mml": {"Difficulty": "d", "Discrimination": "d", "Guessing": "d"},
    "girth.grm_jml": {"Difficulty": "dw", "Discrimination": "d"}, "girth.pcm_jml": {"Difficulty": "dw", "Discrimination": "d"},
    "girth.twopl_mml": {"Difficulty": "d", **UNI}, "girth.twopl_mml_eap": {"Difficulty": "d", "Rayleigh_Scale": "", **UNI},
    "girth.grm_mml": {"Difficulty": "dw", **UNI}, "girth.grm_mml_eap": {"Difficulty": "dw", "Rayleigh_Scale": "", **UNI},
    "girth.pcm_mml": {"Difficulty": "dw", **UNI}, "girth.gum_mml": {"Delta": "d", "Tau": "dw", "Difficulties": "dv", **UNI},
    "girth.multidimensional_twopl_mml": {"Difficulty": "d", **MDF}, "girth.multidimensional_grm_mml": {"Difficulty": "dw", **MDF},
    "girth.classical_test_statistics": {k: "d" for k in ("Item Counts", "Mean", "Std", "Cronbach Alpha", "Item-Score Correlation", "Polyserial Correlation")},
}
SCORES = {n: "p" for n in ("girth.ability_mle", "girth.ability_map", "girth.ability_eap", "girth.ability_3pl_mle", "girth.ability_3pl_map", "girth.ability_3pl_eap")}
SCORES.update({"girth.multidimensional_ability_map": "fp", "girth.multidimensional_ability_eap": "fp"})
FACTOR = {"girth.factoranalysis.maximum_likelihood_factor_analysis": ("df", "f", "d"), "girth.factoranalysis.minimum_rank_factor_analysis": ("df", "f", "d"),
          "girth.factoranalysis.principal_axis_factor": ("df", "f", "d"), "girth.factoranalysis.principal_components_analysis": ("df", "f", "d"),
          "girth.factoranalysis.sparsify_loadings": ("df", "ff")}
PERITEM = ("Discrimination", "Difficulty", "Guessing", "Delta", "Tau", "Difficulties")


def sized(name, items, people, nf):
    """build with some sizes fixed"""
    e = E.ENTRIES[name]

    def b(I, sc):
        a = e.build(I, sc)
        d = E.ITEMS if items is None else const(items)
        p = E.PEOPLE if people is None else const(people)
        if "dataset" in a:
            a["dataset"] = E.dataset(I, lo=0, hi=1 if "dich" in e.tags else 100, shape=(d, p), pdim=items is None and people is None)
        if items is not None:
            for k in ("difficulty", "discrimination", "guessing"):
                if k in a and isinstance(a[k], Arr):
                    s, f = I.rd(a[k])
                    a[k] = E.arr_param(I, k, (d,) + tuple(s[1:]), f.itv)
        if nf is not None:
            if "n_factors" in a:
                a["n_factors"] = Sc(cF(nf).w(deps=frozenset(["arg:n_factors"])))
            elif "md" in e.tags:
                npmodel.MINDIM.clear()
                s, f = I.rd(a["discrimination"])
                a["discrimination"] = E.arr_param(I, "discrimination", (s[0], const(nf)), f.itv)
        return a
    return b


class Shapes:
    def __init__(self, ctx, r, items, people, nf):
        self.ctx, self.r, self.I = ctx, r, r.I
        self.dich = "dich" in E.ENTRIES[r.name].tags if r.name in E.ENTRIES else False
        self.dim = {"d": E.ITEMS if items is None else const(items), "p": E.PEOPLE if people is None else const(people)}
        if nf is not None:
            self.dim["f"] = const(nf)
        elif "score" in E.ENTRIES[r.name].tags:
            self.dim["f"] = sym("dim", "discrimination", 1)
        else:
            self.dim["f"] = sym("arg", "n_factors")
        self.alt = {"d": items, "p": people, "f": nf}

    def widths(self, d):
        """largest category counts a dimension is computed from"""
        return [u for u in tm.subterms(d).values() if (u.op == "red" and u.args[0] in ("max", "nanmax") or u.op in ("max2", "fold", "ulen") and u.op != "ulen")
                and tm.contains(u, lambda q: q.op in ("ulen", "udim"))]

    def wide(self, s, k):
        """the width is k thresholds short of nothing: k * (largest category count) - 1"""
        p = dict(tm.poly(s))
        c = p.pop((), 0)
        ids = tm.subterms(s)
        if not p:
            return "whatever the number of categories"
        if len(p) != 1 or len(next(iter(p))) != 1 or next(iter(p))[0][1] != 1:
            self.ctx.count("shapes not determined")
            return None
        (((a, _),), coef), = p.items()
        u = ids.get(a)
        counted = u is not None and tm.contains(u, lambda q: q.op in ("ulen", "udim"))
        if not counted or u.op not in ("red", "ix", "ulen", "max2"):
            self.ctx.count("shapes not determined")
            return None
        if u.op == "red" and u.args[0] in ("max", "nanmax"):
            q = tm.poly(u.args[2])
            c += coef * q.get((), 0)
            if len(q) - (() in q) != 1:
                self.ctx.count("shapes not determined")
                return None
            if (coef, c) != (k, -1):
                return f"which is not {'twice ' if k == 2 else ''}the largest number of categories less one"
            return None
        if u.op == "ix" and self.alt["d"] is None and any(isinstance(x, tm.T) and tm.num_const(x) is not None for x in u.args[1:]):
            return "which follows one item, not the item with most categories"
        if u.op == "red" and u.args[0] in ("min", "nanmin", "mean", "sum", "nanmean", "median"):
            return "which does not follow the item with most categories"
        self.ctx.count("shapes not determined")
        return None

    def norm(self, d):
        """dichotomous data: two categories"""
        if not self.dich:
            return d
        ws = [u for u in self.widths(d) if u.op == "red"]
        for u in ws:
            if not any(u is not x and tm.contains(x, lambda q: q is u) for x in ws):
                d = tm.replace(d, {u: const(2)})
        return d

    def match(self, spec, shape):
        """None when the shape agrees (or cannot be told), else why not"""
        if shape is None:
            self.ctx.count("shapes not determined")
            return None
        self.ctx.count("result shapes compared")
        shape = tuple(self.norm(s) for s in shape)
        if len(shape) != len(spec):
            return f"has {len(shape)} dimension(s) instead of {len(spec)}"
        for c, s in zip(spec, shape):
            if c in "wv":
                k = 2 if c == "v" else 1
                if self.dich:
                    continue
                why = self.wide(s, k)
                if why:
                    return f"is {tm.show(s, -6)[:80]} wide, {why}"
                continue
            want = self.dim[c]
            if tm.same(s, want):
                continue
            if tm.num_const(s) is None and tm.num_const(want) is None and s.op not in ("sym", "add", "mul", "seldim", "udim", "ulen", "len", "count", "floordiv", "sldim"):
                self.ctx.count("shapes not determined")
                continue
            if s.op == "sym" and s.args[0] not in ("dim", "arg", "opt"):
                continue
            return f"has {tm.show(s, -4)[:80]} entries instead of {'one per item' if c == 'd' else 'one per respondent' if c == 'p' else 'one per factor'} ({tm.show(want)})"
        return None

    def order(self, t, axis, n):
        """operations that move the entries of an axis, peeled from the outside of a result"""
        todo, seen = [t], set()
        while todo:
            u = todo.pop()
            if u.id in seen or len(seen) > 60:
                continue
            seen.add(u.id)
            if u.op in ("add", "mul", "div", "sub", "abs", "cast", "copy", "asarray", "where", "ite", "join", "inv", "exp", "log", "sqrt"):
                todo += [x for x in u.args if isinstance(x, tm.T)]
            elif u.op in ("sort", "roll", "argsort", "permutation", "shuffle"):
                return u
            elif u.op == "ix":
                key = list(u.args[1:])
                k = key[axis] if len(key) > axis else None
                if isinstance(k, tm.T) and k.op == "slice" and tm.num_const(k.args[2]) == -1:
                    return u
                if all(isinstance(x, tm.T) and (x.op == "const" and x.args[0] == ":" or x.op == "slice") for x in key):
                    todo.append(u.args[0])
        return None


def check(ctx):
    for name, spec in FIELDS.items():
        est = "est" in E.ENTRIES[name].tags
        md = "md" in E.ENTRIES[name].tags
        cases = [(None, None, None), (1, None, None)] if est and not md else [(None, None, None)]
        if md:
            cases += [(None, None, 2), (None, None, 3)]
        if est:
            cases += [(2, None, None)] if not md else []
        scens = cm.scenarios(name, ctx.tier)
        for i, c in enumerate(cases):
            for sc in (scens if i == 0 else scens[:1] if ctx.tier == "quick" else scens):
                r = ctx.run(name, dict(sc, items=c[0], people=c[1], factors=c[2]), sized(name, *c) if any(c) else None, tag="c15")
                cm.must_return(ctx, r)
                fields(ctx, Shapes(ctx, r, *c), spec, sc)
    for name, spec in SCORES.items():
        md = "md" in E.ENTRIES[name].tags
        for c in [(None, None, None), (None, 1, None), (1, None, None), (1, 1, None), (None, 2, None)] + ([(None, 1, 2), (1, 1, 2), (2, None, 2), (None, 2, 2)] if md else []):
            r = ctx.run(name, {"items": c[0], "people": c[1], "factors": c[2]}, sized(name, *c) if any(c) else None, tag="c15")
            cm.must_return(ctx, r)
            s = Shapes(ctx, r, *c)
            for p, shape, f, v in cm.retfacts(r):
                report(ctx, s, "abilities", spec, shape, f, where(c))
    for name, spec in FACTOR.items():
        for sc in cm.scenarios(name, ctx.tier):
            r = ctx.run(name, dict(sc), tag="c15")
            cm.must_return(ctx, r)
            s = Shapes(ctx, r, None, None, None)
            if name.endswith("sparsify_loadings"):
                s.dim = {"d": sym("dim", "loadings", 0), "f": sym("dim", "loadings", 1)}
            else:
                s.dim = {"d": E.SQ, "f": sym("arg", "n_factors")}
            out = r.I.items_of(r.ret)
            if out is None or len(out) != len(spec):
                if out is not None:
                    ctx.find("fields", cm.fnnode(r), f"{name} returns {len(out)} values instead of the documented {len(spec)}", run=r, key=f"{name}:count")
                continue
            for i, (v, sp) in enumerate(zip(out, spec)):
                shape, f = r.I.rd(v) if isinstance(v, (Sc, Arr, Unk)) else (None, None)
                if f is not None:
                    report(ctx, s, f"value {i}", sp, shape, f, "")
    ctx.need("result shapes compared", 50)
    return ("The shape of every documented field is computed symbolically in the numbers of items, respondents, factors and categories and compared with the "
            "documented shape, then again with a single item, two items, a single respondent and both, where axes of length one can vanish. Results whose "
            "item or respondent axis was sorted, rolled or reversed on the way out are reported.")


def where(c):
    parts = [f"{n} {w}" for n, w in zip(c, ("item(s)", "respondent(s)", "factors")) if n is not None]
    return " for " + ", ".join(parts) if parts else ""


def report(ctx, s, field, spec, shape, f, wh):
    r = s.r
    specs = spec if isinstance(spec, tuple) else (spec,)
    whys = [s.match(sp, shape) for sp in specs]
    if all(whys):
        ctx.find("shape", cm.fnnode(r), f"{r.name}: {field} {whys[-1]}{wh}", run=r, key=f"{r.name}:{field}")
        return
    sp = specs[[bool(w) for w in whys].index(False)]
    for ax, c in enumerate(sp):
        if c in "dp":
            u = s.order(f.term, ax, len(sp))
            ctx.count("axis orders examined")
            if u is not None:
                ctx.find("order", cm.fnnode(r), f"{r.name}: the {'items' if c == 'd' else 'respondents'} of {field} are rearranged ({tm.show(u, -3)[:80]})", run=r, key=f"{r.name}:{field}:order")


def fields(ctx, s, spec, sc):
    r, I = s.r, s.I
    dicts = [x for x in I.alts(r.ret) if isinstance(x, Ref) and isinstance(I.c(x.loc), DictC)]
    if not dicts:
        ctx.find("fields", cm.fnnode(r), f"{r.name} does not return a dictionary of its documented fields", run=r, key=f"{r.name}:dictionary")
        return
    for path, shape in spec.items():
        v = r.ret
        for k in path.split("."):
            v = cm.field(I, v, k) if v is not None else None
        ctx.count("documented fields")
        missing = v is None or any(maybe(I, d, path.split(".")) for d in dicts)
        if missing:
            ctx.find("fields", cm.fnnode(r), f"{r.name} returns no field {path!r}" + (" on some path" if v is not None else ""), run=r, key=f"{r.name}:{path}")
            continue
        if shape is None:
            continue
        for x in I.alts(v):
            if isinstance(x, Sc) and x.f.term is tm.NONE:
                ctx.find("fields", cm.fnnode(r), f"{r.name}: field {path!r} is None", run=r, key=f"{r.name}:{path}")
                continue
            if isinstance(x, (Sc, Arr, Unk)):
                sh, f = I.rd(x)
                report(ctx, s, path, shape, sh, f, where((s.alt["d"], s.alt["p"], s.alt["f"])))


def maybe(I, d, path):
    """the dictionary lacks the key on some path"""
    for k in path:
        c = I.c(d.loc) if isinstance(d, Ref) else None
        if not isinstance(c, DictC):
            return False
        if k not in c.keys or k in c.maybe:
            return True
        d = c.keys[k]
    return False
