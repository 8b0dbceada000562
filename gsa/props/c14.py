"""C14: a call outside the documented domain raises; calls inside it do not."""
from .. import entries as E
from .. import rows
from .. import terms as tm
from ..interp import Budget
from ..loader import AnalysisBroken
from ..terms import const, sym
from ..values import *   # noqa
from . import common as cm

ASSUMPTIONS = ["assertions are enabled as ordinary raise statements; 'python -O' removes no check that the rules rely on",
               "an item table has at least one item",
               "unequal unfolding thresholds differ by more than the tolerance the code allows"]
MML = ("girth.multidimensional_twopl_mml", "girth.multidimensional_grm_mml")
SCORE = ("girth.multidimensional_ability_map", "girth.multidimensional_ability_eap")
POLY = "girth.synthetic.create_synthetic_irt_polytomous"
DICH = "girth.synthetic.create_synthetic_irt_dichotomous"
REV = "girth.common.reverse_score"


def num(name, lo, hi=None, dt="i"):
    if hi is None:
        return Sc(cF(lo).w(deps=frozenset(["arg:" + name])))
    return Sc(F(sym("arg", name), (lo, hi), dt, frozenset(["arg:" + name])))


def factors(name, v):
    """v: number or interval of factors"""
    def b(I, sc):
        if name in SCORE:
            a = E.ENTRIES[name].build(I, sc)
            from .. import npmodel
            npmodel.MINDIM.clear()
            a["discrimination"] = E.arr_param(I, "discrimination", (E.ITEMS, const(v)))
            return a
        a = E.ENTRIES[name].build(I, sc)
        a["n_factors"] = num("n_factors", *v) if isinstance(v, tuple) else num("n_factors", v)
        return a
    return b


class Dom:
    def __init__(self, ctx):
        self.ctx = ctx

    def out(self, name, what, build, sc=None):
        """an input outside the domain: no path may return"""
        self.go(name, what, build, sc, False)

    def inside(self, name, what, build, sc=None):
        self.go(name, what, build, sc, True)

    def go(self, name, what, build, sc, ok):
        r = self.ctx.run(name, dict(sc or {}, case=what), build)
        self.judge(r, name, what, ok, cm.fnnode(r))

    def judge(self, r, name, what, ok, node):
        ctx = self.ctx
        ctx.count("inputs inside the domain" if ok else "inputs outside the domain")
        I = r.I
        if ok and (I.heap is None or any(self.refusal(I, e) for e in I.evs("raise"))):
            ev = [e for e in I.evs("raise") if I.heap is None or self.refusal(I, e)]
            n = ev[-1].node if ev else node
            ctx.find("refused", n, f"{name} refuses an input of its domain: {what}", ctx=ev[-1].ctx if ev else None, run=r, key=f"{name}:{what}")
        elif not ok and I.heap is not None:
            ctx.find("processed", node, f"{name} returns a result although the input is outside its domain: {what}", run=r, key=f"{name}:{what}")

    def refusal(self, I, e):
        """raised under a condition on the thresholds that the domain facts do not exclude"""
        j = getattr(I, "judge", None)
        return j is not None and e.d.get("explicit") and any(tm.contains(t, lambda u: u is j.arr) for t in e.d.get("ctrl", ()))


def table(model, m, facts=None, thresholds="difficulty"):
    def b(I, sc):
        from .. import npmodel
        a = E.ENTRIES[POLY].build(I, dict(sc, model=model))
        npmodel.MINDIM.clear()
        a["difficulty"] = E.arr_param(I, "difficulty", (E.NI, const(m)))
        if facts is not None:
            j = rows.Judge(sym("in", "difficulty"), m, facts)
            I.hooks["decide"] = j
            I.judge = j
        return a
    return b


def check(ctx):
    d = Dom(ctx)
    # number of factors
    for name in MML:
        for v in ((-INF, 1), 1, 0):
            d.out(name, f"number of factors {v if not isinstance(v, tuple) else 'at most 1'}", factors(name, v))
        for v in (2, 3, 10):
            d.inside(name, f"{v} factors", factors(name, v))
        for v in (11, 12, 27):
            d.out(name, f"{v} factors in the tensor-product grid", factors(name, v))
    for name in SCORE:
        d.out(name, "discriminations for 1 factor", factors(name, 1))
        d.out(name, "discriminations for 0 factors", factors(name, 0))
        for v in (2, 3, 10):
            d.inside(name, f"{v} factors", factors(name, v))
    for v in (11, 27):
        d.out(SCORE[1], f"{v} factors in the tensor-product grid", factors(SCORE[1], v))

    # polytomous generator: model, number, order and symmetry of thresholds
    for m in ("boom", "", "grmx", "2pl", "gr"):
        d.out(POLY, f"model {m!r}", lambda I, sc, m=m: E.ENTRIES[POLY].build(I, dict(sc, model=m)))
    for m in ("grm", "pcm", "grm_md", "GRM", "Pcm", "GRM_MD"):
        for k in (2, 3, 6):
            facts = rows.Order(k, None) if m.lower() in ("grm",) else rows.Order(k, {i: -1 for i in range(k - 1)}) if m.lower() == "grm_md" else None
            d.inside(POLY, f"{k} thresholds, model {m}", table(m, k, facts))
    for m in ("gum", "Gum"):
        for k in (3, 5, 7):
            d.inside(POLY, f"{k} symmetric thresholds, model {m}", table(m, k, rows.Symmetry(k, None)))
    for m in ("grm", "pcm", "gum", "grm_md", "GRM"):
        d.out(POLY, f"a single threshold, model {m}", table(m, 1))
    for m in ("grm", "GRM"):
        for k in (2, 3, 5):
            for bad in range(k - 1):
                d.out(POLY, f"{k} thresholds, number {bad + 2} below number {bad + 1} in some item, model {m}", table(m, k, rows.Order(k, {bad: -1})))
    k = 4
    d.out(POLY, "thresholds in no consistent order, model grm_md", table("grm_md", k, rows.Order(k, {0: 1, 1: -1})))
    for m in ("gum", "GUM"):
        for k in (2, 4, 6):
            d.out(POLY, f"{k} thresholds (even), model {m}", table(m, k, rows.Symmetry(k, None)))
        for k in (3, 5, 7):
            for bad in range((k - 1) // 2):
                d.out(POLY, f"{k} thresholds, pair {bad + 1} not symmetric in some item, model {m}", table(m, k, rows.Symmetry(k, bad)))

    # discrimination of the dichotomous generator
    def disc(*shape):
        def b(I, sc):
            a = E.ENTRIES[DICH].build(I, sc)
            a["discrimination"] = E.arr_param(I, "discrimination", (E.NI,) + tuple(sym("dim", "discrimination", i + 1) for i in range(shape[0] - 1)))
            if shape[0] > 1:
                a["thetas"] = E.arr_param(I, "thetas", (sym("dim", "discrimination", 1), E.NP))
            return a
        return b

    def atleast(n, b):
        def g(I, sc):
            a = b(I, sc)
            from .. import npmodel
            npmodel.MINDIM[E.NI] = 2
            for i in range(1, n):
                npmodel.MINDIM[sym("dim", "discrimination", i)] = 2
            return a
        return g
    for n in (3, 4):
        d.out(DICH, f"discrimination with {n} dimensions", atleast(n, disc(n)))
    for n in (1, 2):
        d.inside(DICH, f"discrimination with {n} dimension(s)", disc(n))
    d.inside(DICH, "a number as discrimination", None, {"discr": "scalar"})

    # reverse scoring
    def mask(items, n):
        def b(I, sc):
            return {"dataset": E.dataset(I, shape=(const(items), E.PEOPLE)), "mask": E.arr_param(I, "mask", (const(n),), (0, 1), "b"),
                    "max_val": E.scalar(I, "max_val", (1, 100), "i")}
        return b
    for items, n in ((4, 3), (4, 5), (4, 1), (4, 2), (1, 4), (4, 0)):
        d.out(REV, f"a mask of length {n} for {items} items", mask(items, n))
    for items in (1, 4):
        d.inside(REV, f"a mask of length {items} for {items} items", mask(items, items))
    # every item has as many responses as there are mask entries: the lengths that count are those of the items
    for items, n in ((4, 3), (4, 5)):
        d.out(REV, f"a mask with one entry per respondent ({n}) for {items} items",
              lambda I, sc, items=items, n=n: dict(mask(items, n)(I, sc), dataset=E.dataset(I, shape=(const(items), const(n)))))

    # spline density
    def spline(n, then):
        def call(I, sc):
            cls = E.resolve(I, "girth.utilities.CubicSplinePDF")
            loc = ("h", "param", "spline_options")
            I.heap[loc] = DictC({"number_of_samples": num("number_of_samples", n), "quadrature_bounds": E.opt_value("quadrature_bounds")})
            o = I.call(cls, [Ref(loc)], {}, E.SITE)
            return then(I, o) if I.heap is not None else None
        return call

    def setcoef(size, how="array"):
        def then(I, o):
            g = I.getattr(o, "update_coefficients", E.SITE)
            v = E.arr_param(I, "new_coefficients", size) if how == "array" else E.scalar(I, "new_coefficients")
            return I.call(g, [v], {}, E.SITE)
        return then
    res = find_fn(ctx, "resample")
    cnode = find_fn(ctx, "update_coefficients")
    for n in (5, 11):
        for size, ok in (((const(n),), True), ((const(n - 1),), False), ((const(n + 1),), False), ((const(n + 4),), False), ((const(1),), False),
                         ((const(1), const(n)), True), ((const(2), const(n)), False), ((const(0),), False)):
            what = f"coefficients of shape ({', '.join(tm.show(s) for s in size)}) for {n} samples"
            if size == (const(1), const(n)):
                continue
            r = ctx.custom("girth.utilities.CubicSplinePDF.update_coefficients", {"case": what}, spline(n, setcoef(size)))
            d.judge(r, "update_coefficients", what, ok, cnode[1] if cnode else None)
        r = ctx.custom("girth.utilities.CubicSplinePDF.update_coefficients", {"case": f"a number for {n} samples"}, spline(n, setcoef(None, "scalar")))
        d.judge(r, "update_coefficients", f"a single number as coefficients for {n} samples", False, cnode[1] if cnode else None)
        if res is None:
            raise AnalysisBroken("function resample not found")
        for new, ok in ((n, False), (n + 2, True), (7, True)):
            what = f"resampling a density of {n} samples to {new}"

            def then(I, o, new=new):
                return I.call(E.resolve(I, res[0] + ".resample"), [o, num("new_number_of_samples", new)], {}, E.SITE)
            r = ctx.custom(res[0] + ".resample", {"case": what}, spline(n, then))
            d.judge(r, "resample", what, ok, res[1])
    return ("Every documented domain restriction is analysed with abstract inputs on both sides of its boundary (constant or interval for sizes and "
            "numbers of factors, concrete lengths for masks and coefficients, order or symmetry facts on a generic item row for thresholds). Outside "
            "the domain no path through the call may reach a normal exit; inside it one must.")


def find_fn(ctx, name):
    """(module, node) of the function with this name"""
    import ast
    for mod, m in sorted(ctx.proj.mods.items()):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.FunctionDef) and n.name == name:
                return mod, n
    return None
