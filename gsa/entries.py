"""Public calls of the package and the abstract arguments they are analysed with."""
from . import terms as tm
from .terms import mk, const, sym, SENT
from .values import (F, cF, Sc, Arr, Tup, Ref, Fn, Ext, Cls, Prim, U, Unk, ArrC, ListC, DictC, ObjC, INF, TOP, EMPTY)
from .interp import Interp
from .loader import Project, AnalysisBroken

ITEMS = sym("dim", "dataset", 0)
PEOPLE = sym("dim", "dataset", 1)
SRC = ("dataset", ("ax", 0), ("ax", 1))

OPT_KEYS = ("max_iteration", "distribution", "quadrature_bounds", "quadrature_n", "hyper_quadrature_n", "use_LUT",
            "estimate_distribution", "number_of_samples", "initial_guess", "num_processors")
BOOLS = ("use_LUT", "estimate_distribution", "initial_guess")


def prepare(repo="/repo", proj=None):
    """an interpreter with every module of the package loaded"""
    proj = proj or Project(repo)
    I = Interp(proj)
    for name in sorted(proj.mods):
        I.load(name)
    own_globals(I)
    I.phase = "run"
    I.params = {}
    I.nimport = len(I.ctxinfo)
    return I


def own_globals(I):
    seen = set()

    def walk(v, name, d=0):
        if d > 6 or v is None:
            return
        if isinstance(v, U):
            for x in v.vals:
                walk(x, name, d)
        elif isinstance(v, Tup):
            for x in v.items:
                walk(x, name, d + 1)
        elif isinstance(v, Fn):
            for x in v.defs:
                walk(x, f"default argument of {v.qual}", d + 1)
            for x in v.kwdefs.values():
                walk(x, f"default argument of {v.qual}", d + 1)
            if v.node is not None and ("fattr", id(v.node)) in I.heap:
                pass
        elif isinstance(v, (Arr, Ref)):
            if v.loc in seen:
                return
            seen.add(v.loc)
            I.owner.setdefault(v.loc, ("global", name))
            c = I.c(v.loc)
            if isinstance(c, ListC):
                for x in (c.items if c.items is not None else [c.elem]):
                    walk(x, name, d + 1)
            elif isinstance(c, DictC):
                for x in list(c.keys.values()) + [c.rest]:
                    walk(x, name, d + 1)
            elif isinstance(c, ObjC):
                for k, x in c.attrs.items():
                    walk(x, f"{name}.{k}", d + 1)
        elif isinstance(v, Cls):
            walk(Ref(v.loc) if v.loc is not None else None, f"class {v.qual}", d + 1)
    for k in list(I.heap):
        if k[0] == "g":
            walk(I.heap[k], f"{k[1]}.{k[2]}")
    for k in list(I.heap):
        if k[0] == "h" and k not in seen:
            I.owner.setdefault(k, ("global", "an object created while importing"))


def clone(base):
    I = Interp(base.proj, base.max_steps)
    I.heap = dict(base.heap)
    I.owner = dict(base.owner)
    I.loaded = dict(base.loaded)
    I.ctxs = dict(base.ctxs)
    I.ctxinfo = list(base.ctxinfo)
    I.dimdeps = dict(base.dimdeps)
    I.phase = "run"
    I.params = {}
    I.nimport = base.nimport
    I.unmodelled = {k: set(v) for k, v in base.unmodelled.items()}
    return I


# ----------------------------------------------------------------- arguments
def arr_param(I, name, shape, itv=TOP, dt="f", pl=None, miss=None, deps=None, owner=True, props=EMPTY):
    loc = ("h", "param", name)
    if dt == "inh:par":
        dt = "inh:p." + name
    if I.codes is not None and name in I.codes.leaves:
        itv = (-9e4, 1e6)
    f = F(sym("in", name), itv, dt, frozenset(["arg:" + name]) if deps is None else deps, pl, miss, props=props)
    I.heap[loc] = ArrC(tuple(shape), f)
    if I.params is not None:
        I.params[name] = (tuple(shape), f)
    if owner:
        I.owner[loc] = ("param", name)
    return Arr(loc)


def dataset(I, name="dataset", lo=0, hi=100, missing=True, dt=None, pdim=True, shape=None):
    sh = shape or (ITEMS, PEOPLE)
    if pdim and len(sh) == 2:
        I.pdims = {sh[1]}
    src = (name, ("ax", 0), ("ax", 1)) if len(sh) == 2 else None
    miss = {src: (SENT, (-99999, -99999))} if missing and src else None
    return arr_param(I, name, sh, (lo, hi), dt or ("inh:" + name), ("ax", 1) if pdim and len(sh) == 2 else None, miss)


def scalar(I, name, itv=TOP, dt="f", const_=None):
    if const_ is not None:
        return Sc(cF(const_))
    if I.codes is not None and name in I.codes.leaves:
        itv = (-9e4, 1e6)
    f = F(sym("arg", name), itv, dt, frozenset(["arg:" + name]))
    if I.params is not None:
        I.params[name] = ((), f)
    return Sc(f)


def opt_value(k, bools=None, scale=None):
    d = frozenset(["opt:" + k])
    if k == "distribution":
        return Prim("usercall", label="opt:distribution", deps=d, itv=(0, INF))
    if k == "quadrature_bounds":
        return Tup([Sc(F(sym("opt", k, 0), TOP, "f", d)), Sc(F(sym("opt", k, 1), TOP, "f", d))])
    if k in BOOLS:
        if bools is not None and bools.get(k) is not None:
            return Sc(cF(bools[k]).w(deps=d))
        return Sc(F(sym("opt", k), (0, 1), "b", d))
    lo = {"max_iteration": 1, "quadrature_n": 8, "hyper_quadrature_n": 8, "number_of_samples": 5, "num_processors": 1}[k]
    return Sc(F(sym("opt", k), (lo, INF), "i", d))


def options(I, keys=OPT_KEYS, bools=None):
    loc = ("h", "param", "options")
    I.heap[loc] = DictC({k: opt_value(k, bools) for k in keys})
    I.owner[loc] = ("param", "options")
    return Ref(loc)


def tag_defaults(I, out):
    """values handed out by default_options() carry the label default:<option>"""
    for r in I.alts(out):
        c = I.c(r.loc) if isinstance(r, Ref) else None
        if not isinstance(c, DictC):
            continue
        I.ev("defaults", None, key=r.loc, raw=dict(c.keys))
        keys = {}
        for k, v in c.keys.items():
            d = frozenset([f"default:{k}"])
            if k == "distribution":
                keys[k] = Prim("usercall", label="default:distribution", deps=d, itv=(0, INF))
            elif isinstance(v, Tup):
                keys[k] = Tup([Sc(x.f.w(deps=x.f.deps | d)) if isinstance(x, Sc) else x for x in v.items])
            elif isinstance(v, Sc):
                keys[k] = Sc(v.f.w(deps=v.f.deps | d))
            else:
                keys[k] = v
        I.heap[r.loc] = DictC(keys, c.maybe, c.rest, c.restkey)
    return out


# ------------------------------------------------------------------- entries
class Entry:
    """one public call: qual (dotted public name), build(I, sc) -> (args dict), tags"""
    def __init__(self, name, build, tags=(), scen=None, dist="poly", opts=()):
        self.name, self.build, self.tags, self.scen, self.dist, self.opts = name, build, set(tags), scen, dist, tuple(opts)


ENTRIES = {}


def entry(name, tags="", opts="", scen=None):
    def deco(fn):
        ENTRIES[name] = Entry(name, fn, tags.split(), scen, opts=opts.split())
        return fn
    return deco


def std(I, sc):
    o = sc.get("options", "all")
    if o == "none":
        return Sc(cF(None))
    if o == "all":
        return options(I, bools=sc)
    return options(I, keys=o, bools=sc)


def dich(I, sc):
    return dataset(I, lo=0, hi=1, missing=sc.get("missing", True), dt=sc.get("dt"))


def poly(I, sc):
    return dataset(I, lo=0, hi=100, missing=sc.get("missing", True), dt=sc.get("dt"))


def numberlike(I, name, sc, default=1):
    return scalar(I, name, (0.01, 20), "f")


def _est(dsfn, extra=None):
    def b(I, sc):
        out = {"dataset": dsfn(I, sc)}
        if extra:
            out.update(extra(I, sc))
        out["options"] = std(I, sc)
        return out
    return b


def _disc(I, sc):
    return {"discrimination": scalar(I, "discrimination", (0.01, 20), "f")}


def _nf(I, sc):
    return {"n_factors": Sc(F(sym("arg", "n_factors"), (2, 10), "i", frozenset(["arg:n_factors"])))}


for _n, _b, _t, _o in (
    ("girth.rasch_jml", _est(dich, _disc), "est dich jml", "max_iteration"),
    ("girth.onepl_jml", _est(dich), "est dich jml", "max_iteration"),
    ("girth.twopl_jml", _est(dich), "est dich jml", "max_iteration"),
    ("girth.rasch_conditional", _est(dich, _disc), "est dich cond", "max_iteration"),
    ("girth.rasch_mml", _est(dich, _disc), "est dich mml", "distribution quadrature_bounds quadrature_n"),
    ("girth.onepl_mml", _est(dich, lambda I, sc: {"alpha": Sc(cF(None)) if sc.get("alpha") is None else scalar(I, "alpha", (0.01, 20))}),
     "est dich mml", "distribution quadrature_bounds quadrature_n"),
    ("girth.twopl_mml", _est(dich), "est dich mml", "max_iteration distribution quadrature_bounds quadrature_n use_LUT estimate_distribution number_of_samples"),
    ("girth.twopl_mml_eap", _est(dich), "est dich mml", "max_iteration distribution quadrature_bounds quadrature_n hyper_quadrature_n estimate_distribution number_of_samples"),
    ("girth.threepl_mml", _est(dich), "est dich mml", "max_iteration distribution quadrature_bounds quadrature_n"),
    ("girth.grm_mml", _est(poly), "est poly mml", "max_iteration distribution quadrature_bounds quadrature_n use_LUT estimate_distribution number_of_samples"),
    ("girth.grm_mml_eap", _est(poly), "est poly mml", "max_iteration distribution quadrature_bounds quadrature_n hyper_quadrature_n estimate_distribution number_of_samples"),
    ("girth.grm_jml", _est(poly), "est poly jml", "max_iteration"),
    ("girth.pcm_mml", _est(poly), "est poly mml", "max_iteration distribution quadrature_bounds quadrature_n estimate_distribution number_of_samples"),
    ("girth.pcm_jml", _est(poly), "est poly jml", "max_iteration"),
    ("girth.gum_mml", _est(poly, lambda I, sc: {"delta_sign": Tup([Sc(F(sym("arg", "delta_sign", 0), (0, INF), "i", frozenset(["arg:delta_sign", "arg:delta_sign:0"]))),
                                                                    Sc(F(sym("arg", "delta_sign", 1), (-INF, INF), "i", frozenset(["arg:delta_sign", "arg:delta_sign:1"])))])}),
     "est poly mml", "max_iteration distribution quadrature_bounds quadrature_n estimate_distribution number_of_samples"),
    ("girth.multidimensional_twopl_mml", _est(dich, _nf), "est dich mml md", "max_iteration distribution quadrature_bounds quadrature_n initial_guess num_processors"),
    ("girth.multidimensional_grm_mml", _est(poly, _nf), "est poly mml md", "max_iteration distribution quadrature_bounds quadrature_n initial_guess num_processors"),
    ("girth.initial_guess_md", _est(poly, _nf), "md guess", "num_processors"),
):
    entry(_n, _t, _o)(_b)


def _vec(I, name, dim=ITEMS, itv=TOP, dt=None):
    return arr_param(I, name, (dim,), itv, dt or "f")


def _discr(I, sc):
    if sc.get("discr") == "scalar":
        return scalar(I, "discrimination", (0.01, 20))
    return _vec(I, "discrimination", itv=(0.01, 20), dt=sc.get("pdt"))


def _score(three=False, opts=True):
    def b(I, sc):
        out = {"dataset": dich(I, sc), "difficulty": _vec(I, "difficulty", dt=sc.get("pdt")), "discrimination": _discr(I, sc)}
        if three:
            out["guessing"] = scalar(I, "guessing", (0, 1)) if sc.get("discr") == "scalar" else _vec(I, "guessing", itv=(0, 1), dt=sc.get("pdt"))
        if opts:
            out["options"] = std(I, sc)
        else:
            out["no_estimate"] = scalar(I, "no_estimate")
        return out
    return b


entry("girth.ability_mle", "score dich")(_score(False, False))
entry("girth.ability_map", "score dich", "distribution")(_score())
entry("girth.ability_eap", "score dich", "distribution quadrature_bounds quadrature_n")(_score())
entry("girth.ability_3pl_mle", "score dich three")(_score(True, False))
entry("girth.ability_3pl_map", "score dich three", "distribution")(_score(True))
entry("girth.ability_3pl_eap", "score dich three", "distribution quadrature_bounds quadrature_n")(_score(True))


def _mdscore(I, sc):
    nf = sym("dim", "discrimination", 1)
    from . import npmodel
    npmodel.MINDIM[nf] = 2
    return {"dataset": poly(I, sc), "difficulty": arr_param(I, "difficulty", (ITEMS, sym("dim", "difficulty", 1)), dt=sc.get("pdt") or "f"),
            "discrimination": arr_param(I, "discrimination", (ITEMS, nf), dt=sc.get("pdt") or "f"), "options": std(I, sc)}


entry("girth.multidimensional_ability_map", "score poly md", "distribution")(_mdscore)
entry("girth.multidimensional_ability_eap", "score poly md", "distribution quadrature_bounds quadrature_n")(_mdscore)


@entry("girth.tag_missing_data", "util")
def _(I, sc):
    return {"dataset": dataset(I, missing=False, dt=sc.get("dt")),
            "valid_responses": Ref(_plist(I, "valid_responses", Sc(F(sym("in", "valid_responses"), TOP, "i", frozenset(["arg:valid_responses"])))))}


def _plist(I, name, elem):
    loc = ("h", "param", name)
    I.heap[loc] = ListC(None, elem, sym("dim", name, 0))
    I.owner[loc] = ("param", name)
    return loc


@entry("girth.validate_estimation_options", "util")
def _(I, sc):
    return {"options_dict": std(I, sc)}


@entry("girth.default_options", "util")
def _(I, sc):
    return {}


@entry("girth.condition_polytomous_response", "util")
def _(I, sc):
    return {"dataset": poly(I, sc), "trim_ends": Sc(F(sym("arg", "trim_ends"), (0, 1), "b", frozenset(["arg:trim_ends"]))),
            "_reference": scalar(I, "_reference")}


def _triple(I, name):
    return Tup([Sc(F(sym("arg", name, i), TOP if i < 2 else (2, INF), "f" if i < 2 else "i", frozenset(["arg:" + name]))) for i in range(3)])


@entry("girth.create_beta_LUT", "util", "distribution quadrature_bounds quadrature_n")
def _(I, sc):
    return {"alpha": _triple(I, "alpha"), "beta": _triple(I, "beta"), "options": std(I, sc)}


@entry("girth.standard_errors_bootstrap", "boot")
def _(I, sc):
    n = scalar(I, "n_processors", (2, INF), "i") if sc.get("parallel", True) else Sc(cF(1))
    out = {"dataset": poly(I, sc), "irt_model": Prim("usermodel", thresholds=bool(sc.get("thresholds"))), "bootstrap_iterations": scalar(I, "bootstrap_iterations", (1, INF), "i"),
           "n_processors": n, "options": std(I, sc), "seed": scalar(I, "seed", (0, INF), "i")}
    if sc.get("solution"):
        loc = ("h", "param", "solution")
        I.heap[loc] = DictC({k: arr_param(I, "solution." + k, (sym("dim", "irt", 0),)) for k in ("Difficulty", "Discrimination")})
        for k in ("Difficulty", "Discrimination"):
            I.owner[("h", "param", "solution." + k)] = ("param", "solution")
        I.owner[loc] = ("param", "solution")
        out["solution"] = Ref(loc)
    return out


@entry("girth.classical_test_statistics", "stat missing")
def _(I, sc):
    return {"dataset": poly(I, sc), "start_value": scalar(I, "start_value", dt="i"), "stop_value": scalar(I, "stop_value", dt="i")}


@entry("girth.mml_approx", "util missing")
def _(I, sc):
    out = {"dataset": dich(I, sc), "discrimination": scalar(I, "discrimination", (0.01, 20))}
    return out


@entry("girth.convert_responses_to_kernel_sign", "util missing")
def _(I, sc):
    return {"responses": dataset(I, "responses", 0, 1, sc.get("missing", True), sc.get("dt"))}


@entry("girth.get_true_false_counts", "util missing")
def _(I, sc):
    return {"responses": dataset(I, "responses", 0, 1, sc.get("missing", True), sc.get("dt"))}


@entry("girth.trim_response_set_and_counts", "util missing")
def _(I, sc):
    d = dataset(I, "response_sets", 0, 1, sc.get("missing", True), sc.get("dt"))
    return {"response_sets": d, "counts": arr_param(I, "counts", (PEOPLE,), (1, INF), "i", ("ax", 0))}


# common ---------------------------------------------------------------
@entry("girth.common.cronbach_alpha", "stat missing")
def _(I, sc):
    return {"data": dataset(I, "data", 0, 100, sc.get("missing", True), sc.get("dt"))}


@entry("girth.common.entropy", "num")
def _(I, sc):
    return {"the_array": arr_param(I, "the_array", (sym("dim", "the_array", 0), sym("dim", "the_array", 1)), dt=sc.get("pdt") or "f"),
            "axis": Sc(F(sym("arg", "axis"), (0, 1), "i", frozenset(["arg:axis"])))}


@entry("girth.common.hyperspherical_vector", "num")
def _(I, sc):
    return {"thetas": arr_param(I, "thetas", (sym("dim", "thetas", 0),), dt=sc.get("pdt") or "f")}


@entry("girth.common.hyperspherical_angles", "num")
def _(I, sc):
    return {"vector": arr_param(I, "vector", (sym("dim", "vector", 0),), dt=sc.get("pdt") or "f")}


def _pc(par):
    def b(I, sc):
        out = {"ordinal_data": dataset(I, "ordinal_data", 0, 100, sc.get("missing", True), sc.get("dt"), pdim=sc.get("mix") == "order"),
               "start_val": scalar(I, "start_val", (0, 10), "i"), "stop_val": scalar(I, "stop_val", (1, 100), "i")}
        if par:
            out["num_processors"] = Sc(cF(1)) if sc.get("serial") else scalar(I, "num_processors", (2, INF), "i")
        return out
    return b


entry("girth.common.polychoric_correlation", "num missing poly2")(_pc(True))
entry("girth.common.polychoric_correlation_serial", "num missing poly2")(_pc(False))


@entry("girth.common.contingency_table", "num missing")
def _(I, sc):
    n = sym("dim", "vals1", 0)
    out = {}
    for k in ("vals1", "vals2"):
        out[k] = arr_param(I, k, (n,), (0, 100), sc.get("dt") or "inh:" + k, person(I, sc, n),
                           {(k, None, ("ax", 0)): (SENT, (-99999, -99999))} if sc.get("missing", True) else None)
    out["start_val"] = scalar(I, "start_val", (0, 10), "i")
    out["stop_val"] = scalar(I, "stop_val", (1, 100), "i")
    return out


@entry("girth.common.validate_contingency_table", "num")
def _(I, sc):
    n = sym("dim", "the_table", 0)
    return {"the_table": arr_param(I, "the_table", (n, n), (0, INF), sc.get("pdt") or "f")}


@entry("girth.common.polyserial_correlation", "num")
def _(I, sc):
    n = sym("dim", "continuous", 0)
    pl = person(I, sc, n)
    return {"continuous": arr_param(I, "continuous", (n,), dt=sc.get("pdt") or "f", pl=pl), "ordinal": arr_param(I, "ordinal", (n,), (0, 100), sc.get("dt") or "inh:ordinal", pl)}


def person(I, sc, n):
    """a vector with one value per respondent, where the order of the respondents is examined"""
    if sc.get("mix") != "order":
        return None
    I.pdims = {n}
    return ("ax", 0)


@entry("girth.common.procrustes_rotation", "num")
def _(I, sc):
    s = (sym("dim", "target_matrix", 0), sym("dim", "target_matrix", 1))
    return {"target_matrix": arr_param(I, "target_matrix", s, dt=sc.get("pdt") or "f"), "collected_matrix": arr_param(I, "collected_matrix", s, dt=sc.get("pdt") or "f")}


@entry("girth.common.reverse_score", "util missing")
def _(I, sc):
    return {"dataset": poly(I, sc), "mask": arr_param(I, "mask", (ITEMS,), (0, 1), "b"), "max_val": scalar(I, "max_val", (1, 100), "i")}


# factor analysis -----------------------------------------------------
SQ = sym("dim", "input_matrix", 0)


def _fa(pname, extra):
    def b(I, sc):
        out = {pname: arr_param(I, pname, (SQ, SQ), dt=sc.get("pdt") or "f"),
               "n_factors": Sc(F(sym("arg", "n_factors"), (1, INF), "i", frozenset(["arg:n_factors"])))}
        if sc.get("guess", True) and "initial_guess" in extra:
            out["initial_guess"] = arr_param(I, "initial_guess", (SQ,), (0.001, 100), sc.get("pdt") or "f")
        for k in extra:
            if k != "initial_guess":
                out[k] = scalar(I, k, (1, INF) if "iter" in k else (0, 1), "i" if "iter" in k else "f")
        return out
    return b


entry("girth.factoranalysis.maximum_likelihood_factor_analysis", "fa")(_fa("input_matrix", ("initial_guess", "tolerance", "max_iter")))
entry("girth.factoranalysis.minimum_rank_factor_analysis", "fa")(_fa("correlation_matrix", ("initial_guess", "n_iter")))
entry("girth.factoranalysis.principal_axis_factor", "fa")(_fa("input_matrix", ("initial_guess", "max_iterations", "tolerance")))
entry("girth.factoranalysis.principal_components_analysis", "fa")(_fa("input_matrix", ()))


@entry("girth.factoranalysis.sparsify_loadings", "fa rand")
def _(I, sc):
    a, b = sym("dim", "loadings", 0), sym("dim", "loadings", 1)
    out = {"loadings": arr_param(I, "loadings", (a, b), dt=sc.get("pdt") or "f"), "alpha": scalar(I, "alpha", (0, INF)),
           "orthogonal": Sc(F(sym("arg", "orthogonal"), (0, 1), "b", frozenset(["arg:orthogonal"]))), "seed": scalar(I, "seed", (0, INF), "i")}
    if sc.get("guess"):
        out["initial_guess"] = arr_param(I, "initial_guess", (mk("mul", b, mk("sub", b, const(1))),), dt=sc.get("pdt") or "f")
    return out


# synthetic ----------------------------------------------------------
NI, NP = sym("dim", "difficulty", 0), sym("dim", "thetas", 0)


@entry("girth.synthetic.create_synthetic_irt_dichotomous", "synth rand")
def _(I, sc):
    pdt = sc.get("pdt") or "f"
    out = {"difficulty": arr_param(I, "difficulty", (NI,), dt=pdt), "seed": scalar(I, "seed", (0, INF), "i")}
    if sc.get("md"):
        nf = sym("dim", "discrimination", 1)
        out["discrimination"] = arr_param(I, "discrimination", (NI, nf), dt=pdt)
        out["thetas"] = arr_param(I, "thetas", (nf, NP), dt=pdt)
    else:
        out["discrimination"] = scalar(I, "discrimination") if sc.get("discr") == "scalar" else arr_param(I, "discrimination", (NI,), dt=pdt)
        out["thetas"] = arr_param(I, "thetas", (NP,), dt=pdt)
    out["guessing"] = scalar(I, "guessing", (0, 1)) if sc.get("discr") == "scalar" else arr_param(I, "guessing", (NI,), (0, 1), dt=pdt)
    return out


@entry("girth.synthetic.create_synthetic_irt_polytomous", "synth rand")
def _(I, sc):
    pdt = sc.get("pdt") or "f"
    model = sc.get("model", "grm")
    from . import npmodel
    lv = sym("dim", "difficulty", 1)
    npmodel.MINDIM[lv] = 2
    out = {"difficulty": arr_param(I, "difficulty", (NI, lv), dt=pdt), "seed": scalar(I, "seed", (0, INF), "i")}
    if model.lower() == "grm_md":
        nf = sym("dim", "discrimination", 1)
        out["discrimination"] = arr_param(I, "discrimination", (NI, nf), dt=pdt)
        out["thetas"] = arr_param(I, "thetas", (nf, NP), dt=pdt)
    else:
        out["discrimination"] = scalar(I, "discrimination") if sc.get("discr") == "scalar" else arr_param(I, "discrimination", (NI,), dt=pdt)
        out["thetas"] = arr_param(I, "thetas", (NP,), dt=pdt)
    out["model"] = Sc(F(const(model), TOP, "U", frozenset(["arg:model"])))
    return out


class Run:
    """result of analysing one public call in one scenario"""
    def __init__(self, name, sc, I, args, ret):
        self.name, self.sc, self.I, self.args, self.ret = name, sc, I, args, ret

    @property
    def label(self):
        d = ", ".join(f"{k}={v}" for k, v in sorted(self.sc.items(), key=str) if (k != "options" or v != "all") and k != "mix")
        return self.name + (f" [{d}]" if d else "")


def resolve(I, dotted):
    mod, attr = dotted.rsplit(".", 1)
    v = I.modattr(mod, attr)
    if v is None or not isinstance(v, (Fn, Cls, Prim, Partial_)):
        raise AnalysisBroken(f"public function {dotted} not found")
    return v


from .values import Partial as Partial_   # noqa: E402


class _Site:
    """pseudo call site of the entry"""
    def __init__(self):
        self._id = -7
        self._mod = None
        self._parent = None
        self.lineno = 0


SITE = _Site()


def custom(base, name, sc, call):
    """analyse call(I, sc), a piece of client code, instead of one public call"""
    from . import npmodel
    npmodel.MINDIM.clear()
    I = clone(base)
    I.hooks["default_options"] = tag_defaults
    I.args0 = {}
    ret = call(I, sc)
    r = Run(name, dict(sc or {}), I, {}, ret if I.heap is not None else None)
    r.fn = None
    return r


def run(base, name, sc=None, build=None, tagdef=True):
    sc = dict(sc or {})
    from . import npmodel
    npmodel.MINDIM.clear()
    I = clone(base)
    if sc.get("mix"):
        I.mix = {}
        if sc["mix"] == "order":
            I.order = {}
    if sc.get("codes"):
        from .codes import Scales
        I.codes, I.codebad = Scales(sc["codes"], bool(sc.get("strict"))), {}
    fn = resolve(I, name)
    args = (build or ENTRIES[name].build)(I, sc)
    if tagdef:
        I.hooks["default_options"] = tag_defaults
    I.args0 = dict(args)
    ret = I.call(fn, [], dict(args), SITE)
    r = Run(name, sc, I, args, ret if I.heap is not None else None)
    r.fn = fn
    return r
