"""C18: one quadrature rule and one current density serve all integrals of a sweep."""
from .. import entries as E
from .. import terms as tm
from ..terms import mk, const, sym
from ..values import *   # noqa
from . import common as cm
from . import c12
from .c17 import fname, sweeps_of

ASSUMPTIONS = ["sums and products are exact (no claim about rounding)", "the caller's density is a function of its argument only"]
A0, B0, N0 = sym("opt", "quadrature_bounds", 0), sym("opt", "quadrature_bounds", 1), sym("opt", "quadrature_n")
H0 = sym("opt", "hyper_quadrature_n")
ANY = "any"
PASS = {"take", "ix", "item", "item?", "ravel", "flatten", "reshape", "asarray", "copy", "squeeze", "T", "transpose", "cast", "float", "astype", "new", "ascontiguousarray", "reshape?"}
NS = sym("opt", "number_of_samples")
DENS = "user:opt:distribution"


class Deg:
    """homogeneity degrees of a term in the quadrature weights and in the density evaluations:
    a set of alternatives, each a tuple of (generator, power)"""
    def __init__(self, I, phase):
        self.I, self.phase = I, phase
        self.memo = {}
        self.loops = {}
        for k, e in I.events.items():
            if e.kind == "loop" and e.d.get("form") != "unrolled":
                self.loops.setdefault(e.lid, []).append((k[4], e))
        self.T = {}
        self.prev = {e.lid for e in sweeps_of(I)}
        # a sum over the spline samples with the optimised coefficients is a density evaluation
        self.splines = {e.out.id for e in I.evs("reduce") if e.dims and any(tm.contains(d, lambda u: u is NS) for d in e.dims)
                        and tm.contains(e.term, lambda u: u.op in ("qroots", "quadpts"))}

    def gen(self, t):
        """density evaluation generator of an atom, or None"""
        if fname(t) == DENS:
            self.T[t.id] = t
            return ("null", t.id)
        if t.id in self.splines:
            self.T[t.id] = t
            return ("spline", t.id)
        return None

    def of(self, t, depth=0):
        r = self.memo.get(t.id)
        if r is None:
            self.memo[t.id] = frozenset([()])     # cycles through phis
            r = self.memo[t.id] = self.compute(t, depth)
        return r

    def compute(self, t, depth):
        if depth > 400:
            return frozenset([()])
        if tm.is_const(t):
            return frozenset([ANY]) if tm.num_const(t) == 0 else frozenset([()])
        d = depth + 1
        g = self.gen(t)
        if g is not None:
            return frozenset([((g, 1),)])
        if t.op in ("qweights", "quadw"):
            return frozenset([((("w", t.id), 1),)])
        if t.op == "mul":
            return self.prod([(self.of(a, d), 1) for a in t.args])
        if t.op == "div":
            return self.prod([(self.of(t.args[0], d), 1), (self.of(t.args[1], d), -1)])
        if t.op == "inv":
            return self.prod([(self.of(t.args[0], d), -1)])
        if t.op in ("dot", "outer", "einsum"):
            return self.prod([(self.of(a, d), 1) for a in t.args if isinstance(a, tm.T)])
        if t.op == "red" and t.args[0] in ("sum", "mean", "nansum", "nanmean", "max", "min"):
            return self.of([a for a in t.args if isinstance(a, tm.T)][0], d)
        if t.op in ("add", "sub"):
            xs = [self.of(a, d) for a in t.args]
            out = set()
            for x in xs:
                out |= x
            z = [x for x in xs if x != frozenset([ANY])]
            if len(z) > 1 and any(a != b for a in z for b in z):
                return frozenset(out - {ANY}) | {(("mixed", 0), 1),} if False else frozenset([((("mixed", 0), 1),)]) if out - {ANY, ()} else frozenset([()])
            return frozenset(out)
        if t.op in ("join", "st", "stw"):
            out = set()
            xs = [a for a in t.args if isinstance(a, tm.T)]
            if t.op == "st":
                xs = [xs[0], xs[-1]]
            for a in xs:
                out |= self.of(a, d)
            return frozenset(out - {ANY} or out)
        if t.op in ("where", "ite"):
            out = set()
            for a in [x for x in t.args if isinstance(x, tm.T)][1:]:
                out |= self.of(a, d)
            return frozenset(out - {ANY} or out)
        if t.op in PASS:
            return self.of(t.args[0], d) if isinstance(t.args[0], tm.T) else frozenset([()])
        if t.op in ("min2", "max2"):
            return self.of([a for a in t.args if not tm.is_const(a)][0], d) if any(not tm.is_const(a) for a in t.args) else frozenset([()])
        if t.op == "sym" and t.args and t.args[0] == "phi" and len(t.args) == 3:
            return self.phi(t, d)
        return frozenset([()])

    def phi(self, t, d):
        evs = self.loops.get(t.args[1]) or []
        pick = [e for ph, e in evs if ph == self.phase] or [e for _, e in evs]
        out = set()
        for e in pick:
            v = (e.entry or {}).get(t.args[2])
            if isinstance(v, (ArrC, Sc)):
                out |= self.of(v.f.term, d)
            if e.first is not None:
                w = (e.first[1] or {}).get(t.args[2])
                if isinstance(w, (ArrC, Sc)):
                    out |= self.of(w.f.term, d)
        if t.args[1] in self.prev and not self.phase.endswith("/first"):
            # a density carried over from the previous sweep
            new = set()
            for a in out - {ANY}:
                m = {}
                for g, p in a:
                    g = ("prev", t.id) if g[0] in ("null", "spline") else g
                    m[g] = m.get(g, 0) + p
                new.add(tuple(sorted(m.items(), key=str)))
            out = new or out
        return frozenset(out - {ANY} or out or [()])

    def prod(self, parts):
        acc = [{}]
        for alts, s in parts:
            if alts == frozenset([ANY]):
                return frozenset([ANY])
            new = []
            for m in acc:
                for a in alts:
                    if a == ANY:
                        continue
                    x = dict(m)
                    for g, p in a:
                        x[g] = x.get(g, 0) + s * p
                    new.append({g: p for g, p in x.items() if p})
            acc = new[:16]
        return frozenset(tuple(sorted(m.items(), key=str)) for m in acc)


def split(alt):
    w = {g: p for g, p in alt if g[0] == "w"}
    d = {g: p for g, p in alt if g[0] in ("null", "spline", "prev")}
    return w, d, any(g[0] == "mixed" for g, _ in alt)


def check(ctx):
    for n, e in E.ENTRIES.items():
        if "distribution" not in e.opts:
            continue
        for sc in cm.scenarios(n, ctx.tier):
            r = ctx.run(n, sc)
            cm.must_return(ctx, r)
            one(ctx, n, sc, r)
    ctx.need("sums over quadrature nodes", 40)
    return ("For every estimator and scorer that integrates over the latent ability, the terms under each sum over quadrature nodes are decomposed into homogeneity degrees in the quadrature weights and in the density evaluations. "
            "Each such sum must contain the weights of its own rule (same size and bounds as the nodes) to the power one and exactly one density evaluation to the power one. "
            "Within a sweep, every integral reachable from an item-parameter objective (likelihood weights, look-up table, difficulty equations) must use one and the same density evaluation, "
            "the one made in that sweep when the density is estimated and the supplied one otherwise; the reported abilities must use the density in force after the last sweep.")


def one(ctx, n, sc, r):
    I = r.I
    # estimators that re-estimate the density: a minimisation over its samples takes place
    est = any(e.d.get("xshape") and any(tm.contains(d, lambda u: u is NS) for d in e.xshape) for e in I.evs("optcall"))
    ctx.count("runs that re-estimate the density", int(est))
    D = {}

    def deg(phase):
        if phase not in D:
            D[phase] = Deg(I, phase)
        return D[phase]
    for k, e in list(I.events.items()):
        if e.kind == "reduce" and e.dims is not None:
            nodes(ctx, r, e, deg(k[4]))
    sweeps = sweeps_of(I)
    current = False
    for k, e in list(I.events.items()):
        if e.kind != "optcall" or e.d.get("objective") is None:
            continue
        dg = deg(k[4])
        gens = densities(dg, e.objective.term)
        if not gens:
            continue
        ctx.count("objectives whose densities were traced")
        first = k[4].endswith("/first") or not sweeps
        kinds = {g[0] for g in gens}
        current = current or kinds == {"spline"}
        if own_density(dg, gens, e):
            continue
        if len(gens) > 1:
            ctx.find("density-mixed", e.node, f"one objective combines integrals over {len(gens)} different latent densities ({', '.join(sorted(kinds))})", ctx=e.ctx, run=r)
        elif est and not first and kinds == {"null"}:
            ctx.find("density-stale", e.node, "item parameters are fitted with the supplied density although the estimated one is in force", ctx=e.ctx, run=r)
    ab = cm.field(I, r.ret, "Ability")
    if ab is not None and "est" in E.ENTRIES[n].tags:
        _, f = I.rd(ab)
        dg = deg("run")
        gens = densities(dg, f.term)
        ctx.count("reported abilities traced")
        if est and not any(g[0] == "spline" for g in gens):
            ctx.find("density-stale", cm.fnnode(r), "the reported abilities use the supplied density although it was re-estimated", run=r, key=n)


def own_density(dg, gens, e):
    """the objective that estimates the density itself: the density depends on its own trial point"""
    return any(g[0] == "spline" and tm.contains(dg.T[g[1]], lambda u: u.op == "sym" and u.args and u.args[0] == "optvar" and u.args[1] == e.node._id) for g in gens)


def densities(dg, t):
    """density evaluations under weighted sums of a term, not looking into what earlier minimisations computed"""
    out, seen, todo = set(), set(), [t]
    while todo:
        u = todo.pop()
        if u.id in seen or u.op == "optres":
            continue
        seen.add(u.id)
        todo += [a for a in u.args if isinstance(a, tm.T)]
        if u.op == "red" and u.args[0] == "sum" or u.op in ("dot", "einsum"):
            for alt in dg.of(u):
                if alt == ANY:
                    continue
                w, d, _ = split(alt)
                if w:
                    out |= set(d)
    return out


def nodes(ctx, r, e, dg):
    main = any(d is N0 for d in e.dims)
    hyper = any(d is H0 for d in e.dims)
    alts = [a for a in dg.of(e.term) if a != ANY]
    if not main and not hyper:
        # grids of unknown layout (several factors): judged only where weights take part
        if not any(split(a)[0] for a in alts):
            return
    ctx.count("sums over quadrature nodes")
    for a in alts:
        w, d, mixed = split(a)
        if mixed:
            ctx.find("weights", e.node, "terms with and without quadrature weights or density are added", ctx=e.ctx, run=r)
            continue
        if hyper and not main:
            if list(w.values()) != [1]:
                ctx.find("weights", e.node, f"the sum over the nodes of the prior contains the quadrature weights to the power {sum(w.values())}", ctx=e.ctx, run=r)
            continue
        if list(w.values()) != [1]:
            ctx.find("weights", e.node, f"the sum over the quadrature nodes contains the quadrature weights {'to the power %s' % sum(w.values()) if len(w) < 2 else 'of two rules'}", ctx=e.ctx, run=r)
        elif list(d.values()) != [1]:
            ctx.find("density", e.node, f"the integral contains the latent density to the power {sum(d.values())}", ctx=e.ctx, run=r)
    if hyper and not main:
        return
    for u in rootterms(e.term):
        ctx.count("node locations compared with the call's bounds and size")
        why = mapping(u)
        if why:
            ctx.find("nodes", e.node, "the integrand is evaluated at nodes that are not those of the call's rule: " + why, ctx=e.ctx, run=r)
    if any(split(a)[0] for a in alts) and other_grid(e.term):
        ctx.find("nodes", e.node, "the weights of a quadrature rule are combined with values at evenly spaced points instead of that rule's nodes", ctx=e.ctx, run=r)
    why = scale(e.term)
    if why:
        ctx.find("weights", e.node, why, ctx=e.ctx, run=r)


def other_grid(t):
    """evenly spaced points, one for each node"""
    seen, todo = set(), [t]
    while todo:
        u = todo.pop()
        if u.id in seen or u.op == "optres":
            continue
        seen.add(u.id)
        if u.op == "linspace" and any(isinstance(a, tm.T) and tm.contains(a, lambda q: q is N0) for a in u.args):
            return True
        todo += [a for a in u.args if isinstance(a, tm.T)]
    return False


def rootterms(t):
    """outermost arithmetic terms in which quadrature roots take part"""
    out, seen, todo = [], set(), [t]
    while todo:
        u = todo.pop()
        if u.id in seen or u.op in ("optres", "red", "dot", "einsum"):
            continue             # inner sums are judged where they are formed
        seen.add(u.id)
        if u.op in ("add", "sub", "mul", "div", "qroots"):
            at = atoms(u)
            if any(x.op == "qroots" for x in at):
                out.append(u)
            todo += [x for x in at if x.id != u.id and x.op != "qroots"] + ([a for a in u.args if isinstance(a, tm.T)] if any(x.id == u.id for x in at) else [])
        else:
            todo += [a for a in u.args if isinstance(a, tm.T)]
    return out


def atoms(t):
    sub = {u.id: u for u in tm.subterms(t).values()}
    out = {}
    for mono in tm.poly(t):
        for a, p in mono:
            if a in sub:
                out[a] = sub[a]
    return list(out.values())


def by(t, want):
    """coefficients of the polynomial split by the powers of some atoms: {powers: {rest: coefficient}}"""
    ids = [w.id if isinstance(w, tm.T) else w for w in want]
    out = {}
    for mono, c in tm.poly(t).items():
        m = dict(mono)
        pw = tuple(m.pop(i, 0) for i in ids)
        out.setdefault(pw, {})[tuple(sorted(m.items()))] = c
    return out


def near(a, b):
    return set(a) == set(b) and all(abs(a[k] - b[k]) < 1e-9 for k in a)


def mapping(u):
    """nodes must be start + (stop - start) (root + 1) / 2"""
    rs = [x for x in atoms(u) if x.op == "qroots" and x.args[-1] is not H0]
    if not rs:
        return None          # a parameter tried at a node of its prior
    if len(rs) > 1:
        return "roots of two rules are combined"
    if not same(rs[0].args[-1], N0):
        return "their number is " + tm.show(rs[0].args[-1])[:80]
    parts = by(u, [rs[0], A0, B0])
    if any(not (p[0] in (0, 1) and p[1] in (0, 1) and p[2] in (0, 1) and p[1] + p[2] <= 1) for p in parts):
        return None          # a non-linear function of the nodes
    g = lambda *p: parts.get(p, {})
    neg = lambda d: {k: -v for k, v in d.items()}
    if g(1, 0, 0):
        return "the roots are not scaled by the width of the range"
    if not (near(g(1, 0, 1), g(0, 0, 1)) and near(g(1, 0, 1), g(0, 1, 0)) and near(g(1, 0, 1), neg(g(1, 1, 0)))):
        return "they are not spread over the call's bounds"
    return None


def scale(t):
    """weights must be (stop - start) / 2 times the weights on [-1, 1]"""
    ws = [x for x in atoms(t) if x.op == "qweights"]
    if len(ws) != 1:
        return None
    if not same(ws[0].args[-1], N0):
        return "the weights belong to a rule of size " + tm.show(ws[0].args[-1])[:80]
    if any(x.op == "qroots" for x in atoms(t)):
        return None
    parts = by(t, [ws[0], A0, B0])
    g = lambda *p: parts.get(p, {})
    if any(p[0] == 1 and p not in ((1, 0, 1), (1, 1, 0)) for p in parts) or not near(g(1, 0, 1), {k: -v for k, v in g(1, 1, 0).items()}):
        return "the weights are not scaled by the width of the range"
    if any(abs(abs(v) - 0.5) > 1e-9 for v in g(1, 0, 1).values()):
        return "the weights are not scaled by half the width of the range"
    return None


def same(a, b):
    return a is b or tm.same(a, b)
