"""C19: the look-up table changes how fast difficulties are computed, not which."""
from .. import entries as E
from .. import pointwise as pw
from .. import terms as tm
from ..terms import mk, const, sym
from ..values import *   # noqa
from . import common as cm
from . import c05

ASSUMPTIONS = ["the caller's density is a function of its argument only and not negative",
               "the minimiser of the squared difference between proportion and integral is where they are equal (inside the range searched)",
               "formulas are compared at random values of their atoms; agreement at all of them is taken for equality"]
GRADED = ("girth.grm_mml", "girth.multidimensional_grm_mml", "girth.grm_mml_eap")
STEP = 0.03


def isgrid(t):
    return tm.contains(t, lambda u: u.op in ("qweights", "qroots"))


def direct(r):
    """[(optcall, integral term, ability scale A, proportion R)] the difficulties solved by minimisation"""
    out = []
    for e in r.I.evs("optcall"):
        ob = e.d.get("objective")
        if ob is None or e.lo is None or e.hi is None:
            continue
        own = [u for u in tm.subterms(ob.term).values() if u.op == "sym" and u.args[:1] == ("optvar",) and e.node._id in u.args]
        for b in own:
            for u in tm.subterms(ob.term).values():
                if (u.op == "red" and u.args[0] == "sum" or u.op in ("dot", "einsum")) and isgrid(u) and tm.contains(u, lambda q: q is b) and not any(
                        s.op == "log" for s in tm.subterms(ob.term).values()):
                    out.append((e, u, b, ob.term))
    return out


def maximal(t, keep):
    """largest subterms of t that hold none of `keep` and are not constants"""
    out, seen = [], set()

    def go(u):
        if u.id in seen:
            return
        seen.add(u.id)
        if tm.is_const(u):
            return
        if not tm.contains(u, keep):
            out.append(u)
            return
        for a in u.args:
            if isinstance(a, tm.T):
                go(a)
    go(t)
    return out


def bounds(t):
    """(start, stop) terms of a grid"""
    return (t.args[0], t.args[1]) if t.op == "linspace" else None


def endof(t):
    """the number a term selects from a grid"""
    k = tm.num_const(t)
    if k is not None:
        return t
    if t.op == "ix" and t.args[0].op == "linspace" and len(t.args) == 2 and isinstance(t.args[1], tm.T):
        k = tm.num_const(t.args[1])
        n = tm.num_const(t.args[0].args[2])
        if k == 0 or n is not None and k == -n:
            return t.args[0].args[0]
        if k == -1 or n is not None and k == n - 1:
            return t.args[0].args[1]
    if t.op == "red" and t.args[0] in ("min", "max"):
        g = [a for a in t.args if isinstance(a, tm.T) and a.op == "linspace"]
        if g:
            return g[0].args[0 if t.args[0] == "min" else 1]
    return t


class Table:
    """what one interpolation table holds: difficulty as a function of the marginal proportion"""
    def __init__(self, x, y):
        self.p = pw.Pw()
        self.x, self.y = self.p.elem(x), self.p.elem(y)
        self.ok = bool(self.x and self.y and len(self.x[0]) == 1 and self.x[0] == self.y[0] and self.y[1].op == "linspace")
        if self.ok:
            self.B = self.y[1]
            al = [u for u in tm.subterms(self.x[1]).values() if u.op == "linspace" and u is not self.B]
            self.A = al[0] if len(al) == 1 else None
            self.ok = len(al) < 2                  # none: the entries do not depend on discrimination
            self.row = self.p.dropped.get(("g", self.A.id)) if self.A is not None else None

    def down(self):
        """do the proportions fall as difficulty grows? None: undecided"""
        seen = set()
        for s in range(4):
            rnd = pw.Rnd(31 + s)
            try:
                v = [pw.num(self.x[1], rnd, {self.A: 0.9 + s / 2, self.B: b, c05.A0: -4.5, c05.B0: 4.5}) for b in (-1.5, 0.2, 1.7)]
            except pw.Undecided:
                return None
            seen.add(v[0] > v[1] > v[2])
            if not (v[0] > v[1] > v[2] or v[0] < v[1] < v[2]):
                return None
        return seen.pop() if len(seen) == 1 else None


def check(ctx):
    ref = reference(ctx)
    for n in GRADED:
        for ed in (False, True) if ctx.tier == "quick" else (False, True):
            sc = {"options": "all", "estimate_distribution": ed, "initial_guess": True}
            if n != "girth.grm_mml_eap":
                sc["use_LUT"] = True
            for more in ({},) if ctx.tier == "quick" else ({}, {"missing": True}, {"options": "none"}, {"initial_guess": False}):
                r = ctx.run(n, dict(sc, **more))
                cm.must_return(ctx, r)
                tables(ctx, n, r, ref if more.get("options") != "none" and not ed else None)
                domain(ctx, n, r)
                if n != "girth.grm_mml_eap":
                    same_cells(ctx, n, r, ctx.run(n, dict(sc, use_LUT=False, **more)))
    reading(ctx)
    ctx.need("tables built", 3)
    return ("The formula of one entry of the look-up table (difficulty as a function of discrimination and marginal proportion) is extracted from the source as interpreted, "
            "through broadcasting, einsum and the quadrature sum, and compared with the integral that the direct solver equates with the proportion: same kernel, same nodes, weights and density. "
            "The table must span the direct solver's difficulty range and every discrimination the estimators can try (interval analysis of the searched and clipped discriminations), "
            "in small steps; a reading must blend the two neighbouring rows with weights that add up to one and reproduce the position, and proportions beyond a row must give the end of the range "
            "on that side. With and without the table the same proportions are converted.")


def reference(ctx):
    for n in GRADED[:2]:
        r = ctx.run(n, {"use_LUT": False, "options": "all", "estimate_distribution": False, "initial_guess": True})
        for e, u, b, ob in direct(r):
            w = equation(u, b, ob)
            if w is not None and w[0] is not None:
                return dict(e=e, r=r, form=w[0], A=w[1], B=b)
    ctx.notes.append("the direct solution of the difficulties was not found")
    return None


def equation(u, b, ob):
    """(formula of the integral, its discrimination, the proportion it is set equal to)"""
    A = maximal(u, lambda q: q is b or q.op in ("qroots", "qweights"))
    A = [a for a in A if any(q.op == "sym" and q.args[0] != "opt" for q in tm.subterms(a).values())]
    R = [q for q in maximal(ob, lambda q: q is u) if tm.num_const(q) is None and not tm.contains(u, lambda s, q=q: s is q)]
    R = [q.args[1 - i] for q in R for i in (0, 1) if q.op == "mul" and len(q.args) == 2 and tm.num_const(q.args[i]) == -1] or R
    A = A[0] if len(A) == 1 else None
    x = pw.Pw(scalars=[A] if A is not None else []).elem(u) if A is not None else None
    return (x[1] if x and not x[0] else None), A, R[0] if len(R) == 1 else None


def built(r):
    """[(event, x, y, kind, outside, ends)] the interpolation tables over proportions"""
    for e in r.I.evs("interp"):
        if isgrid(e.x.term):
            yield e, e.ikind, e.outside, e.ends
    for e in r.I.evs("interpcall"):
        if isgrid(e.x.term) and e.table is None:
            yield e, "linear", "np.interp", None


def tables(ctx, n, r, ref):
    for e, kind, out, ends in built(r):
        ctx.count("tables built")
        if kind in ("nearest", "nearest-up", "zero", "previous", "next"):
            ctx.find("kind", e.node, f"difficulties are read from the nearest entry of the table ({kind}) instead of being interpolated", ctx=e.ctx, run=r)
        t = Table(e.x.term, e.y.term)
        if ref is not None and t.ok:
            same = pw.agree(t.x[1], ref["form"], [(x, y) for x, y in ((t.A, ref["A"]), (t.B, ref["B"])) if x is not None])
            if same is None:
                ctx.notes.append(f"{n}: the formula of the table could not be compared")
            else:
                ctx.count("tables compared with the direct solution")
            if same is False:
                ctx.find("integral", e.node, "the proportions of the table are not the integral that is set equal to the proportion when no table is used", ctx=e.ctx, run=r)
        elif ref is not None:
            ctx.notes.append(f"{n}: the formula of the table was not understood")
        if t.y and t.y[1].op == "linspace":
            B = t.y[1]
            if ref is not None:
                ctx.lut_ref = ref
            q = ref or getattr(ctx, "lut_ref", None)
            if q is not None:
                lo, hi = q["e"].lo.term, q["e"].hi.term
                if not (tm.same(B.args[0], lo) and tm.same(B.args[1], hi)):
                    ctx.find("range", e.node, f"the table spans difficulties {tm.show(B.args[0])} to {tm.show(B.args[1])}, the direct solution {tm.show(lo)} to {tm.show(hi)}", ctx=e.ctx, run=r, key=n)
            step(ctx, n, r, e, B, "difficulty")
        if t.ok and t.A is not None:
            outside(ctx, r, e, t, out, ends)


def step(ctx, n, r, e, g, what):
    a, b, k = (tm.num_const(q) for q in g.args[:3])
    if None not in (a, b, k) and (k < 2 or abs(b - a) / (k - 1) > STEP):
        ctx.find("step", e.node, f"the table has {k} entries from {a} to {b} in {what}: steps larger than {STEP}", ctx=e.ctx, run=r, key=f"{n}:{what}")


def outside(ctx, r, e, t, out, ends):
    down = t.down()
    if down is None:
        ctx.notes.append("the direction of the proportions in the table was not found")
        return
    ctx.count("ends of a table")
    key = f"outside:{out}"
    if out == "np.interp":
        if down != (t.x[0][0][0] == "rev"):
            ctx.find("outside", e.node, "np.interp needs proportions in increasing order, the row of the table is in decreasing order", ctx=e.ctx, run=r, key=key)
        return
    if out == "raise":
        ctx.find("outside", e.node, "a proportion outside the table raises, without the table it gives the end of the range", ctx=e.ctx, run=r, key=key)
    elif out == "nan":
        ctx.find("outside", e.node, "a proportion outside the table gives nan, without the table the end of the range", ctx=e.ctx, run=r, key=key)
    elif out == "extrapolate":
        ctx.find("outside", e.node, "a proportion outside the table is extrapolated beyond the range of difficulties", ctx=e.ctx, run=r, key=key)
    elif ends is not None:
        want = (t.B.args[1], t.B.args[0]) if down else (t.B.args[0], t.B.args[1])
        got = tuple(endof(q) for q in ends)
        names = {t.B.args[0].id: "first", t.B.args[1].id: "last"}
        if not all(tm.same(a, b) for a, b in zip(want, got)):
            nm = [names.get(q.id, tm.show(q)) for q in got]
            ctx.find("outside", e.node, f"proportions {'fall' if down else 'grow'} with difficulty, so a proportion below the table belongs to its {'last' if down else 'first'} difficulty and one above "
                     f"to its {'first' if down else 'last'}, but the fill values are ({nm[0]}, {nm[1]})", ctx=e.ctx, run=r, fn="table", key=f"fill:{nm[0]}:{nm[1]}")


def domain(ctx, n, r):
    for e in r.I.evs("interpcall"):
        if e.x.term.op != "linspace" or isgrid(e.y.term):
            continue
        a, b = (tm.num_const(q) for q in e.x.term.args[:2])
        lo, hi = e.at.itv
        if abs(lo) == INF or abs(hi) == INF:
            lo, hi = mean_of_nodes(e.at.term) or (lo, hi)
        step(ctx, n, r, e, e.x.term, "discrimination")
        if None in (a, b) or (abs(lo) == INF or abs(hi) == INF) and not searched(e.at.term):
            ctx.notes.append(f"{n}: the discriminations looked up at line {e.node.lineno} are not bounded by this analysis")
            continue
        ctx.count("discriminations looked up")
        if lo < a or hi > b or hi == b and e.table is not None and not interior(e.at.term):
            ctx.find("domain", e.node, f"{n} may look up discriminations from {lo} to {hi}; the table reaches from {a} to below {b}", ctx=e.ctx, run=r, key=n)


def interior(t):
    """a point of a bounded scalar search: never an end of the interval"""
    if t.op == "join":
        return all(interior(a) for a in t.args)
    return t.op == "sym" and t.args[0] in ("optvar", "optres") or t.op == "optres" and str(lit0(t)).startswith("fminbound")


def lit0(t):
    return pw.lit(t.args[0]) if t.args else None


def factors(t):
    out, todo = [], [t]
    while todo:
        u = todo.pop()
        if u.op == "mul":
            todo += u.args
        elif u.op in pw.SAME and isinstance(u.args[0], tm.T):
            todo.append(u.args[0])
        else:
            out.append(u)
    return out


def mean_of_nodes(t):
    """bounds of a weighted mean of quadrature nodes: sum(w x) / sum(w)"""
    if t.op in pw.SAME and t.args and isinstance(t.args[0], tm.T):
        return mean_of_nodes(t.args[0])
    if t.op != "div" or any(q.op != "red" or q.args[0] != "sum" for q in t.args):
        return None
    ns, ds = (factors(q.args[2]) for q in t.args)
    kn, kd = 1, 1
    for q in ns:
        k = tm.num_const(q)
        kn = kn * k if k is not None else kn
    for q in ds:
        k = tm.num_const(q)
        kd = kd * k if k is not None else kd
    ns, ds = ([q for q in fs if tm.num_const(q) is None] for fs in (ns, ds))
    for q in ds:
        if q not in ns:
            return None
        ns.remove(q)
    if len(ns) != 1 or not kd:
        return None
    q = [u for u in tm.subterms(ns[0]).values() if u.op == "qroots"]
    if len(q) != 1:
        return None
    v = [tm.num_const(tm.replace(ns[0], {q[0]: const(x)})) for x in (-1, 1)]
    return None if None in v else (min(v) * kn / kd, max(v) * kn / kd)


def searched(t):
    """made by plain arithmetic from the point a minimiser tries or returns"""
    seen = set()

    def go(u):
        if u.id in seen or tm.is_const(u):
            return True
        seen.add(u.id)
        if u.op == "sym":
            return u.args[0] in ("optvar", "optres")
        if u.op == "optres":
            return True
        return u.op in ("add", "mul", "sqrt", "abs", "square", "min2", "max2", "red", "pow", "join", "exp", "ix") and all(go(a) for a in u.args if isinstance(a, tm.T))
    return go(t)


def props(r):
    """proportions converted with the table"""
    return {e.at.term: e for e in r.I.evs("interpcall") if isgrid(e.x.term)}


def same_cells(ctx, n, rl, rd):
    P = props(rl)
    R = {}
    for e, u, b, ob in direct(rd):
        w = equation(u, b, ob)
        if w is None or w[2] is None:
            return
        R[w[2]] = e
    if not P or not R:
        ctx.notes.append(f"{n}: proportions of the two ways not found")
        return
    ctx.count("conversions compared", len(P))
    cp, cr = {plain(t): e for t, e in P.items()}, {plain(t): e for t, e in R.items()}
    # compared by the ways they may come about
    lr = {leaf.id: leaf for q in cr for leaf in leaves(q)}
    lp = {leaf.id: leaf for t in cp for leaf in leaves(t)}
    for t, e in cp.items():
        for u in leaves(t):
            if u.id not in lr and any(q.id not in lp and related(u, q) for q in lr.values()):
                ctx.find("proportion", e.node, f"{n} converts another proportion with the table than without", ctx=e.ctx, run=rl, key=n)


def leaves(t):
    return [q for a in t.args for q in leaves(a)] if t.op == "join" else [t]


def related(a, b):
    """one is computed from the other"""
    return a is not b and tm.num_const(a) is None and tm.num_const(b) is None and (
        tm.contains(a, lambda u: u is b) or tm.contains(b, lambda u: u is a))


def plain(t):
    """the term without the numbering of this run (call contexts) and without positions in loops"""
    memo = {}

    def name(a):
        if isinstance(a, tuple) and len(a) > 2 and a[0] == "h":
            return ("h",) + a[2:]
        return a

    def go(u):
        if u.id not in memo:
            if u.op == "sym" and u.args[0] in ("phi", "phitw") and len(u.args) > 2:
                r = sym(u.args[0], u.args[1][:1] + u.args[1][2:], *[name(a) for a in u.args[2:]])
            elif u.op == "sym" and u.args[0] == "it":
                r = sym("it", u.args[1])
            elif u.op == "ix" and len(u.args) == 2 and isinstance(u.args[1], tm.T) and u.args[1].op == "sym" and u.args[1].args[0] == "it":
                r = go(u.args[0])
            elif u.op == "join":
                xs = {}
                for a in u.args:
                    for b in ([go(a)] if isinstance(a, tm.T) else []):
                        for c in b.args if b.op == "join" else (b,):
                            xs[c.id] = c
                xs = sorted(xs.values(), key=lambda c: c.id)
                r = xs[0] if len(xs) == 1 else mk("join", *xs)
            else:
                r = mk(u.op, *[go(a) if isinstance(a, tm.T) else a for a in u.args])
            memo[u.id] = r
        return memo[u.id]
    return go(t)


def reading(ctx):
    r = c05.lut(ctx, {"options": "all", "rows": True})
    if r.ret is None:
        return
    f = r.I.facts(r.ret)
    vs = {}
    for u in tm.subterms(f.term).values():
        ax = u.args[1:] if pw.fname(u) == "interp" else u.args if u.op == "interp" else None
        if ax and len(ax) == 3 and isgrid(ax[1]):
            t = Table(ax[1], ax[2])
            if not t.ok or t.row is None or tm.contains(t.row, lambda q: q.op == "sym" and q.args[0] == "it"):
                ctx.notes.append("the rows a reading uses were not identified")
                return
            vs[u] = t
    if not vs:
        ctx.notes.append("no reading of the table found")
        return
    ctx.count("readings of the table")
    A = next(iter(vs.values())).A
    if A is None:
        return
    av = [u for u in tm.subterms(f.term).values() if u.op == "sym" and u.args == ("arg", "alpha_value")]
    node = cm.retnode(r)
    for s in range(6):
        rnd = pw.Rnd(101 + s)
        base = {A.args[0]: 0.2, A.args[1]: 5.1, A.args[2]: 50.0}
        if av:
            base[av[0]] = rnd(0.2, 5.0, "alpha", s)
        pos = (base[av[0]] - 0.2) / 4.9 * 49 if av else None
        try:
            rows = {u: pw.num(t.row, rnd, base) for u, t in vs.items()}
            tot = pw.num(f.term, rnd, {**base, **{u: 1.0 for u in vs}})
            at = pw.num(f.term, rnd, {**base, **rows})
        except pw.Undecided:
            ctx.notes.append("the weights of a reading could not be evaluated")
            return
        if abs(tot - 1) > 1e-9:
            ctx.find("reading", node, "the weights of the rows that a reading blends do not add up to one", run=r, key="sum")
            return
        if pos is not None and abs(at - pos) > 1e-6:
            ctx.find("reading", node, "a reading does not blend its rows in proportion to the position of the discrimination between them", run=r, key="position")
            return
        if pos is not None and any(abs(x - pos) > 1 + 1e-9 for x in rows.values()):
            ctx.find("reading", node, "a reading blends rows that are not next to the discrimination", run=r, key="rows")
            return
