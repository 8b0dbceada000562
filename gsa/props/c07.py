"""C07: results depend on the numbers, not on the type they are stored in."""
from .. import entries as E
from .. import terms as tm
from ..values import *   # noqa
from . import common as cm

ASSUMPTIONS = ["numpy's promotion rules (1.x): python numbers and 0-d values do not widen an array; integer sums and counts are at least 64 bits wide",
               "responses are non-negative; the declared scale of reverse_score and of the contingency tables (first and last category) fits the caller's type",
               "real-valued parameters are stored as floating point or as integers wide enough for differences and products of parameters"]
CAP = {"#int8": (-128, 127), "#uint8": (0, 255), "#int16": (-32768, 32767), "#uint16": (0, 65535), "#bool": (0, 1)}
PAR = "inh:par"


def sources(dt):
    return set(dt.split(":", 1)[1].split(",")) if dt.startswith("inh") else set()


def capacity(I, dt):
    """the values every storage type of these sources can hold: the range of the data, zero and one"""
    lo, hi = 0, 1
    caps = []
    for s in sources(dt):
        if s in CAP:
            caps.append(CAP[s])
        elif not s.startswith("p."):
            f = I.dtsrc.get(s)
            caps.append(f if f is not None else (0, 1))
    if not caps:
        return (lo, hi)
    # a result combining several sources is as wide as the widest of them
    return (min([lo] + [c[0] for c in caps]), max([hi] + [c[1] for c in caps]))


def fits(I, dt, f):
    lo, hi = capacity(I, dt)
    if lo <= f.itv[0] and f.itv[1] <= hi:
        return True
    return scale(I, f)


def scale(I, f):
    """c - x with x on the declared scale [1, m]: affine, mapping the ends of the scale on themselves"""
    if I.dtscale is None:
        return False
    lo, hi, x = I.dtscale
    atoms = {u for u in tm.subterms(f.term).values() if u is x or u.op in ("take", "ix", "item", "gather") and u.args and u.args[0] is x}
    outer = {u for u in atoms if not any(v is not u and tm.contains(v, lambda q, u=u: q is u) for v in atoms)}
    if len(outer) != 1:
        return False
    x = outer.pop()
    a = tm.replace(f.term, {x: lo})
    b = tm.replace(f.term, {x: hi})
    return (tm.same(a, hi) and tm.same(b, lo)) or (tm.same(a, lo) and tm.same(b, hi))


def data_only(dt):
    return any(not s.startswith("p.") for s in sources(dt))


def check(ctx):
    for n, ent in E.ENTRIES.items():
        for sc in cm.scenarios(n, ctx.tier):
            r = ctx.run(n, dict(sc, pdt=PAR), tag="c07")
            cm.must_return(ctx, r)
            judge(ctx, n, r)
    for name, sc, call in extra():
        r = ctx.custom(name, sc, call)
        judge(ctx, name, r)
    ctx.need("calls with the caller's storage type left open", 30)
    ctx.need("stores into the caller's storage type", 4)
    return ("Every public call is analysed with the storage type of its array arguments left open: the type of a value is 'the caller's', followed through numpy's promotion "
            "rules, until an operation fixes it. Reported are: a value used as an index, size or count while its type is the caller's; a real number, or a number outside the "
            "range of the data, stored in an array of the caller's type; arithmetic on responses whose result leaves that range, subtraction and bit operations that boolean "
            "or floating point arrays do not support; half precision functions of 8-bit numbers; conversions to a narrow type that cannot hold the numbers; and a shared "
            "buffer read with another type than it was written with.")


def extra():
    def spline(I, sc):
        a = E.arr_param(I, "x_position", (sym("dim", "x_position", 0),), dt=PAR)
        return I.call(I.getattr_raw(E.resolve(I, "girth.CubicSplinePDF"), "cubic_spline"), [a], {}, E.SITE)
    return [("girth.CubicSplinePDF.cubic_spline", {}, spline)]


def judge(ctx, n, r):
    I = r.I
    ctx.count("calls with the caller's storage type left open")
    prepare(I, n)
    views = {}
    for e in I.events.values():
        k = e.kind
        if k == "resuse" and e.d.get("dt") is not None:
            ctx.count("views of shared buffers")
            d = views.setdefault(e.name, (e.dt, e.node))
            if d[0] != e.dt:
                ctx.find("buffer", e.node, f"{n}: a shared buffer is read as {e.dt} but was written as {d[0]}", ctx=e.ctx, run=r)
        if k == "index":
            ctx.count("positions and sizes examined")
            if sources(e.dt) - set(CAP):
                ctx.find("index", e.node, f"{n}: a number stored in the caller's type is used as a position or size: floating point fails, booleans select instead", ctx=e.ctx, run=r)
        elif k == "store" and e.cdt.startswith("inh"):
            ctx.count("stores into the caller's storage type")
            if e.d.get("mitv") == (0, 0):
                continue
            real = e.vdt.startswith("inh") and not {s for s in sources(e.vdt) if s.startswith("p.")} <= sources(e.cdt)
            if e.cdt.startswith("inh:#") and sources(e.cdt) <= set(CAP):
                if not fits(I, e.cdt, e.vf):
                    ctx.find("store", e.node, f"{n}: values in [{e.vf.itv[0]}, {e.vf.itv[1]}] are stored in an array of type {e.cdt[5:]}", ctx=e.ctx, run=r)
            elif e.vdt in ("f", "g", "c", "h") or real:
                if not sources(e.cdt) <= set(CAP):
                    ctx.find("store", e.node, f"{n}: real numbers are stored in an array of the caller's type: integers would truncate them", ctx=e.ctx, run=r)
            elif e.cdt.startswith("inh:") and data_only(e.cdt) and not fits(I, e.cdt, e.vf):
                ctx.find("store", e.node, f"{n}: values in [{e.vf.itv[0]}, {e.vf.itv[1]}] are stored in an array of the caller's type, which holds [{capacity(I, e.cdt)[0]}, {capacity(I, e.cdt)[1]}]",
                         ctx=e.ctx, run=r)
        elif k == "arith":
            ctx.count("arithmetic in the caller's storage type")
            if e.op == "pow":
                if len(e.fs) == 2 and e.fs[1].itv[0] < 0 and e.fs[1].dt in ("i",):
                    ctx.find("power", e.node, f"{n}: a number of the caller's type is raised to a negative integer power: integers fail", ctx=e.ctx, run=r)
                if not e.dt.startswith("inh:"):
                    continue
            if not data_only(e.dt):
                continue
            if e.op in ("sub", "neg") and all(f.dt.startswith("inh:") for f in e.fs) and not sources(e.dt) <= set(CAP):
                ctx.find("boolean", e.node, f"{n}: numbers of the caller's type are subtracted: booleans fail", ctx=e.ctx, run=r)
            elif not fits(I, e.dt, e.f):
                ctx.find("overflow", e.node, f"{n}: the result lies in [{e.f.itv[0]}, {e.f.itv[1]}] but is computed in the caller's type, which holds "
                         f"[{capacity(I, e.dt)[0]}, {capacity(I, e.dt)[1]}]", ctx=e.ctx, run=r)
        elif k == "bitop":
            if sources(e.dt) - set(CAP):
                ctx.find("bits", e.node, f"{n}: a bit operation on numbers of the caller's type: booleans, integers and floats differ", ctx=e.ctx, run=r)
        elif k == "half":
            if data_only(e.dt) or sources(e.dt) & set(CAP):
                ctx.find("precision", e.node, f"{n}: {e.op} of numbers in the caller's type has half precision for 8-bit types", ctx=e.ctx, run=r)
        elif k == "cast" and e.cdt.startswith("inh:#"):
            c = CAP["#" + e.cdt.split("#")[1]]
            ctx.count("narrowing conversions")
            for lo, hi in [e.f.itv] + [w[1] for w in e.f.miss.values()]:
                if not (c[0] <= lo and hi <= c[1]):
                    ctx.find("narrow", e.node, f"{n}: numbers in [{lo}, {hi}] are converted to {e.cdt[5:]}", ctx=e.ctx, run=r)


def prepare(I, n):
    I.dtsrc = {}
    I.dtscale = None
    for p, v in I.params.items():
        s, f = v
        if f.dt.startswith("inh:"):
            for q in sources(f.dt):
                I.dtsrc[q] = f.itv
            if p == "dataset" and "max_val" in I.params:
                I.dtscale = (tm.ONE, I.params["max_val"][1].term, f.term)
