"""Transfer functions on element facts: element-wise operations, reductions,
contractions, axis bookkeeping.  Pure functions of (shape, F)."""
import math
from . import terms as tm
from .terms import mk, const, sym, same, SENT, has_sent, pconst
from .values import F, TOP, INF, EMPTY, cF

ONE = const(1)


# ------------------------------------------------------------------ intervals
def hull(a, b):
    if a == b:
        return a
    return (min(a[0], b[0]), max(a[1], b[1]))


def _mulb(x, y):
    if x == 0 or y == 0:
        return 0
    return x * y


def itv1(op, a):
    lo, hi = a
    try:
        if op == "abs":
            if lo >= 0:
                return a
            if hi <= 0:
                return (-hi, -lo)
            return (0, max(-lo, hi))
        if op == "exp":
            return (math.exp(lo) if lo > -700 else 0.0, math.exp(hi) if hi < 700 else INF)
        if op == "log":
            if hi <= 0:
                return TOP
            return (math.log(lo) if lo > 0 else -INF, math.log(hi) if hi < INF else INF)
        if op == "log1p":
            return (math.log1p(lo) if lo > -1 else -INF, math.log1p(hi) if -1 < hi < INF else INF)
        if op == "sqrt":
            return (math.sqrt(lo) if lo > 0 else 0, math.sqrt(hi) if 0 <= hi < INF else INF)
        if op == "square":
            b = itv1("abs", a)
            return (b[0] * b[0], b[1] * b[1])
        if op == "expit":
            return (0, 1)
        if op in ("sin", "cos", "tanh", "sign", "erf"):
            return (-1, 1)
        if op == "cosh":
            return (1, INF)
        if op == "arccos":
            return (0, math.pi)
        if op in ("floor", "trunc", "rint", "ceil", "round"):
            f = lambda v, g: v if abs(v) == INF else g(v)
            return (f(lo, math.floor), f(hi, math.ceil))
        if op in ("isnan", "isfinite", "isinf", "not", "isin", "bool"):
            return (0, 1)
        if op == "cdf":
            return (0, 1)
    except (OverflowError, ValueError):
        pass
    return TOP


def itv2(op, a, b):
    try:
        if op == "add":
            return (a[0] + b[0], a[1] + b[1])
        if op == "sub":
            return (a[0] - b[1], a[1] - b[0])
        if op == "mul":
            ps = [_mulb(x, y) for x in a for y in b]
            return (min(ps), max(ps))
        if op == "div":
            if b[0] > 0 or b[1] < 0:
                ps = []
                for x in a:
                    for y in b:
                        if abs(y) == INF:
                            ps.append(0 if abs(x) != INF else (INF if (x > 0) == (y > 0) else -INF))
                        else:
                            ps.append(x / y)
                return (min(ps), max(ps))
            if a[0] >= 0 and b[0] >= 0:
                return (0, INF)
            return TOP
        if op == "floordiv":
            if b[0] > 0:
                r = itv2("div", a, b)
                f = lambda v: v if abs(v) == INF else math.floor(v)
                return (f(r[0]), f(r[1]))
            return TOP
        if op == "mod":
            if b[0] > 0 and b[1] < INF:
                if a[0] >= 0 and a[1] < b[0]:
                    return a
                return (0, b[1])
            return TOP
        if op == "pow":
            if b[0] == b[1] and b[0] == int(b[0]) and 0 <= b[0] <= 8:
                n = int(b[0])
                if n % 2 == 0:
                    c = itv1("abs", a)
                    return (c[0] ** n, c[1] ** n)
                return (a[0] ** n, a[1] ** n)
            if a[0] >= 0:
                return (0, INF)
            return TOP
        if op == "max2":
            return (max(a[0], b[0]), max(a[1], b[1]))
        if op == "min2":
            return (min(a[0], b[0]), min(a[1], b[1]))
        if op in ("lt", "le", "eq", "ne", "gt", "ge", "and", "or"):
            return cmp_itv(op, a, b)
        if op in ("bitand", "bitor", "bitxor"):
            if 0 <= a[0] and a[1] <= 1 and 0 <= b[0] and b[1] <= 1:
                if op == "bitand":
                    return (min(a[0], b[0]) if a[0] == a[1] or b[0] == b[1] else 0, min(a[1], b[1]))
                if op == "bitor":
                    return (max(a[0], b[0]), max(a[1], b[1]))
                return (0, 1)
            return TOP
    except (OverflowError, ValueError):
        pass
    return TOP


def cmp_itv(op, a, b):
    if op == "gt":
        return cmp_itv("lt", b, a)
    if op == "ge":
        return cmp_itv("le", b, a)
    if op == "lt":
        if a[1] < b[0]:
            return (1, 1)
        if a[0] >= b[1]:
            return (0, 0)
    elif op == "le":
        if a[1] <= b[0]:
            return (1, 1)
        if a[0] > b[1]:
            return (0, 0)
    elif op == "eq":
        if a[1] < b[0] or b[1] < a[0]:
            return (0, 0)
        if a[0] == a[1] == b[0] == b[1]:
            return (1, 1)
    elif op == "ne":
        r = cmp_itv("eq", a, b)
        return (1 - r[1], 1 - r[0])
    elif op == "and":
        return (0, 0) if a == (0, 0) or b == (0, 0) else ((1, 1) if a == (1, 1) and b == (1, 1) else (0, 1))
    elif op == "or":
        return (1, 1) if a == (1, 1) or b == (1, 1) else ((0, 0) if a == (0, 0) and b == (0, 0) else (0, 1))
    return (0, 1)


CMP = {"lt", "le", "gt", "ge", "eq", "ne"}
BOOLOPS = CMP | {"and", "or", "not", "isnan", "isfinite", "isinf", "isin", "in", "is", "isnot"}
FLOATOPS = {"exp", "log", "log1p", "expm1", "sqrt", "sin", "cos", "cosh", "expit", "arccos", "div", "erfinv", "erf",
            "tanh", "cdf", "isf", "logit", "log2", "log10", "arctan", "arctan2", "hypot", "ppf", "pdf", "fn"}


# ---------------------------------------------------------------- storage type
def promote(dts, op="add", scalars=()):
    """storage type of an arithmetic result; scalars: indices of python/0-d operands"""
    inh = set()
    rank = -1
    order = {"N": -1, "U": -1, "b": 0, "i": 1, "f": 2, "g": 3, "c": 4}
    wide = False
    unk = False
    for i, d in enumerate(dts):
        if d.startswith("inh"):
            inh |= set(d.split(":", 1)[1].split(","))
            if d.startswith("inhw"):
                wide = True
        elif d in order:
            r = order[d]
            if r == 1 and i not in scalars:
                wide = True
            rank = max(rank, r)
        else:
            unk = True
    if op in BOOLOPS:
        return "b"
    if op in FLOATOPS:
        if unk:
            return "?"
        return "f" if rank < 3 else ("g" if rank == 3 else "c")
    if inh:
        if rank >= 2:
            return {2: "f", 3: "g", 4: "c"}[rank]
        if rank == 1 and len(scalars) == len(dts) and op not in ("where", "item"):
            wide = True                     # two scalars: numpy and python integers are at least 64 bits wide
        return ("inhw:" if wide else "inh:") + ",".join(sorted(inh))
    if unk:
        return "?"
    r = {-1: "?", 0: "b", 1: "i", 2: "f", 3: "g", 4: "c"}[rank]
    if r == "b" and op in ("add", "sub", "mul", "pow", "neg", "mod", "floordiv") and len(scalars) == len(dts):
        return "i"
    return r


def join_dt(a, b):
    if a == b:
        return a
    if a == "?" or b == "?":
        return "?"
    if a == "N":
        return b
    if b == "N":
        return a
    return promote([a, b])


# -------------------------------------------------------------------- axes
def remap(sel, axmap, lost="MIX"):
    """axmap: old axis -> new axis (int), ('at', term), or missing (axis was lost)"""
    if sel is None or sel == "MIX" or sel == "*":
        return sel
    if sel[0] == "ax":
        v = axmap.get(sel[1])
        if v is None:
            return lost
        if isinstance(v, int):
            return ("ax", v)
        return v
    return sel


def remapF(f, axmap):
    """facts after a pure axis renaming (no reduction)"""
    pl = remap(f.pl, axmap)
    miss = f.miss
    if miss:
        nm = {}
        for (root, i, p), tw in miss.items():
            nm[(root, remap(i, axmap, "*"), remap(p, axmap, "*"))] = tw
        miss = nm
    if pl == f.pl and miss is f.miss:
        return f
    return f.w(pl=pl, miss=miss)


def reat(f, idt, to):
    """facts about the element of iteration idt, with that position renamed"""
    def w(x):
        return to if isinstance(x, tuple) and x[0] == "at" and x[1] is idt else x
    pl = w(f.pl)
    miss = f.miss
    if any(w(k[1]) is not k[1] or w(k[2]) is not k[2] for k in miss):
        miss = {(k[0], w(k[1]), w(k[2])): v for k, v in miss.items()}
    if pl == f.pl and miss is f.miss:
        return f
    return f.w(pl=pl, miss=miss)


def shift(f, k):
    if k == 0 or (f.pl is None and not f.miss):
        return f
    return remapF(f, {i: i + k for i in range(12)})


def bdim(a, b):
    """broadcast of two dims; returns (dim, ok)"""
    if a is b:
        return a, True
    if a is ONE:
        return b, True
    if b is ONE:
        return a, True
    if same(a, b):
        return a, True
    if a.op == "const" and b.op != "const":
        return b, False
    return a, False


def bshape(shapes):
    """broadcast shapes -> (shape or None, list of mismatching dim pairs)"""
    if any(s is None for s in shapes):
        known = [s for s in shapes if s is not None]
        return (None, [])
    n = max(len(s) for s in shapes)
    out, bad = [], []
    for i in range(n):
        d = ONE
        for s in shapes:
            j = i - (n - len(s))
            if j >= 0:
                nd, ok = bdim(d, s[j])
                if not ok:
                    bad.append((d, s[j]))
                d = nd
        out.append(d)
    return tuple(out), bad


def join_pl(pls):
    r = None
    for p in pls:
        if p is None or p == r:
            continue
        if r is None:
            r = p
        else:
            return "MIX"
    return r


def tw(f, src):
    """what operand f is when the source cell src is missing"""
    v = f.miss.get(src)
    return v if v is not None else (f.term, f.itv)


SENT_ITV = (tm.SENTINEL_VALUE, tm.SENTINEL_VALUE)


def prop1(op, props):
    if not props:
        return EMPTY
    if op in ("not", "invert"):
        m = {"somefalse": "sometrue", "sometrue": "somefalse"}
        return frozenset(m[p] for p in props if p in m)
    if op == "abs":
        return frozenset({"somebig"} if ("somebig" in props) else ()) | frozenset(p for p in props if p == "somebig")
    if op in ("copy", "asarray"):
        return props
    return EMPTY


def fold_itv_const(op, term, itv):
    """a boolean whose interval is a point is that constant"""
    if op in BOOLOPS and itv in ((0, 0), (1, 1)):
        return const(bool(itv[0]))
    return term


def elementwise(op, fs, shapes, scalars=(), termargs=None):
    """facts of op applied element by element.  fs: operand facts, shapes: their
    shapes (None = unknown).  Selectors are aligned to the broadcast result."""
    shape, mism = bshape(shapes)
    al = []
    n = None if shape is None else len(shape)
    for f, s in zip(fs, shapes):
        if n is not None and s is not None:
            al.append(shift(f, n - len(s)))
        elif n is None and s is not None and len(s) == 0:
            al.append(f)
        elif n is None:
            al.append(f)
        else:
            al.append(f)
    fs = al
    if len(fs) == 1:
        itv = itv1(op, fs[0].itv)
        if op == "neg":
            itv = (-fs[0].itv[1], -fs[0].itv[0])
        if op in ("pos", "real", "copy"):
            itv = fs[0].itv
        if op in ("not", "invert"):
            b = fs[0].itv
            itv = (1 - b[1], 1 - b[0]) if 0 <= b[0] and b[1] <= 1 else TOP
    elif len(fs) == 2:
        itv = itv2(op, fs[0].itv, fs[1].itv)
    elif op == "where":
        c = fs[0].itv
        itv = fs[1].itv if c[0] >= 1 and c[1] <= 1 else fs[2].itv if c == (0, 0) else hull(fs[1].itv, fs[2].itv)
    elif op == "clip":
        itv = itv2("min2", itv2("max2", fs[0].itv, fs[1].itv), fs[2].itv)
    else:
        itv = TOP
    term = _term(op, [f.term for f in fs])
    term = fold_itv_const(op, term, itv)
    c = pconst(term) if term.op == "const" else None
    if c is not None and op not in BOOLOPS:
        itv = (c, c)
    srcs = {}
    for f in fs:
        for s in f.miss:
            srcs[s] = None
    miss = {}
    for s in srcs:
        parts = [tw(f, s) for f in fs]
        t = _term(op, [p[0] for p in parts])
        if len(parts) == 1:
            ti = itv1(op, parts[0][1])
            if op == "neg":
                ti = (-parts[0][1][1], -parts[0][1][0])
            elif op in ("pos", "real", "copy"):
                ti = parts[0][1]
            elif op in ("not", "invert"):
                b = parts[0][1]
                ti = (1 - b[1], 1 - b[0]) if 0 <= b[0] and b[1] <= 1 else TOP
        elif len(parts) == 2:
            ti = itv2(op, parts[0][1], parts[1][1])
        elif op == "where":
            cc = parts[0][1]
            if cc == (1, 1):
                t, ti = parts[1]
            elif cc == (0, 0):
                t, ti = parts[2]
            else:
                ti = hull(parts[1][1], parts[2][1])
        elif op == "clip":
            ti = itv2("min2", itv2("max2", parts[0][1], parts[1][1]), parts[2][1])
        else:
            ti = TOP
        t = fold_itv_const(op, t, ti)
        k = pconst(t) if not has_sent(t) else None
        if k is not None and t.op != "const" and not isinstance(k, bool):
            t = const(k)
        if t.op == "const" and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool):
            ti = (t.args[0], t.args[0])
        elif t.op == "const" and isinstance(t.args[0], bool):
            ti = (int(t.args[0]),) * 2
        miss[s] = (t, ti)
    deps = frozenset().union(*[f.deps for f in fs])
    bad = badlabels(op, fs)
    trial = frozenset().union(*[f.trial for f in fs])
    props = EMPTY
    if len(fs) == 1:
        props = prop1(op, fs[0].props)
    elif len(fs) == 2:
        props = prop2(op, fs)
    if op == "where":
        dt = join_dt(fs[1].dt, fs[2].dt)
    elif op == "clip":
        dt = fs[0].dt
    elif op in ("neg", "pos", "abs", "copy", "real", "sign", "square", "invert"):
        dt = fs[0].dt
        if dt == "b" and op in ("neg", "abs", "sign", "square") and 0 in scalars:
            dt = "i"
    else:
        dt = promote([f.dt for f in fs], op, scalars)
    return shape, F(term, itv, dt, deps, join_pl([f.pl for f in fs]), miss, bad, trial, props), mism


def _term(op, ts):
    if op == "clip":
        x, lo, hi = ts
        t = x
        if lo.op == "const" and lo.args[0] is None:
            pass
        else:
            t = mk("max2", t, lo)
        if hi.op == "const" and hi.args[0] is None:
            pass
        else:
            t = mk("min2", t, hi)
        return t
    if op in ("pos", "real", "copy"):
        return ts[0]
    if op == "invert":
        return mk("not", ts[0])
    return mk(op, *ts)


def prop2(op, fs):
    a, b = fs
    r = set()
    if op in CMP:
        for x, y, o in ((a, b, op), (b, a, {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(op, op))):
            if "somenonpos" in x.props and y.itv == (0, 0):
                if o == "gt":
                    r.add("somefalse")
                if o == "le":
                    r.add("sometrue")
            if "somebig" in x.props and y.itv[1] <= 1e-3:
                if o in ("lt", "le"):
                    r.add("somefalse")
                if o in ("gt", "ge"):
                    r.add("sometrue")
        ka = {p for p in a.props if p.startswith("lo:")}
        kb = {p for p in b.props if p.startswith("hi:")}
        # lower columns compared with upper columns of the same non-ascending table
        for p in ka:
            if "hi:" + p[3:] in kb:
                if op == "lt":
                    r.add("somefalse")
                if op == "ge":
                    r.add("sometrue")
        ka = {p for p in a.props if p.startswith("hi:")}
        kb = {p for p in b.props if p.startswith("lo:")}
        for p in ka:
            if "lo:" + p[3:] in kb:
                if op == "gt":
                    r.add("somefalse")
                if op == "le":
                    r.add("sometrue")
        # the matching ascending facts
        for up, lowr in ((a, b), (b, a)):
            for p in lowr.props:
                if p.startswith("alo:") and "ahi:" + p[4:] in up.props:
                    o = op if up is a else {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(op, op)
                    if o in ("gt", "ge", "ne"):
                        r.add("alltrue")
                    if o in ("lt", "le", "eq"):
                        r.add("allfalse")
        for x, y, o in ((a, b, op), (b, a, {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(op, op))):
            if "allpos" in x.props and y.itv == (0, 0):
                if o in ("gt", "ge", "ne"):
                    r.add("alltrue")
                if o in ("le", "lt", "eq"):
                    r.add("allfalse")
    if op == "sub":
        ka = {p[3:] for p in a.props if p.startswith("hi:")}
        kb = {p[3:] for p in b.props if p.startswith("lo:")}
        if ka & kb:
            r.add("somenonpos")
        ka = {p[4:] for p in a.props if p.startswith("ahi:")}
        kb = {p[4:] for p in b.props if p.startswith("alo:")}
        if ka & kb:
            r.add("allpos")
        if "asym" in a.props and "asymcol" in b.props:
            r.add("asymc")
        if "asym" in b.props and "asymcol" in a.props:
            r.add("asymc")
    return frozenset(r)


# ---------------------------------------------------------- inertness labels
KEEPPART = {"neg", "abs", "copy", "pos", "real", "asarray", "astype", "trunc", "float", "int"}
PARTS = ("part", "psel")


def fulldim(t):
    """does this number involve the number of rows or columns of a whole array (not of a selection of it)"""
    if t.op == "sym":
        return bool(t.args) and t.args[0] == "dim"
    if t.op in ("add", "mul", "neg", "sub", "div"):
        return any(fulldim(a) for a in t.args if isinstance(a, tm.T))
    return False


def badlabels(op, fs):
    """marks a value takes over from its operands: offset / scale cancel against each other; part (a sum over the responses
    that are present) becomes frac when it is measured against a count that includes the missing ones"""
    out = set()
    labs = [f.bad for f in fs]
    if not any(labs):
        return EMPTY
    if len(fs) == 1:
        for l in labs[0]:
            if l[0] == "scale" and op == "log":
                out.add(("offset",) + l[1:])
            elif l[0] == "offset" and op == "exp":
                out.add(("scale",) + l[1:])
            elif l[0] in PARTS and op not in KEEPPART:
                continue
            elif l[0] == "frac" and op not in KEEPPART:
                out.add(("contrib", l[1] + " is measured against a number that includes missing responses"))
            else:
                out.add(l)
        return frozenset(out)
    if len(fs) == 2:
        a, b = labs
        pa, pb = (any(l[0] == "part" for l in x) for x in labs)
        for l in a | b:
            both = l in a and l in b
            if l[0] == "offset":
                if op == "sub" and both:
                    continue
                out.add(l)
            elif l[0] == "scale":
                if op == "div" and both:
                    continue
                out.add(l)
            elif l[0] == "part":
                if op == "div" and (pa and pb or fs[1].term.op in ("seldim", "count")):
                    continue
                if pa != pb and op in ("add", "sub", "div", "eq", "ne", "lt", "le", "gt", "ge", "fn", "max2", "min2") \
                        and fulldim(fs[1].term if pa else fs[0].term):
                    out.add(("frac", l[1]))
                elif op in ("add", "sub", "mul", "div"):
                    out.add(l)
            elif l[0] == "psel":
                if op in ("add", "sub", "mul", "div", "pow"):
                    out.add(l)
            elif l[0] == "frac" and (op not in ("add", "sub", "mul", "div") or op == "mul" and l in a and l in b or op == "div" and l in b):
                out.add(("contrib", l[1] + " is measured against a number that includes missing responses"))
            else:
                out.add(l)
        return frozenset(out)
    for l in labs:
        out |= l
    return frozenset(out)


SPREAD = {"var", "std", "nanvar", "nanstd", "corrcoef", "cov", "ptp"}


ADDS = ("sum", "nansum", "count_nonzero")
NEUTRAL = {"sum": (0, False), "prod": (1, True), "count_nonzero": (0, False), "any": (0, False), "all": (1, True),
           "nansum": (0, False), "nanprod": (1, True), "logsum": (0,)}


def reduce_(op, shape, f, axes, keepdims=False, where=None, site="", extra=()):
    """reduction over `axes` (tuple of ints, or None = all).  where = (shape, F) mask."""
    notes = []
    if shape is None:
        nshape = None if axes is not None or keepdims else ()
        axset = None
        n = None
    else:
        n = len(shape)
        if axes is None:
            axset = set(range(n))
        else:
            axset = {a % n if n else a for a in axes}
        nshape = []
        axmap = {}
        for i, d in enumerate(shape):
            if i in axset:
                if keepdims:
                    nshape.append(ONE)
            else:
                axmap[i] = len(nshape)
                nshape.append(d)
        nshape = tuple(nshape)
    wf = None
    if where is not None:
        wf = where[1]
        if shape is not None and where[0] is not None:
            wf = shift(wf, len(shape) - len(where[0]))

    def touches(sel):
        if sel is None or sel in ("MIX", "*"):
            return axset is None and sel == "*"
        if sel[0] == "ax":
            return axset is None or sel[1] in axset
        return False

    pl = f.pl
    if wf is not None:
        pl = join_pl([pl, wf.pl])
    if pl is not None and pl != "MIX" and pl[0] == "ax":
        pl = "MIX" if axset is None or pl[1] in axset else ("ax", axmap[pl[1]])
    axt = "*" if shape is None else tuple(sorted(axset))
    wt = (wf.term,) if wf is not None else ()
    ext = [op, axt, keepdims]

    def rterm(t, w):
        # canonical: mean etc. keep own op; reductions of constants fold where exact
        if t.op == "const" and op in ("max", "min") and not w:
            return t
        if num_zero(t) and op in ("sum", "nansum", "mean", "max", "min", "std", "var"):
            return const(0)
        if num_one(t) and op in ("prod", "max", "min", "mean"):
            return const(1)
        return mk("red", op, axt, t, *w)

    term = rterm(f.term, wt)
    miss = {}
    bad = set(f.bad) | (set(wf.bad) if wf is not None else set())
    for l in [l for l in bad if l[0] in PARTS]:
        bad.discard(l)
        if l[0] == "psel" and op in ADDS or l[0] == "part" and op in ADDS + ("cumsum",):
            bad.add(("part", l[1] if l[0] == "part" else f"{site}: {op}"))
        elif l[0] == "part" and op in SPREAD:
            bad.add(("frac", f"{site}: {op} of " + l[1]))
        elif l[0] == "part" and op in ("max", "min", "mean", "nanmean", "median"):
            bad.add(l)
    srcs = dict(f.miss)
    if wf is not None:
        for s in wf.miss:
            srcs.setdefault(s, None)
    for s in srcs:
        root, isel, psel = s
        t, ti = tw(f, s)
        wtw = None
        if wf is not None:
            wtw = tw(wf, s)
        if touches(isel) or touches(psel) or axset is None:
            if wtw is not None and wtw[1] == (0, 0):
                if op in ADDS:
                    bad.add(("part", f"{site}: {op}"))
                continue                       # excluded by the mask
            if op.startswith("nan") and t.op == "nan":
                if op in ADDS:
                    bad.add(("part", f"{site}: {op}"))
                continue
            c = None if has_sent(t) else pconst(t) if t.op != "const" else t.args[0]
            if c is not None and op in NEUTRAL and c in NEUTRAL[op]:
                if op in ADDS:
                    bad.add(("part", f"{site}: {op}"))
                continue
            if op in ("sum", "nansum") and t.op == "const" and t.args[0] in (0, False):
                bad.add(("part", f"{site}: {op}"))
                continue
            if has_sent(t):
                bad.add(("sent", f"{site}: {op} includes the missing-response placeholder"))
            elif op in ("sum", "nansum"):
                bad.add(("offset", site, t))
            elif op == "prod" and c is not None:
                bad.add(("scale", site, t))
            elif op in ("count_nonzero", "any", "all", "mean", "var", "std", "min", "max", "median", "argmax", "argmin",
                        "prod", "nanmean", "nanvar", "nanstd", "nanmin", "nanmax", "ptp", "cumsum"):
                bad.add(("contrib", f"{site}: {op} counts missing responses as {tm.show(t)[:60]}"))
            else:
                bad.add(("contrib", f"{site}: {op} over missing responses"))
            continue
        ns = (root, remap(isel, axmap, "*"), remap(psel, axmap, "*")) if shape is not None else s
        miss[ns] = (rterm(t, (wtw[0],) if wtw is not None else ()), red_itv(op, ti, shape, axset))
    # scale labels do not survive a sum over respondents
    if any(l[0] == "scale" for l in bad) and op in ("sum", "nansum", "mean") and f.pl is not None and f.pl != "MIX" \
            and f.pl[0] == "ax" and (axset is None or f.pl[1] in axset):
        bad = {("contrib", l[1] + ": a constant factor per missing response enters a sum over respondents")
               if l[0] == "scale" else l for l in bad}
    itv = red_itv(op, f.itv, shape, axset)
    props = EMPTY
    if f.props:
        r = set()
        if op == "all" and "somefalse" in f.props:
            itv, term = (0, 0), tm.FALSE
        if op == "any" and "sometrue" in f.props:
            itv, term = (1, 1), tm.TRUE
        if op == "all" and "alltrue" in f.props:
            itv, term = (1, 1), tm.TRUE
        if op == "any" and "allfalse" in f.props:
            itv, term = (0, 0), tm.FALSE
        if op == "all" and "allfalse" in f.props:
            itv, term = (0, 0), tm.FALSE
        if op == "any" and "alltrue" in f.props:
            itv, term = (1, 1), tm.TRUE
        if op == "sum" and "asymc" in f.props:
            r.add("somebig")
        if op == "max" and "somebig" in f.props:
            r.add("somebig")
        if op == "min" and "somenonpos" in f.props:
            r.add("somenonpos")
        if op == "min" and "allpos" in f.props:
            r.add("allpos")
        props = frozenset(r)
    if op in ("all", "any") and f.term.op == "const" and isinstance(f.term.args[0], bool):
        term = f.term
    if op in ("all", "any") and itv in ((0, 0), (1, 1)):
        term = const(bool(itv[0]))
    deps = f.deps | (wf.deps if wf is not None else EMPTY)
    trial = f.trial | (wf.trial if wf is not None else EMPTY)
    dt = red_dt(op, f.dt)
    return nshape, F(term, itv, dt, deps, pl, miss, frozenset(bad), trial, props)


def num_zero(t):
    return t.op == "const" and not isinstance(t.args[0], str) and t.args[0] is not None and t.args[0] == 0 \
        and isinstance(t.args[0], (int, float))


def num_one(t):
    return t.op == "const" and isinstance(t.args[0], (int, float)) and t.args[0] == 1


def red_itv(op, itv, shape, axset):
    if op in ("min", "max", "mean", "median", "nanmean", "nanmin", "nanmax", "percentile"):
        return itv
    if op in ("any", "all"):
        return itv if itv in ((0, 0), (1, 1)) else (0, 1)
    if op in ("count_nonzero",):
        return (0, INF)
    if op in ("argmax", "argmin"):
        return (0, INF)
    if op in ("var", "std", "nanvar", "nanstd", "norm"):
        return (0, 0) if itv[0] == itv[1] and abs(itv[0]) != INF else (0, INF)
    if op in ("sum", "nansum", "cumsum"):
        if itv == (0, 0):
            return (0, 0)
        return (0 if itv[0] >= 0 else -INF, 0 if itv[1] <= 0 else INF)
    if op in ("prod", "cumprod"):
        if itv[0] >= 0 and itv[1] <= 1:
            return (0, 1)
        if itv[0] >= 0:
            return (0, INF)
        return TOP
    if op == "ptp":
        return (0, INF)
    return TOP


def red_dt(op, dt):
    if op in ("any", "all"):
        return "b"
    if op in ("count_nonzero", "argmax", "argmin"):
        return "i"
    if op in ("mean", "var", "std", "median", "nanmean", "nanvar", "nanstd", "percentile"):
        return dt if dt in ("g", "c") else "f"
    if op in ("sum", "prod", "nansum", "cumsum", "cumprod"):
        if dt == "b":
            return "i"
        if dt.startswith("inh:"):
            return "inhw:" + dt.split(":", 1)[1]
        return dt
    return dt


def contract(a, b, ashape, bshape_, ax_a, ax_b, out_axes_a, out_axes_b, nvirt, site="", op="dot"):
    """sum over virtual axis 0 of a*b.  ax maps: operand axis -> virtual axis.
    virtual axes 1.. are the result axes, in order."""
    fa = remapF(a, ax_a)
    fb = remapF(b, ax_b)
    vs = [None] * nvirt
    for i, d in enumerate(ashape):
        v = ax_a[i]
        vs[v] = d if vs[v] is None else bdim(vs[v], d)[0]
    for i, d in enumerate(bshape_):
        v = ax_b[i]
        vs[v] = d if vs[v] is None else bdim(vs[v], d)[0]
    vs = tuple(d if d is not None else ONE for d in vs)
    _, p, _ = elementwise("mul", [fa, fb], [vs, vs])
    shape, r = reduce_("sum", vs, p, (0,), site=site)
    if p.dt.startswith("inh:") or p.dt == "b":      # a product of arrays adds in the type of the operands
        r = r.w(dt=p.dt)
    return shape, r


# ------------------------------------------------------------------ joins
def joinF(a, b, term=None):
    """least upper bound of two facts; `term` names the merged value"""
    if a is b:
        return a
    t = a.term if a.term is b.term else (term if term is not None else mk("join", *sorted((a.term, b.term), key=lambda x: x.id)))
    miss = a.miss
    if a.miss != b.miss:
        miss = {}
        for s in list(a.miss) + [s for s in b.miss if s not in a.miss]:
            x, y = tw(a, s), tw(b, s)
            if x[0] is y[0]:
                miss[s] = (x[0], hull(x[1], y[1]))
            elif has_sent(x[0]) or has_sent(y[0]):
                miss[s] = (mk("joinS", SENT), hull(x[1], y[1]))
            elif x[0] is a.term and y[0] is b.term:
                continue                    # inert on both sides
            else:
                miss[s] = (mk("join", *sorted((x[0], y[0]), key=lambda q: q.id)), hull(x[1], y[1]))
    return F(t, hull(a.itv, b.itv), join_dt(a.dt, b.dt), a.deps | b.deps, join_pl([a.pl, b.pl]), miss,
             a.bad | b.bad, a.trial | b.trial, a.props & b.props)
