"""Arrays: views, indexing, stores, element-wise operations, reductions and the
numpy functions the package uses (plus their usual alternatives)."""
import ast
import math
from . import terms as tm
from .terms import mk, const, sym, same, SENT, has_sent
from .values import (F, cF, V, Sc, Arr, Tup, Ref, Ext, Meth, Prim, It, U, Unk, Fn, Partial,
                     ArrC, ListC, DictC, ObjC, RngC, TOP, INF, EMPTY)
from . import facts as fx

ONE, ZERO = tm.ONE, tm.ZERO
COLON = const(":")
UDIM = "udim"


# ------------------------------------------------------------------ dimensions
def tdeps(t):
    """influence labels carried by the numbers a dimension is made of"""
    out = set()
    for a in tm.subterms(t).values():
        if a.op == "sym" and len(a.args) >= 2 and a.args[0] in ("opt", "default", "arg") and isinstance(a.args[1], str):
            out.add(f"{a.args[0]}:{a.args[1]}")
    return frozenset(out)


def is_pdim(I, t):
    """does this number count respondents?"""
    pd = getattr(I, "pdims", ())
    if not pd:
        return False
    if t in pd:
        return True
    if t.op in ("seldim", "count", UDIM, "add", "mul", "len", "div", "floordiv", "max2", "min2"):
        for a in tm.subterms(t).values():
            if a in pd:
                return True
    return False


def short_of(I, n):
    """is this number the number of respondents (or of their distinct answers) less a constant?"""
    for d in tm.subterms(n).values():
        if d is not n and (d in (getattr(I, "pdims", None) or ()) or d.op in (UDIM, "seldim") and (is_pdim(I, d) or tm.contains(d, lambda u: u.op == UDIM))):
            c = tm.num_const(mk("sub", d, n))
            if c is not None and c > 0:
                return True
    return False


def nonzero_dim(t):
    c = tm.num_const(t)
    if c is not None:
        return c > 0
    if t.op == "sym" and t.args and t.args[0] in ("dim", "opt"):
        return True
    if t.op == "add":
        lo = dim_itv(t)[0]
        return lo > 0
    if t.op == "mul":
        return all(nonzero_dim(a) for a in t.args)
    return False


MINDIM = {}


def dim_itv(t):
    c = tm.num_const(t)
    if c is not None:
        return (c, c)
    if t.op == "sym":
        if t.args and t.args[0] == "dim":
            return (MINDIM.get(t, 1), INF)
        if t.args[:2] == ("opt", "max_iteration"):
            return (1, INF)
        if t.args[:2] == ("opt", "quadrature_n") or t.args[:2] == ("opt", "hyper_quadrature_n"):
            return (8, INF)
        if t.args[:2] == ("opt", "number_of_samples"):
            return (5, INF)
        return (0, INF)
    if t.op == "add":
        return fx.itv2("add", dim_itv(t.args[0]), dim_itv(t.args[1]))
    if t.op == "mul":
        return fx.itv2("mul", dim_itv(t.args[0]), dim_itv(t.args[1]))
    return (0, INF)


def dimval(I, d):
    lo, hi = dim_itv(d)
    bad = EMPTY
    if I.dimbad:
        bad = frozenset().union(*[I.dimbad[u] for u in tm.subterms(d).values() if u in I.dimbad])
    return Sc(F(d, (max(lo, 0), hi), "i", tdeps(d) | I.dimdeps.get(d, EMPTY), "MIX" if is_pdim(I, d) else None, bad=bad))


def dim_of(I, v):
    """dimension term of a size argument"""
    if isinstance(v, Sc):
        return v.f.term
    if isinstance(v, (Unk, Arr)):
        return I.facts(v).term
    return sym("dimof", str(type(v)))


def need_int(I, f, node=None, code=True):
    """a number used where only an integer will do: a size, a count, a position"""
    if I.codes is not None and f is not None and code:
        sizeby(I, f, node)
    if f is not None and f.dt.startswith("inh") and getattr(I, "phase", None) == "run":
        n = node if node is not None else I.curnode()
        if n is not None:
            I.ev("index", n, key=f.term, dt=f.dt, f=f)


def shape_of(I, v):
    """shape tuple from a shape argument; None when its rank is unknown"""
    if isinstance(v, Sc):
        note_dim(I, v.f)
        return (v.f.term,)
    items = I.items_of(v)
    if items is not None:
        for x in items:
            if isinstance(x, Sc):
                note_dim(I, x.f)
        return tuple(dim_of(I, x) for x in items)
    return None


def note_dim(I, f, node=None, code=True):
    need_int(I, f, node, code)
    if f.deps and not f.deps <= I.dimdeps.get(f.term, EMPTY):
        I.dimdeps[f.term] = I.dimdeps.get(f.term, EMPTY) | f.deps


def total(shape):
    t = ONE
    for d in shape:
        t = mk("mul", t, d)
    return t


# ------------------------------------------------------------------ view steps
def ixterm(t, key):
    if t.op in ("const", "SENT", "nan"):
        return t
    if all(k is COLON for k in key):
        return t
    if t.op == "arange" and len(t.args) == 3 and len(key) == 1:
        # entry k of first, first + step, ...
        k = key[0]
        n = tm.num_const(k) if isinstance(k, tm.T) else None
        if n is not None and n >= 0 or isinstance(k, tm.T) and k.op == "sym" and k.args and k.args[0] == "it":
            return mk("add", t.args[0], mk("mul", k, t.args[2]))
    return mk("ix", t, *key)


def countneg(t):
    """minus a sum of counts: -n, -(n+1), -2*n"""
    p = tm.poly(t)
    return bool(p) and all(c < 0 for c in p.values()) and any(m for m in p)


def slice_dim(d, lo, hi, st):
    """(new dim, is the whole axis)"""
    l = lo if lo is not None else None
    h = hi if hi is not None else None
    s = tm.num_const(st) if st is not None else 1
    if s is None:
        return mk("sldim", d, l or tm.NONE, h or tm.NONE, st), False
    if (l is None or tm.num_const(l) == 0) and (h is None or h is d) and s == 1:
        return d, True
    if s == -1 and l is None and h is None:
        return d, False
    if s != 1:
        return mk("sldim", d, l or tm.NONE, h or tm.NONE, const(s)), False
    cl = tm.num_const(l) if l is not None else 0
    ch = tm.num_const(h) if h is not None else None
    start = ZERO if l is None else (mk("add", d, l) if cl is not None and cl < 0 or cl is None and countneg(l) else l)
    stop = d if h is None else (mk("add", d, h) if ch is not None and ch < 0 or h is not None and ch is None and countneg(h) else h)
    if ch is not None and ch >= 0:
        cd = tm.num_const(d)
        if cd is not None:
            stop = const(min(cd, ch))
    r = mk("sub", stop, start)
    k = tm.num_const(r)
    if k is not None and k < 0:
        r = ZERO
    return r, False


def step(shape, f, st):
    """apply one view step -> (shape, F, axmap, full)"""
    k = st[0]
    if shape is None:
        return ((mk("sizeof", f.term),) if k == "ravel?" else None), f.w(term=ixterm(f.term, (const(str(st)[:80]),)) if k != "dup" else f.term,
                         pl="MIX" if f.pl is not None else None, props=EMPTY), {}, False
    if k == "ix":
        return step_ix(shape, f, st[1])
    if k == "T":
        perm = st[1]
        n = len(shape)
        if perm is None:
            perm = tuple(reversed(range(n)))
        ns = tuple(shape[p] for p in perm)
        axmap = {p: i for i, p in enumerate(perm)}
        t = f.term
        if n > 1 and t.op not in ("const", "SENT", "nan") and perm != tuple(range(n)):
            if t.op == "T" and t.args[1] is const(str(perm)) and n == 2:
                t = t.args[0]
            else:
                t = mk("T", t, const(str(perm)))
        return ns, fx.remapF(f, axmap).w(term=t, props=f.props if n == 1 else EMPTY), axmap, True
    if k == "rs":
        ns = st[1]
        if ns == shape:
            return shape, f, {i: i for i in range(len(shape))}, True
        axmap = rsmap(shape, ns)
        t = f.term if f.term.op in ("const", "SENT", "nan") else mk("rs", f.term, *ns)
        return ns, fx.remapF(f, axmap).w(term=t, props=EMPTY), axmap, True
    if k == "sq":
        axes = st[1]
        n = len(shape)
        keep, axmap = [], {}
        for i, d in enumerate(shape):
            drop = (tm.num_const(d) == 1 and axes is None) or (axes is not None and (i in axes or i - n in axes))
            if not drop:
                axmap[i] = len(keep)
                keep.append(d)
        t = f.term if f.term.op in ("const", "SENT", "nan") or len(keep) == n else mk("rs", f.term, *keep)
        return tuple(keep), fx.remapF(f, axmap).w(term=t), axmap, True
    if k == "dup":
        return shape, f, {i: i for i in range(len(shape))}, True
    if k == "diag":
        return (shape[0],), f.w(term=mk("diag", f.term), pl="MIX" if f.pl else None,
                                miss={}, props=EMPTY), {}, False
    return None, f, {}, False


def rsmap(old, new):
    axmap = {}
    i = j = 0
    while i < len(old) and j < len(new):
        if same(old[i], new[j]):
            axmap[i] = j
            i += 1
            j += 1
        elif tm.num_const(new[j]) == 1:
            j += 1
        elif tm.num_const(old[i]) == 1:
            i += 1
        else:
            break
    a, b = len(old) - 1, len(new) - 1
    while a >= i and b >= j:
        if same(old[a], new[b]):
            axmap[a] = b
            a -= 1
            b -= 1
        elif tm.num_const(new[b]) == 1:
            b -= 1
        elif tm.num_const(old[a]) == 1:
            a -= 1
        else:
            break
    return axmap


def ixkey(comps):
    key = []
    for c in comps:
        if c[0] == "i":
            key.append(c[1])
        elif c[0] == "n":
            key.append(const("new"))
        elif c[0] == "s":
            if c[1] is None and c[2] is None and c[3] is None:
                key.append(COLON)
            else:
                key.append(mk("slice", *[x if x is not None else tm.NONE for x in c[1:4]]))
    return tuple(key)


def step_ix(shape, f, comps):
    ns, axmap, full = [], {}, True
    ren = {}
    lostP = {}
    ax = 0
    props = f.props
    for c in comps:
        if c[0] == "n":
            ns.append(ONE)
        elif c[0] == "i":
            axmap[ax] = ("at", c[1])
            ax += 1
            full = False
        else:
            d, whole = slice_dim(shape[ax], c[1], c[2], c[3])
            axmap[ax] = len(ns)
            if not whole:
                ren[ax] = mk("slice", *[x if x is not None else tm.NONE for x in c[1:4]])
                full = False
            ns.append(d)
            ax += 1
    key = ixkey(comps)
    t = ixterm(f.term, key)
    pl, miss = f.pl, f.miss
    if pl is not None and pl != "MIX" and pl[0] == "ax" and pl[1] in ren:
        pl = "MIX"
    if miss and ren:
        nm = {}
        for (root, i, p), (tt, ti) in miss.items():
            if isinstance(p, tuple) and p[0] == "ax" and p[1] in ren:
                p = "*"
            if isinstance(i, tuple) and i[0] == "ax" and i[1] in ren:
                root = (root, "s", ren[i[1]])
            nm[(root, i, p)] = (tt, ti)
        miss = nm
    g = f.w(pl=pl, miss=miss)
    g = fx.remapF(g, axmap)
    if g.miss:
        g = g.w(miss={s: (ixterm(tt, key), ti) for s, (tt, ti) in g.miss.items()})
    if props:
        props = view_props(props, comps, len(shape))
    return tuple(ns), g.w(term=t, props=props), axmap, full


def view_props(props, comps, n):
    """facts about the order of a table's last axis survive taking all of it,
    its lower part ([..., :-1]) and its upper part ([..., 1:])"""
    ax = [c for c in comps if c[0] != "n"]
    last = ax[-1]
    out = set()
    if len(ax) == n and last[0] == "s":
        lo, hi, st = last[1], last[2], last[3]
        unit = st is None or tm.num_const(st) == 1
        whole = lo is None and hi is None and unit
        lower = unit and (lo is None or tm.num_const(lo) == 0) and hi is not None and tm.num_const(hi) == -1
        upper = unit and lo is not None and tm.num_const(lo) == 1 and hi is None
        rows = all(c[0] == "s" and c[1] is None and c[2] is None and c[3] is None for c in ax[:-1])
        rev = lo is None and hi is None and tm.num_const(st) == -1 if st is not None else False
        for p in props:
            if p in ("nonasc", "asc", "oddk", "asym", "sym"):
                if whole and rows:
                    out.add(p)
                elif p == "nonasc" and lower and rows:
                    out.add("lo:T")
                elif p == "nonasc" and upper and rows:
                    out.add("hi:T")
                elif p == "asc" and lower:
                    out.add("alo:T")
                elif p == "asc" and upper:
                    out.add("ahi:T")
                elif p in ("asym", "sym") and rev and rows:
                    out.add(p + "rev")
            elif whole and rows:
                out.add(p)
            elif p in ("allpos", "alltrue", "allfalse"):
                out.add(p)
    else:
        out = {p for p in props if p in ("allpos", "alltrue", "allfalse")}
    return frozenset(out)


def view(I, shape, f, path):
    for st in path:
        shape, f, _, _ = step(shape, f, st)
    return shape, f


# -------------------------------------------------------------- index parsing
def parse_index(I, slc):
    elts = slc.elts if isinstance(slc, ast.Tuple) else [slc]
    out = []
    for e in elts:
        if isinstance(e, ast.Slice):
            parts = []
            for x in (e.lower, e.upper, e.step):
                parts.append(I.expr(x) if x is not None else None)
                if I.heap is None:
                    return []
                if isinstance(parts[-1], Sc):
                    need_int(I, parts[-1].f, x)
            out.append(("s",) + tuple(parts))
        elif isinstance(e, ast.Starred):
            v = I.expr(e.value)
            its = I.items_of(v)
            for x in its or []:
                out.extend(comp_of(I, x))
            if its is None:
                out.append(("u", I.facts(v)))
        else:
            v = I.expr(e)
            if I.heap is None:
                return []
            out.extend(comp_of(I, v, top=len(elts) == 1))
    return out


def comp_of(I, v, top=False):
    if isinstance(v, Sc):
        if v.f.dt == "N":
            return [("n",)]
        if v.f.term is const(Ellipsis) or (v.f.term.op == "const" and v.f.term.args[0] in (Ellipsis, "Ellipsis")):
            return [("e",)]
        if v.f.dt == "U":
            return [("u", v.f)]
        return [("i", v)]
    if isinstance(v, Prim) and v.kind == "slice":
        g = lambda x: None if isinstance(x, Sc) and x.f.dt == "N" else x
        return [("s", g(v.data["lo"]), g(v.data["hi"]), g(v.data["step"]))]
    if isinstance(v, Tup) and top:
        out = []
        for x in v.items:
            out.extend(comp_of(I, x))
        return out
    if isinstance(v, (Arr, Tup, It)) or (isinstance(v, Ref) and isinstance(I.c(v.loc), ListC)):
        sh, f = I.rd(v)
        if sh is None:
            return [("u", f)]
        if f.dt == "b":
            return [("m", sh, f)]
        one = I.items_of(v) if isinstance(v, Ref) and sh is not None and len(sh) == 1 else None
        if one is not None and len(one) == 1 and isinstance(one[0], Sc) and one[0].f.dt not in ("U", "N", "b"):
            return [("a", sh, f, one[0])]
        return [("a", sh, f)]
    if isinstance(v, Prim) and v.kind == "ma":
        return [("m" if v.data["f"].dt == "b" else "a", v.data["shape"], v.data["f"])]
    if isinstance(v, U):
        f = I.facts(v)
        return [("u", f)]
    return [("u", I.facts(v))]


def norm(I, comps, n):
    """one entry per axis (plus 'n'), or None when it does not fit"""
    used = 0
    for c in comps:
        if c[0] in ("i", "s", "a", "u"):
            used += 1
        elif c[0] == "m":
            used += max(len(c[1]), 1)
    if used > n:
        return None
    if sum(c[0] in ("a", "m", "u", "i") for c in comps) == 1:       # x[[k]] is x[k] with an axis of length one
        comps = [q for c in comps for q in ((("i", c[3]), ("n",)) if c[0] == "a" and len(c) == 4 else (c,))]
    fill = [("s", None, None, None)] * (n - used)
    out, done = [], False
    for c in comps:
        if c[0] == "e":
            if not done:
                out.extend(fill)
                done = True
        elif c[0] == "s":
            out.append(("s",) + tuple(simp(x, i) for i, x in enumerate(c[1:4])))
        elif c[0] == "a" and c[2].term in I.nzmask and c[1] is not None and len(c[1]) == 1:
            out.append(("m",) + I.nzmask[c[2].term])      # taking the positions of a mask is taking the mask
        else:
            out.append(c)
    if not done:
        out.extend(fill)
    return out


def simp(x, i):
    if x is None or (isinstance(x, Sc) and x.f.dt == "N"):
        return None
    t = x.f.term if isinstance(x, (Sc, Unk)) else sym("idx")
    if i == 0 and tm.num_const(t) == 0:
        return None
    if i == 2 and tm.num_const(t) == 1:
        return None
    return t


def basic(nc):
    return all(c[0] in ("s", "n", "i") for c in nc)


def tobasic(nc):
    return tuple(("i", c[1].f.term) if c[0] == "i" else c for c in nc)


def idxdeps(I, comps):
    """influence of scalar index / slice expressions (a loop position over respondents is not one)"""
    deps, bad, pl, tr = EMPTY, EMPTY, None, EMPTY
    for c in comps:
        for x in c[1:]:
            if isinstance(x, Sc):
                deps |= x.f.deps
                tr |= x.f.trial
                bad |= I.cbad(x.f)
                if x.f.pl is not None and not any(x.f.term is i for i in I.loopidx):
                    if not (x.f.pl == "MIX" and is_pdim(I, x.f.term)):
                        pl = fx.join_pl([pl, x.f.pl])
    return deps, bad, pl, tr


def addix(f, d):
    deps, bad, pl, tr = d
    if deps <= f.deps and bad <= f.bad and pl is None and tr <= f.trial:
        return f
    return f.w(deps=f.deps | deps, bad=f.bad | bad, pl=fx.join_pl([f.pl, pl]), trial=f.trial | tr)


def sizeby(I, f, node):
    node = node if node is not None else I.curnode()
    I.codesize(f, node, "a category code is used as a position or size")


def note_index_types(I, comps, node):
    for c in comps:
        f = c[1].f if c[0] == "i" and isinstance(c[1], Sc) else c[2] if c[0] == "a" else None
        if f is not None and I.codes is not None:
            sizeby(I, f, node)
        if f is not None and f.dt.startswith("inh"):
            I.ev("index", node, key=f.term, dt=f.dt, f=f)
        if f is not None and f.miss and any(has_sent(w[0]) for w in f.miss.values()):
            I.ev("sentindex", node, key=f.term, f=f)


def index(I, v, comps, node):
    if isinstance(v, Prim) and v.kind == "ma":
        sh, f, m = v.data["shape"], v.data["f"], v.data["mask"]
        a = Arr(I.alloc(node, ArrC(sh, f), "ma1"))
        b = Arr(I.alloc(node, ArrC(sh, m), "ma2"))
        x, y = index(I, a, comps, node), index(I, b, comps, node)
        s1, f1 = I.rd(x)
        s2, f2 = I.rd(y)
        if s1 == ():
            return x
        return Prim("ma", shape=s1, f=f1, mask=f2)
    note_index_types(I, comps, node)
    ex = idxdeps(I, comps)
    if isinstance(v, Sc):
        if all(c[0] in ("n", "e") for c in comps):
            k = sum(c[0] == "n" for c in comps)
            return I.arr(node, (ONE,) * k, v.f, "ix") if k else v
        return Unk(I._unkf("item", [v], node))
    shape, f = I.rd(v)
    if shape is None:
        if all(c[0] in ("i", "s", "n", "e") for c in comps):
            nv = Arr(v.loc, v.path + (("ix?", str([c[0] for c in comps])),))
            sh, g = I.rd(nv)
            if any(c[0] == "s" for c in comps):
                return nv
        parts = [c[1].f if c[0] == "i" and isinstance(c[1], Sc) else c[2] if c[0] in ("a", "m") else c[1] if c[0] == "u" else None
                 for c in comps]
        g = f
        for q in parts:
            if q is not None:
                g = I._mix(g, q)
        g = g.w(term=mk("item?", f.term, *[q.term for q in parts if q is not None]), itv=f.itv, dt=f.dt)
        return Arr(I.alloc(node, ArrC(None, g), "ix"))
    nc = norm(I, comps, len(shape))
    if nc is None:
        I.ev("badindex", node, shape=shape, n=len(comps))
        return Unk(I._unkf("item", [v], node))
    if basic(nc):
        b = tobasic(nc)
        path = v.path if all(c == ("s", None, None, None) for c in b) else v.path + (("ix", b),)
        nv = Arr(v.loc, path)
        sh, g = I.rd(nv)
        if sh == ():
            return Sc(addix(g, ex))
        return I.arr(node, sh, addix(g, ex), "ix") if any(c[0] == "a" for c in comps) else nv
    sh, g, _ = advanced(I, shape, f, nc)
    g = addix(g, ex)
    return I.arr(node, sh, g, "ix")


def advanced(I, shape, f, nc):
    """numpy advanced indexing -> (shape, F, info).  info describes where each
    root axis went (used by stores)."""
    block, mism = [], []
    advpos = []
    outs = []                     # ('ax', oldaxis, dim, sliceterm|None) | ('new',) | ('blk',)
    ax = 0
    hasarr = any(c[0] in ("a", "m", "u") for c in nc)
    maskinfo = []
    blkshapes = []
    blkseen = False
    contiguous = True
    prev_adv = None
    for i, c in enumerate(nc):
        if c[0] == "n":
            outs.append(("new",))
            if blkseen:
                prev_adv = False if prev_adv else prev_adv
            continue
        if c[0] == "s":
            d, whole = slice_dim(shape[ax], c[1], c[2], c[3])
            outs.append(("ax", ax, d, None if whole else mk("slice", *[x if x is not None else tm.NONE for x in c[1:4]])))
            ax += 1
            if blkseen:
                prev_adv = False
            continue
        if not blkseen:
            outs.append(("blk",))
            blkseen = True
        elif prev_adv is False:
            contiguous = False
        prev_adv = True
        if c[0] == "i":
            advpos.append((ax, "i", (), c[1].f))
            blkshapes.append(())
            ax += 1
        elif c[0] == "a":
            advpos.append((ax, "a", c[1], c[2]))
            blkshapes.append(c[1])
            ax += 1
        elif c[0] == "u":
            advpos.append((ax, "u", None, c[1]))
            blkshapes.append(None)
            ax += 1
        else:
            m = max(len(c[1]), 1)
            if len(c[1]) == 1:
                d = mk("seldim", shape[ax], c[2].term)
            else:
                d = mk("count", c[2].term)
            advpos.append((ax, "m", c[1], c[2]))
            blkshapes.append((d,))
            ax += m
    if not contiguous:
        outs = [("blk",)] + [o for o in outs if o[0] != "blk"]
    bsh, _ = fx.bshape(blkshapes)
    if bsh is None:
        g = f
        for a in advpos:
            g = I._mix(g, a[3])
        return None, g.w(term=mk("take?", f.term, *[a[3].term for a in advpos]), itv=f.itv, dt=f.dt), None
    nshape, axmap, ren, pos = [], {}, {}, 0
    for o in outs:
        if o[0] == "new":
            nshape.append(ONE)
        elif o[0] == "ax":
            axmap[o[1]] = len(nshape)
            if o[3] is not None:
                ren[o[1]] = o[3]
            nshape.append(o[2])
        else:
            pos = len(nshape)
            nshape.extend(bsh)
    nb = len(bsh)
    pl, miss = f.pl, dict(f.miss)
    bad, deps, trial = set(f.bad), f.deps, f.trial
    extra_pl = []
    selax = {}                     # old axis -> new axis for mask/gather axes that stay aligned
    nmiss_idx = {}
    iat = {k: ("at", af.term) for (k, kind, ash, af) in advpos if kind == "i"}
    for (k, kind, ash, af) in advpos:
        deps |= af.deps
        trial |= af.trial
        if kind == "m":
            m = max(len(ash), 1)
            al = fx.shift(af, k)
            for s in list(miss):
                w = al.miss.get(s)
                if w is None and iat:
                    w = al.miss.get((s[0],) + tuple(iat.get(x[1], x) if isinstance(x, tuple) and x[0] == "ax" else x for x in s[1:]))
                if w is None:
                    continue
                if w[1] == (0, 0):
                    del miss[s]
                    bad.add(("psel", "selection of the responses present"))
                elif w[1] != (1, 1) and has_sent(w[0]):
                    bad.add(("sent", "a mask selects by the missing-response placeholder"))
                    del miss[s]
            bad |= I.cbad(af.w(miss={}))
            if m == 1:
                selax[k] = pos + nb - 1
                axmap[k] = pos + nb - 1
                if af.pl is not None and af.pl == ("ax", 0):
                    extra_pl.append(("ax", pos + nb - 1))
                elif af.pl is not None:
                    extra_pl.append(af.pl if af.pl[0] == "at" else "MIX")
                if not is_pdim(I, shape[k]):
                    ren[k] = mk("mask", af.term)
            else:
                if af.pl is not None:
                    extra_pl.append("MIX")
        elif kind == "i":
            axmap[k] = ("at", af.term)
            bad |= I.cbad(af.w(miss={}))
        else:
            aligned = False
            if ash is not None and len(ash) == 1 and nb == 1:
                if af.term.op == "uinv" and shape[k].op == UDIM and shape[k].args[0] is af.term.args[0]:
                    aligned = True
                    axmap[k] = pos
                    extra_pl.append(None)
                    continue
                if af.term.op == "arange0" and same(af.term.args[0], shape[k]):
                    axmap[k] = pos
                    continue
            sa = pos + nb - (len(ash) if ash is not None else nb)
            al = fx.shift(af, sa)
            bad |= I.cbad(af.w(miss={}))
            extra_pl.append(al.pl)
            for s, w in al.miss.items():
                nmiss_idx[s] = w
            if ash is not None and len(ash) == 1:
                ren[k] = mk("gather", af.term)
                selax[k] = pos + nb - 1
    key = []
    j = 0
    for c in nc:
        if c[0] == "i":
            key.append(c[1].f.term)
        elif c[0] in ("a", "m"):
            key.append(c[2].term)
        elif c[0] == "u":
            key.append(c[1].term)
        else:
            key.extend(ixkey([c]))
    ktuple = tuple(key)

    def tk(t, ks=None):
        if t.op in ("const", "SENT", "nan"):
            return t
        return mk("take", t, *(ks if ks is not None else ktuple))
    nm = {}
    for (root, i, p), (t, ti) in miss.items():
        if isinstance(i, tuple) and i[0] == "ax" and i[1] in ren:
            root = (root, "r", ren[i[1]])
            i = ("ax", axmap[i[1]]) if isinstance(axmap.get(i[1]), int) else (("ax", selax[i[1]]) if i[1] in selax else "*")
        else:
            i = fx.remap(i, axmap, "*")
        if isinstance(p, tuple) and p[0] == "ax" and p[1] in ren and p[1] not in axmap:
            p = "*"
        elif isinstance(p, tuple) and p[0] == "ax" and p[1] in ren and isinstance(axmap.get(p[1]), int) and p[1] not in selax:
            p = "*"
        else:
            p = fx.remap(p, axmap, "*")
        nm[(root, i, p)] = (tk(t), ti)
    for s, w in nmiss_idx.items():
        if f.term.op in ("const",):
            continue
        base = nm.get(s)
        ks = tuple(w[0] if any(q is a[3].term for a in advpos if s in fx.shift(a[3], pos + nb - (len(a[2]) if a[2] is not None else nb)).miss) else q
                   for q in ktuple)
        nm[s] = (mk("take", base[0] if base is not None else f.term, *ks), f.itv)
    if pl is not None and pl != "MIX" and pl[0] == "ax":
        a = pl[1]
        if a in ren and a not in selax:
            pl = "MIX"
        elif isinstance(axmap.get(a), int) and (a not in ren or a in axmap and a in selax and is_pdim(I, shape[a])):
            pl = ("ax", axmap[a])
        elif a in axmap and not isinstance(axmap[a], int):
            pl = axmap[a]
        else:
            pl = "MIX"
    pl = fx.join_pl([pl] + extra_pl)
    g = F(tk(f.term), f.itv, f.dt, deps, pl, nm, frozenset(bad), trial,
          frozenset(p for p in f.props if p in ("allpos", "alltrue", "allfalse")))
    return tuple(nshape), g, {"axmap": axmap, "pos": pos, "nb": nb, "adv": advpos, "key": ktuple}


# --------------------------------------------------------------------- stores
def key_of(nc):
    key = []
    for c in nc:
        if c[0] == "i":
            key.append(("i", c[1].f.term.id))
        elif c[0] in ("a", "m"):
            key.append((c[0], c[2].term.id))
        elif c[0] == "u":
            key.append(("u", c[1].term.id))
        elif c[0] == "s":
            key.append(("s",) + tuple(x.id if x is not None else None for x in c[1:4]))
        else:
            key.append((c[0],))
    while key and key[-1] == ("s", None, None, None):
        key.pop()
    return tuple(key)


def store_all(I, arr, v, node, aug=False):
    store(I, arr, [("e",)], v, node, aug=aug)


def store(I, arr, comps, v, node, weak=False, aug=False):
    if isinstance(arr, Prim):
        return
    c = I.c(arr.loc)
    I.touch(arr, node, "element assignment")
    if not isinstance(c, ArrC):
        return
    vsh, vf = I.rd(v)
    note_index_types(I, comps, node)
    ex = idxdeps(I, comps)
    vf = addix(vf, ex)
    tsh, _ = I.rd(arr)
    # map of root axes through the view
    nroot = len(c.shape) if c.shape is not None else None
    M = {i: i for i in range(nroot)} if nroot is not None else {}
    full = nroot is not None and not weak
    shp, ff = c.shape, c.f
    fsteps = []
    for st in arr.path:
        shp, ff, axmap, fl = step(shp, ff, st)
        M = {r: (axmap.get(a) if isinstance(a, int) else a) for r, a in M.items()}
        full = full and fl
        fsteps.append(fl)
    nc = norm(I, comps, len(shp)) if shp is not None else None
    pkey = (tuple(str(s) for s, fl in zip(arr.path, fsteps) if not fl), key_of(nc) if nc is not None else ("?",))
    if pkey[1] == () and not pkey[0]:
        pkey = ("full",)
    mask = None
    tshape = None
    if nc is None or nroot is None:
        full = False
        if nroot is None and nc is None and all(x[0] == "e" or (x[0] == "s" and x[1:] == (None, None, None)) for x in comps) \
                and not arr.path and not weak:
            full = True
            pkey = ("full",)
        nv = vf
        if not full:
            for x in comps:
                if x[0] in ("a", "m"):
                    nv = I._mix(nv, x[2]).w(term=nv.term, itv=nv.itv, dt=nv.dt)
        tshape = None
    elif basic(nc):
        b = tobasic(nc)
        tshape, _, axmap, fl = step_ix(shp, ff, b)
        M = {r: (axmap.get(a) if isinstance(a, int) else a) for r, a in M.items()}
        full = full and fl
        nv = align_store(I, vf, vsh, tshape, M, shp, node)
        if I.mix is not None and nv.pl is not None and nv.pl[0] == "ax":
            a = M.get(nv.pl[1])
            outs = [x for x in b if x[0] != "i"]
            cut = isinstance(a, int) and a < len(outs) and outs[a][0] == "s" and tuple(outs[a][1:4]) != (None, None, None)
            if cut or isinstance(a, int) and a < len(tshape) and not same(tshape[a], c.shape[nv.pl[1]]):
                nv = nv.w(pl="MIX")
    else:
        advs = [x for x in nc if x[0] in ("a", "m", "u")]
        tshape, tf, info = advanced(I, shp, ff, nc)
        if info is None:
            nv = vf
            full = False
        elif len(advs) == 1 and advs[0][0] == "m":
            k = info["adv"][[a[1] for a in info["adv"]].index("m")][0]
            mf, msh = advs[0][2], advs[0][1]
            M2 = {r: (info["axmap"].get(a) if isinstance(a, int) else a) for r, a in M.items()}
            others = all(x[0] == "n" or (x[0] == "s" and x[1:] == (None, None, None)) for x in nc if x is not advs[0])
            nv = align_store(I, vf, vsh, tshape, M2, shp, node)
            nv = ungather(nv, mf.term, info["key"])
            if len(msh) >= 2 and vsh not in ((), None) and nv.pl is not None:
                nv = nv.w(pl="MIX")
            # mask facts in root axes
            inv = {a: r for r, a in M.items() if isinstance(a, int)}
            al = fx.shift(mf, k)
            al = fx.remapF(al, inv)
            msht = [ONE] * len(shp)
            for j, d in enumerate(msh):
                msht[k + j] = shp[k + j]
            root_msh = [ONE] * nroot
            for r, a in M.items():
                if isinstance(a, int) and k <= a < k + max(len(msh), 1):
                    root_msh[r] = c.shape[r]
            mask = (tuple(root_msh), al)
            if not others:
                full = False
        else:
            M2 = {r: (info["axmap"].get(a) if isinstance(a, int) else a) for r, a in M.items()}
            nv = align_store(I, vf, vsh, tshape, M2, shp, node)
            full = False
            for x in advs:
                f2 = x[2] if x[0] in ("a", "m") else x[1]
                nv = nv.w(deps=nv.deps | f2.deps, bad=nv.bad | I.cbad(f2), trial=nv.trial | f2.trial)
                for s, w in f2.miss.items():
                    if has_sent(w[0]):
                        nv = nv.w(bad=nv.bad | {("sent", "the missing-response placeholder selects where a value is stored")})
            # a scattered value keeps its respondent only if the array axis is not a respondent axis lookup
            if nv.pl is not None and nv.pl != "MIX":
                gath = [a for a in info["adv"] if a[1] == "a"]
                if any(is_pdim(I, shp[a[0]]) for a in gath):
                    nv = nv.w(pl="MIX")
    old = c.f
    if mask is not None:
        wsh = [c.shape, c.shape]
        # nv aligned to root axes: treat as full-rank
        _, nf, _ = fx.elementwise("where", [mask[1], nv, old], [mask[0], c.shape, c.shape])
        if old.term is nv.term:
            nf = nf.w(term=old.term)
        if not full:
            nf = fx.joinF(old, nf, mk("st", old.term, const(str(pkey)), nv.term))
    elif full:
        nf = nv
    else:
        nf = fx.joinF(old, nv, mk("st", old.term, storekey(nc, arr, fsteps), nv.term) if not (old.term is nv.term) else old.term)
        nf = nf.w(props=EMPTY)
    # a label names the minimisation, the store and the region of this array it is in
    trial = set(old.trial if not full or mask is not None else ())
    trial = {l for l in trial if l[2] != pkey}
    if node is not None:
        trial = {l for l in trial if not (l[1] == node._id and ("optres:%s" % (l[0],)) in vf.deps)}
    trial |= {(l[0], node._id if node is not None else l[1], pkey) for l in nv.trial}
    for cb in I.cbs:
        if arr.loc in cb["entry"] and arr.loc not in cb["fresh"] and node is not None:
            trial.add((cb["site"], node._id, pkey))
    nf = nf.w(dt=old.dt if old.dt not in ("?",) or c.shape is not None and False else old.dt, trial=frozenset(trial))
    if nf.dt in ("b",) or old.dt in ("i", "b"):
        pass
    sh = c.shape
    I.heap[arr.loc] = ArrC(sh, nf)
    I.ev("store", node, key=(arr.loc, I.ctx), loc=arr.loc, pkey=pkey, path=arr.path, vf=vf, vsh=vsh, cdt=old.dt, vdt=vf.dt,
         tshape=tshape, aug=aug, comps=[x for x in (nc or comps)], owner=I.owner.get(arr.loc), full=full, mask=mask is not None,
         mitv=mask[1].itv if mask is not None else None)
    if arr.loc[1] == "shm" and not I.procdepth and not I.quiet and node is not None:
        I.reslog.append(("write", arr.loc, node, I.procdepth))


def storekey(nc, arr, fsteps):
    ks = []
    for s, fl in zip(arr.path, fsteps):
        if not fl:
            ks.append(const(str(s)) if s[0] != "ix" else mk("key", *ixkey(s[1])))
    if nc is None:
        ks.append(const("?"))
    else:
        for c in nc:
            if c[0] == "i":
                ks.append(c[1].f.term)
            elif c[0] in ("a", "m"):
                ks.append(c[2].term)
            elif c[0] == "u":
                ks.append(c[1].term)
            else:
                ks.extend(ixkey([c]))
    return mk("key", *ks)


def ungather(f, mask, key):
    """x[m] stored through the same mask m lands on the cells it was read from"""
    ren = mk("mask", mask)
    hits = {u: u.args[0] for t in [f.term] + [w[0] for w in f.miss.values()] for u in tm.subterms(t).values()
            if u.op == "take" and u.args[1:] == key}
    nm, ch = {}, False
    for (root, i, p), (t, ti) in f.miss.items():
        while isinstance(root, tuple) and len(root) == 3 and root[1] == "r" and root[2] is ren:
            root, ch = root[0], True
        nm[(root, i, p)] = (tm.replace(t, hits) if hits else t, ti)
    if not hits and not ch:
        return f
    return f.w(term=tm.replace(f.term, hits) if hits else f.term, miss=nm)


def align_store(I, vf, vsh, tshape, M, shp, node):
    """value facts expressed on the root's axes"""
    if tshape is None or vsh is None:
        return vf.w(pl="MIX" if vf.pl is not None and vf.pl != "MIX" and vf.pl[0] == "ax" else vf.pl)
    if len(vsh) > len(tshape):
        extra = len(vsh) - len(tshape)
        vf = fx.remapF(vf, {i + extra: i for i in range(len(tshape))})
        vsh = vsh[extra:]
    _, mism = fx.bshape([tshape, vsh])
    if mism and node is not None:
        I.ev("storeshape", node, key=str(mism), tshape=tshape, vsh=vsh)
    g = fx.shift(vf, len(tshape) - len(vsh))
    inv = {a: r for r, a in M.items() if isinstance(a, int)}
    ats = [(a[1], r) for r, a in M.items() if isinstance(a, tuple)]

    def back(s, lost):
        if s is None or s in ("MIX", "*"):
            return s
        if s[0] == "ax":
            return ("ax", inv[s[1]]) if s[1] in inv else lost
        for t, r in ats:
            if t is s[1]:
                return ("ax", r)
        return s
    return g.w(pl=back(g.pl, "MIX"), miss={(root, back(i, "*"), back(p, "*")): w for (root, i, p), w in g.miss.items()}, props=g.props if not M else EMPTY if len(vsh) != len(tshape) else g.props)


# ---------------------------------------------------------------- elementwise
def isma(v):
    return isinstance(v, Prim) and v.kind == "ma"


BITOPS = {"bitand", "bitor", "bitxor", "invert", "rshift"}
HALF = {"exp", "log", "log1p", "expm1", "sqrt", "sin", "cos", "tanh", "log2", "log10", "expit"}
ARITH = {"add", "sub", "mul", "pow", "neg", "square", "floordiv", "mod", "abs", "lshift"}


def ew(I, op, vals, node, name=None, out=None, tag="e"):
    if any(isinstance(v, U) for v in vals):
        vals = [strip_none(I, v) for v in vals]
    parts = [I.rd(v) for v in vals]
    mas = [v for v in vals if isma(v)]
    fs = [p[1] for p in parts]
    shapes = [p[0] for p in parts]
    scalars = [i for i, v in enumerate(vals) if isinstance(v, Sc)]
    if name is not None:
        fs = [F(const(name), TOP, "U")] + fs
        shapes = [()] + shapes
        scalars = [0] + [i + 1 for i in scalars]
    if op in ("and", "or", "bitand", "bitor", "bitxor") and all(f.dt == "b" for f in fs):
        op = {"bitand": "and", "bitor": "or"}.get(op, op)
    sh, f, mism = fx.elementwise(op, fs, shapes, tuple(scalars))
    if mism:
        I.ev("shape", node, key=str(mism), mism=mism, shapes=shapes, op=op)
    if op in ("and", "or", "bitxor") and all(x.dt == "b" for x in fs):
        f = f.w(dt="b")
    if node is not None and any(x.dt.startswith("inh") for x in fs):
        if op in ARITH and f.dt.startswith("inh") and (f.dt.startswith("inh:") or op == "pow"):
            I.ev("arith", node, key=(op, f.term), dt=f.dt, op=op, f=f, fs=fs)
        elif op in BITOPS:
            I.ev("bitop", node, key=(op, f.term), dt=fx.promote([x.dt for x in fs]), op=op, f=f, fs=fs)
        elif op in HALF and all(x.dt.startswith("inh:") for x in fs):
            I.ev("half", node, key=(op, f.term), dt=fs[0].dt, op=op, f=f, fs=fs)
    if mas:
        masks = [fx.shift(m.data["mask"], (len(sh) if sh is not None else 0) - len(m.data["shape"] or ())) for m in mas]
        mf = masks[0]
        for m in masks[1:]:
            mf = fx.elementwise("or", [mf, m], [sh, sh])[1]
        return Prim("ma", shape=sh, f=f, mask=mf)
    return I.arr(node, sh, f, tag + op)


def strip_none(I, v):
    if isinstance(v, U):
        keep = [x for x in v.vals if not (isinstance(x, Sc) and x.f.dt == "N")]
        if len(keep) == 1:
            return keep[0]
    return v


def fn(I, name, vals, node, itv=None, dt=None):
    r = ew(I, "fn", vals, node, name=name, tag="f" + name)
    if itv is None and dt is None:
        return r
    kw = {}
    if itv is not None:
        kw["itv"] = itv
    if dt is not None:
        kw["dt"] = dt
    return patch(I, r, **kw)


def patch(I, v, **kw):
    if isinstance(v, Sc):
        return Sc(v.f.w(**kw))
    if isinstance(v, Arr):
        c = I.c(v.loc)
        I.heap[v.loc] = ArrC(c.shape, c.f.w(**kw))
        return v
    if isma(v):
        return Prim("ma", shape=v.data["shape"], f=v.data["f"].w(**kw), mask=v.data["mask"])
    return v


# --------------------------------------------------------------------- matmul
def matmul(I, a, b, node):
    sa, fa = I.rd(a)
    sb, fb = I.rd(b)
    if sa is None or sb is None:
        f = I._mix(fa, fb)
        return Arr(I.alloc(node, ArrC(None, f.w(term=mk("dot", fa.term, fb.term), dt=fx.promote([fa.dt, fb.dt], "mul"))), "mm"))
    if len(sa) == 0 or len(sb) == 0:
        return ew(I, "mul", [a, b], node)
    la, lb = len(sa), len(sb)
    amap, bmap = {}, {}
    nv = 1
    if la > 2 or lb > 2:
        # batched: contract last of a with second to last of b
        ka = la - 1
        kb = lb - 2 if lb > 1 else 0
        f = I._mix(fa, fb)
        sh = tuple(sa[:-1]) + ((sb[-1],) if lb > 1 else ())
        return I.arr(node, sh, f.w(term=mk("dot", fa.term, fb.term), dt=fx.promote([fa.dt, fb.dt], "mul")), "mm")
    amap[la - 1] = 0
    if la == 2:
        amap[0] = nv
        nv += 1
    kb = 0
    bmap[kb] = 0
    if lb == 2:
        bmap[1] = nv
        nv += 1
    if not same(sa[-1], sb[0]):
        I.ev("shape", node, key="dot", mism=[(sa[-1], sb[0])], shapes=[sa, sb], op="matmul")
    sh, f = fx.contract(fa, fb, sa, sb, amap, bmap, None, None, nv, site=where(I, node))
    if f.dt.startswith("inh:"):
        I.ev("arith", node, key=("dot", f.term), dt=f.dt, op="dot", f=f, fs=[fa, fb])
    t = mk("dot", fa.term, fb.term)
    f = f.w(term=t if f.term.op not in ("const",) else f.term, props=EMPTY)
    I.ev("reduce", node, key="dot", op="dot", term=mk("mul", fa.term, fb.term), dims=(sa[-1],), out=f.term)
    return I.arr(node, sh, f, "mm")


def where(I, node):
    return I.proj.where(node) if node is not None else "?"


# ----------------------------------------------------------------- attributes
METHS = None


def attr(I, o, name, node):
    if isma(o):
        if name == "mask":
            return I.arr(node, o.data["shape"], o.data["mask"], "mask")
        if name == "data":
            return I.arr(node, o.data["shape"], o.data["f"], "data")
    if isinstance(o, (Arr, Sc)) or isma(o):
        sh, f = I.rd(o)
        if name == "shape":
            if sh is None:
                return Unk(F(mk("shapeof", f.term), TOP, "i", tdeps(f.term), "MIX" if f.pl is not None else None))
            return Tup([dimval(I, d) for d in sh])
        if name == "size":
            if sh is None:
                return Sc(F(mk("sizeof", f.term), (0, INF), "i", EMPTY, "MIX" if f.pl is not None else None))
            d = total(sh)
            return Sc(F(d, dim_itv(d), "i", tdeps(d), "MIX" if any(is_pdim(I, x) for x in sh) else None))
        if name == "ndim":
            if sh is None:
                return Sc(F(mk("ndimof", f.term), (0, INF), "i"))
            return Sc(cF(len(sh)))
        if name == "T":
            if isinstance(o, Sc) or (sh is not None and len(sh) <= 1):
                return o
            if isma(o):
                s2, f2, _, _ = step(sh, f, ("T", None))
                _, m2, _, _ = step(sh, o.data["mask"], ("T", None))
                return Prim("ma", shape=s2, f=f2, mask=m2)
            return Arr(o.loc, o.path + (("T", None),))
        if name == "dtype":
            return Prim("dtype", code=f.dt, src=f.term)
        if name == "nbytes":
            return Sc(F(mk("nbytes", f.term), (0, INF), "i"))
        if name == "itemsize":
            return Sc(F(mk("itemsize", f.term), (1, 16), "i"))
        if name in ("real",):
            return o
        if name == "imag":
            return I.arr(node, sh, f.w(term=mk("imag", f.term)), "imag")
        if name == "flat":
            if isinstance(o, Arr):
                return flat(I, o)
            return o
        if name == "flags":
            return Prim("flags", arr=o)
        if name == "base":
            return Unk(f)
        return Meth(o, name)
    if isinstance(o, Prim):
        if o.kind == "dtype":
            if name == "type":
                return o
            if name in ("kind", "name", "itemsize", "char", "str"):
                code = o.data["code"]
                return Unk(F(mk("dtattr", const(name), o.data["src"]), TOP, "U" if name != "itemsize" else "i"))
            return Meth(o, name)
        return I.py.prim_attr(I, o, name, node)
    if isinstance(o, Partial):
        if name == "func":
            return o.fn
        if name == "args":
            return Tup(o.args)
        return Meth(o, name)
    if isinstance(o, Unk):
        if name in KNOWN_METHODS:
            return Meth(o, name)
        return Unk(o.f.w(term=mk("attr", o.f.term, const(name)), itv=TOP, miss={}, props=EMPTY))
    return Meth(o, name)


KNOWN_METHODS = {"sum", "mean", "copy", "append", "items", "keys", "values", "dot", "astype", "reshape", "max", "min", "get",
                 "lower", "upper", "update", "extend", "pop", "submit", "map", "result"}


def flat(I, v):
    sh, f = I.rd(v)
    if sh is None:
        return Arr(v.loc, v.path + (("ravel?",),))
    return Arr(v.loc, v.path + (("rs", (total(sh),)),)) if len(sh) != 1 else v


# ------------------------------------------------------------------ functions
def dt_code(I, v):
    """storage type named by a dtype argument"""
    if v is None or (isinstance(v, Sc) and v.f.dt == "N"):
        return None
    if isinstance(v, Prim) and v.kind == "dtype":
        return v.data["code"]
    if isinstance(v, Ext):
        n = v.name.rsplit(".", 1)[-1]
        if n in ("int", "int64", "int_", "intp", "longlong", "int32", "uint64", "uint32", "uint", "integer"):
            return "i"
        n = {"byte": "int8", "ubyte": "uint8", "short": "int16", "ushort": "uint16"}.get(n, n)
        if n in ("int8", "int16", "uint8", "uint16", "intc"):
            return "i" if n == "intc" else "inh:#" + n
        if n in ("float", "float64", "double", "float_"):
            return "f"
        if n in ("float32", "float16", "single", "half"):
            return "h"
        if n in ("float128", "longdouble"):
            return "g"
        if n in ("bool", "bool_"):
            return "b"
        if n in ("complex", "complex128"):
            return "c"
        if n == "object":
            return "o"
    if isinstance(v, Sc) and tm.is_const(v.f.term) and isinstance(v.f.term.args[0], str):
        s = v.f.term.args[0]
        if s in ("int", "int64", "i8", "int32", "i4", "intp"):
            return "i"
        s = {"i1": "int8", "u1": "uint8", "i2": "int16", "u2": "uint16"}.get(s, s)
        if s in ("int8", "int16", "uint8", "uint16"):
            return "inh:#" + s
        if s in ("uint32", "uint64", "u4", "u8"):
            return "i"
        if s in ("float", "float64", "f8", "double", "d"):
            return "f"
        if s in ("float32", "f4", "float16", "f2"):
            return "h"
        if s in ("bool", "?"):
            return "b"
        if s in ("float128", "longdouble", "g"):
            return "g"
    return "?"


def A(args, kw, i, name, d=None):
    if i is not None and i < len(args):
        return args[i]
    return kw.get(name, d)


def isnone(v):
    return v is None or (isinstance(v, Sc) and v.f.dt == "N")


def constof(v):
    if isinstance(v, Sc) and tm.is_const(v.f.term):
        return v.f.term.args[0]
    return None


def boolarg(v, d=False):
    if v is None:
        return d
    c = constof(v)
    return c if c is not None else None


def axes_arg(I, v):
    """tuple of ints, None (all) or 'unknown'"""
    if isnone(v):
        return None
    c = constof(v)
    if isinstance(c, (int, float)):
        return (int(c),)
    its = I.items_of(v)
    if its is not None and all(isinstance(constof(x), int) for x in its):
        return tuple(constof(x) for x in its)
    I.ev("axisarg", I.curnode(), f=I.facts(v))
    return "unknown"


def asarr(I, v, node, tag="as"):
    """v as array value (no copy when it already is one)"""
    if isinstance(v, (Arr, Sc)) or isma(v):
        return v
    v = strip_none(I, v)
    if isinstance(v, (Arr, Sc)) or isma(v):
        return v
    sh, f = I.rd(v)
    if isinstance(v, It) and v.items is None and False:
        sh = None
    return I.arr(node, sh, f, tag)


def mkfresh(I, node, shape, f, tag):
    return I.arr(node, shape, f, tag) if shape != () else Sc(f)


def np_filled(val):
    def g(I, args, kw, node):
        shp = A(args, kw, 0, "shape")
        dt = dt_code(I, A(args, kw, 1, "dtype"))
        sh = shape_of(I, shp)
        deps = I.facts(shp).deps
        f = cF(val).w(dt=dt or "f", deps=deps)
        if val is None:
            f = F(sym("uninit", node._id, I.ctx), TOP, dt or "f", deps)
        return mkfresh(I, node, sh, f, "new")
    return g


def np_full(I, args, kw, node):
    shp, v = A(args, kw, 0, "shape"), A(args, kw, 1, "fill_value")
    dt = dt_code(I, A(args, kw, 2, "dtype"))
    sh = shape_of(I, shp)
    vs, f = I.rd(v)
    f = f.w(dt=dt or f.dt, deps=f.deps | I.facts(shp).deps)
    if vs is not None and sh is not None and len(vs) and len(vs) <= len(sh):
        f = fx.shift(f, len(sh) - len(vs))
    return mkfresh(I, node, sh, f, "new")


def np_like(val):
    def g(I, args, kw, node):
        a = A(args, kw, 0, "a") or kw.get("prototype")
        dt = dt_code(I, A(args, kw, 1 if val != "full" else 2, "dtype"))
        sh, f = I.rd(a)
        if "shape" in kw and not isnone(kw["shape"]):
            sh = shape_of(I, kw["shape"])
        if val == "full":
            _, vf = I.rd(A(args, kw, 1, "fill_value"))
            nf = vf.w(dt=dt or f.dt)
            if dt is None:
                I.ev("store", node, key="full_like", loc=None, pkey=("full",), path=(), vf=vf, vsh=(), cdt=f.dt, vdt=vf.dt, tshape=sh,
                     aug=False, comps=[], owner=None, full=True, mask=False)
        elif val is None:
            nf = F(sym("uninit", node._id, I.ctx), TOP, dt or f.dt)
        else:
            nf = cF(val).w(dt=dt or f.dt)
        if sh == ():
            return Sc(nf)
        return I.arr(node, sh, nf, "like")
    return g


def np_array(I, args, kw, node):
    v = A(args, kw, 0, "object") or kw.get("a")
    dt = dt_code(I, A(args, kw, 1, "dtype"))
    copy = boolarg(kw.get("copy"), True)
    ndmin = constof(kw.get("ndmin")) or 0
    return toarray(I, v, dt, copy is not False, node, ndmin)


def np_asarray(I, args, kw, node):
    v = A(args, kw, 0, "a")
    return toarray(I, v, dt_code(I, A(args, kw, 1, "dtype")), False, node, 0)


def toarray(I, v, dt, copy, node, ndmin):
    if isinstance(v, U):
        r = None
        for x in v.vals:
            if isinstance(x, Sc) and x.f.dt == "N":
                continue
            r = I.joinV(r, toarray(I, x, dt, copy, node, ndmin))
        return r
    sh, f = I.rd(v)
    if sh is not None and ndmin > len(sh):
        f = fx.shift(f, ndmin - len(sh))
        sh = (ONE,) * (ndmin - len(sh)) + sh
    note_cast(I, node, f, dt)
    if isinstance(v, Arr) and not copy and (dt is None or dt == f.dt):
        return v
    if isma(v):
        return v if not copy else v
    nf = f.w(dt=dt or f.dt)
    if sh == ():
        return Arr(I.alloc(node, ArrC((), nf), "array"))  if False else Sc(nf)
    if isinstance(v, Arr) and not copy:
        # may alias when the type already matches: keep both possibilities only for caller storage
        n = I.arr(node, sh, nf, "array")
        own = I.owner.get(v.loc)
        if own is not None and (f.dt.startswith("inh") or f.dt == "?"):
            return U([v, n]) if isinstance(n, Arr) else n
        return n
    return I.arr(node, sh, nf, "array")


def note_cast(I, node, f, dt):
    if dt is not None and node is not None:
        I.ev("cast", node, key=(f.term, dt), vdt=f.dt, cdt=dt, f=f)


def m_astype(I, args, kw, node):
    v = args[0]
    dt = dt_code(I, A(args, kw, 1, "dtype"))
    copy = boolarg(kw.get("copy"), True)
    if dt == "i" and isinstance(v, (Sc, Arr)) and I.rd(v)[1].dt in ("f", "g"):
        return patch(I, fn(I, "trunc", [v], node), dt="i")
    return toarray(I, v, dt, copy is not False, node, 0)


def np_copy(I, args, kw, node):
    v = A(args, kw, 0, "a")
    if isma(v):
        return v
    sh, f = I.rd(v)
    if sh == ():
        return Sc(f)
    return I.arr(node, sh, f, "copy")


def alias(stepf):
    def g(I, args, kw, node):
        v = A(args, kw, 0, "a")
        if isinstance(v, U):
            r = None
            for x in v.vals:
                if isinstance(x, Sc) and x.f.dt == "N":
                    continue
                r = I.joinV(r, g(I, [x] + list(args[1:]), kw, node))
            return r
        if isinstance(v, Unk):
            return Unk(v.f)
        if isma(v):
            st = stepf(I, v.data["shape"], args, kw, node)
            s1, f1, _, _ = step(v.data["shape"], v.data["f"], st)
            _, m1, _, _ = step(v.data["shape"], v.data["mask"], st)
            return Prim("ma", shape=s1, f=f1, mask=m1) if s1 != () else Sc(f1)
        if not isinstance(v, (Arr, Sc)):
            v = asarr(I, v, node, "al")
        sh, f = I.rd(v)
        st = stepf(I, sh, args, kw, node)
        if st is None:
            return v
        if isinstance(v, Sc):
            s2, f2, _, _ = step((), v.f, st)
            return I.arr(node, s2, f2, "al") if s2 else Sc(f2)
        nv = Arr(v.loc, v.path + (st,))
        s2, f2 = I.rd(nv)
        if s2 == ():
            return Sc(f2)
        return nv
    return g


def st_ravel(I, sh, args, kw, node):
    if colmajor(args[1] if len(args) > 1 else kw.get("order")) and (sh is None or len(sh) > 1):
        return ("ravel?",)
    return ("rs", (total(sh),)) if sh is not None else ("ravel?",)


def colmajor(o):
    return o is not None and not isnone(o) and constof(o) not in ("C", "c")


def st_squeeze(I, sh, args, kw, node):
    ax = axes_arg(I, A(args, kw, 1, "axis"))
    if sh is not None:
        amb = [d for i, d in enumerate(sh) if tm.num_const(d) is None and (ax is None)]
        if amb:
            I.ev("squeeze", node, key=str(sh), shape=sh, dims=amb, axis=ax)
    return ("sq", ax if ax != "unknown" else None)


def st_reshape(I, sh, args, kw, node):
    rest = args[1:]
    if len(rest) == 1:
        ns = shape_of(I, rest[0])
    elif rest:
        ns = tuple(dim_of(I, x) for x in rest)
    else:
        ns = shape_of(I, kw.get("newshape", kw.get("shape", Tup([]))))
    if ns is None or sh is None or (colmajor(kw.get("order")) and (len(ns) > 1 or len(sh) > 1)):
        return ("rs?", str(ns))
    if any(tm.num_const(d) == -1 for d in ns):
        other = ONE
        for d in ns:
            if tm.num_const(d) != -1:
                other = mk("mul", other, d)
        # cancel dims one by one
        tot = [d for d in sh]
        left = []
        rem = [d for d in ns if tm.num_const(d) not in (-1, 1)]
        for d in tot:
            for r in rem:
                if same(r, d):
                    rem.remove(r)
                    break
            else:
                left.append(d)
        t = total(left)
        if rem:
            t = mk("floordiv", t, total(rem))
        ns = tuple(t if tm.num_const(d) == -1 else d for d in ns)
    return ("rs", ns)


def st_T(I, sh, args, kw, node):
    perm = axes_arg(I, A(args, kw, 1, "axes")) if len(args) <= 2 else tuple(constof(x) for x in args[1:])
    if sh is not None and len(sh) < 2:
        return None
    if perm == "unknown":
        return ("T?",)
    return ("T", perm)


def st_swap(I, sh, args, kw, node):
    a, b = constof(args[1]), constof(args[2])
    if sh is None or a is None or b is None:
        return ("T?",)
    p = list(range(len(sh)))
    p[a], p[b] = p[b], p[a]
    return ("T", tuple(p))


def st_moveaxis(I, sh, args, kw, node):
    a, b = constof(args[1]), constof(args[2])
    if sh is None or a is None or b is None:
        return ("T?",)
    n = len(sh)
    p = [i for i in range(n) if i != a % n]
    p.insert(b % n, a % n)
    return ("T", tuple(p))


def st_expand(I, sh, args, kw, node):
    ax = axes_arg(I, A(args, kw, 1, "axis"))
    if sh is None or ax in ("unknown", None):
        return ("rs?", "expand")
    n = len(sh) + len(ax)
    pos = {a % n for a in ax}
    comps = []
    for i in range(n):
        comps.append(("n",) if i in pos else ("s", None, None, None))
    return ("ix", tuple(comps))


def st_atleast(k):
    def g(I, sh, args, kw, node):
        if sh is None:
            return ("rs?", "atleast")
        if len(sh) >= k:
            return None
        if k == 1:
            return ("ix", (("n",)))if False else ("ix", (("n",),))
        if k == 2:
            if len(sh) == 1:
                return ("ix", (("n",), ("s", None, None, None)))
            return ("ix", (("n",), ("n",)))
        if len(sh) == 2:
            return ("ix", (("s", None, None, None), ("s", None, None, None), ("n",)))
        return ("rs?", "atleast3")
    return g


def st_flip(which):
    def g(I, sh, args, kw, node):
        if sh is None:
            return ("rs?", "flip")
        ax = axes_arg(I, A(args, kw, 1, "axis")) if which == "flip" else ((0,) if which == "ud" else (1,))
        rev = ("s", None, None, const(-1))
        return ("ix", tuple(rev if ax is None or i in ax or i - len(sh) in ax else ("s", None, None, None) for i in range(len(sh))))
    return g


def st_id(I, sh, args, kw, node):
    return None


def reducer(op, kwmask=True):
    def g(I, args, kw, node):
        v = A(args, kw, 0, "a")
        if isinstance(v, U):
            v = asarr(I, v, node, "red")
        if isinstance(v, It) and v.items is None:
            v = asarr(I, v, node, "red")
        ax = axes_arg(I, A(args, kw, 1, "axis"))
        keep = boolarg(kw.get("keepdims"), False)
        wh = kw.get("where")
        wherearg = I.rd(wh) if wh is not None and not isnone(wh) else None
        sh, f = I.rd(v)
        ddof = kw.get("ddof")
        if isma(v):
            mf = v.data["mask"]
            w = fx.elementwise("not", [mf], [sh])[1]
            wherearg = (sh, w)
        if ax == "unknown" or (sh is None and ax is not None):
            nf = f.w(term=mk("red", op, "?", f.term), itv=fx.red_itv(op, f.itv, None, None), dt=fx.red_dt(op, f.dt),
                     pl="MIX" if f.pl is not None else None, miss={}, props=EMPTY)
            if any(has_sent(t) for t, _ in f.miss.values()):
                nf = nf.w(bad=nf.bad | {("sent", f"{where(I, node)}: {op} includes the missing-response placeholder")})
            return Arr(I.alloc(node, ArrC(None, nf), "red"))
        s2, f2 = fx.reduce_(op, sh, f, ax, bool(keep), wherearg, site=where(I, node))
        if op in ("sum", "mean", "nansum", "nanmean"):
            I.ev("reduce", node, key=op, op=op, term=f.term, out=f2.term, dims=None if sh is None else
                 tuple(d for i, d in enumerate(sh) if ax is None or i in ax or i - len(sh) in ax))
        elif I.order is not None:
            I.ev("reduce", node, key=op, op=op, term=f.term, out=f2.term, dims=None if sh is None else
                 tuple(d for i, d in enumerate(sh) if ax is None or i in ax or i - len(sh) in ax))
        if ddof is not None and f2.term.op == "red":
            f2 = f2.w(term=mk("red", op, f2.term.args[1], f2.term.args[2], *(f2.term.args[3:]), mk("ddof", I.facts(ddof).term)),
                      deps=f2.deps | I.facts(ddof).deps)
        if op in ("sum", "prod", "nansum", "cumsum") and f.dt.startswith("inh") is False:
            pass
        if kw.get("dtype") is not None:
            f2 = f2.w(dt=dt_code(I, kw["dtype"]) or f2.dt)
        if op in ("percentile", "quantile"):
            pass
        if s2 == ():
            r = Sc(f2)
        else:
            r = I.arr(node, s2, f2, "red" + op)
        if isma(v) and s2 not in ((), None):
            allm = fx.reduce_("all", sh, v.data["mask"], ax, bool(keep))[1]
            r = Prim("ma", shape=s2, f=f2, mask=allm.w(term=mk("allmask", v.data["mask"].term), itv=(0, 1), miss={}))
        out = kw.get("out")
        if out is not None and not isnone(out) and isinstance(out, Arr):
            store_all(I, out, r, node)
            return out
        return r
    return g


def np_quantile(I, args, kw, node):
    return np_percentile(I, args, kw, node, 100)


def np_percentile(I, args, kw, node, times=1):
    v, q = A(args, kw, 0, "a"), A(args, kw, 1, "q")
    if times != 1:
        q = I.np.ew(I, "mul", [q, Sc(cF(times))], node)
    ax = axes_arg(I, A(args, kw, 2, "axis"))
    sh, f = I.rd(v)
    qs, qf = I.rd(q)
    if sh is None or ax == "unknown":
        s2, f2 = None, I._mix(f, qf).w(term=mk("percentile", f.term, qf.term))
        return Arr(I.alloc(node, ArrC(None, f2), "pct"))
    s2, f2 = fx.reduce_("percentile", sh, f, ax, False, site=where(I, node))
    f2 = fx.shift(f2, len(qs or ()))
    f2 = f2.w(term=mk("percentile", f2.term, qf.term), deps=f2.deps | qf.deps)
    return mkfresh(I, node, (qs or ()) + s2, f2, "pct")


def cumulative(op):
    def g(I, args, kw, node):
        v = A(args, kw, 0, "a")
        ax = axes_arg(I, A(args, kw, 1, "axis"))
        sh, f = I.rd(v)
        if sh is None:
            return Arr(I.alloc(node, ArrC(None, f.w(term=mk(op, f.term), itv=fx.red_itv(op, f.itv, None, None), dt=fx.red_dt(op, f.dt), miss={})), "cum"))
        if ax is None:
            ax = tuple(range(len(sh)))
            ns = (total(sh),)
        else:
            ns = sh
            ax = tuple(a % len(sh) for a in ax)
        bad = set(f.bad)
        miss = {}
        for s, (t, ti) in f.miss.items():
            hit = any(isinstance(x, tuple) and x[0] == "ax" and x[1] in ax for x in s[1:])
            if hit and has_sent(t):
                bad.add(("sent", f"{where(I, node)}: {op} includes the missing-response placeholder"))
            elif hit:
                bad.add(("contrib", f"{where(I, node)}: {op} over missing responses"))
            else:
                miss[s] = (mk(op, t, const(str(ax))), fx.red_itv(op, ti, None, None))
        pl = f.pl
        if pl is not None and pl != "MIX" and pl[0] == "ax" and pl[1] in ax:
            pl = "MIX"
        return I.arr(node, ns, f.w(term=mk(op, f.term, const(str(ax))) if f.term.op != "const" or op != "cumsum" or f.term is not ZERO else f.term,
                                   itv=fx.red_itv(op, f.itv, None, None), dt=fx.red_dt(op, f.dt), pl=pl, miss=miss, bad=frozenset(bad), props=EMPTY), "cum")
    return g


def unary(op):
    def g(I, args, kw, node):
        v = args[0] if args else next(iter(kw.values()))
        if not isinstance(v, (Arr, Sc, Unk)) and not isma(v):
            v = asarr(I, v, node, "un")
        r = ew(I, op, [v], node)
        return finish(I, r, args, kw, node, 1)
    return g


def binary(op):
    def g(I, args, kw, node):
        if len(args) < 2:
            return Unk(I._unkf(op, list(args) + list(kw.values()), node))
        a, b = args[0], args[1]
        r = ew(I, op, [tonum(I, a, node), tonum(I, b, node)], node)
        return finish(I, r, args, kw, node, 2)
    return g


def tonum(I, v, node):
    if isinstance(v, (Arr, Sc, Unk, U)) or isma(v):
        return v
    return asarr(I, v, node, "tn%d" % (id(v) % 1) if False else "tn")


def finish(I, r, args, kw, node, n):
    """out= and where= of ufuncs"""
    out = kw.get("out")
    if len(args) > n:
        out = args[n]
    if isinstance(out, Tup) and out.items:
        out = out.items[0]
    wh = kw.get("where")
    if out is not None and isinstance(out, Arr):
        if wh is not None:
            store(I, out, comp_of(I, wh), r if I.rd(r)[0] == () else index(I, r, comp_of(I, wh), node), node)
        else:
            store_all(I, out, r, node)
        return out
    return r


def fnum(name, itv=None, dt=None):
    def g(I, args, kw, node):
        vs = [tonum(I, a, node) for a in args] + [tonum(I, v, node) for k, v in kw.items() if k not in ("out", "where", "dtype")]
        r = fn(I, name, vs, node, itv, dt)
        return finish(I, r, [], kw, node, len(args))
    return g


def np_where(I, args, kw, node):
    if len(args) == 1:
        sh, f = I.rd(args[0])
        n = len(sh) if sh is not None else 1
        d = mk("seldim", sh[0], f.term) if n == 1 and sh is not None else mk("count", f.term)
        if n == 1 and sh is not None and f.dt == "b":
            t = mk("nonzero", f.term, const(0))
            I.nzmask[t] = (sh, f)
            pl = "MIX" if f.pl is not None and (I.mix is None or f.pl != ("ax", 0)) else f.pl
            return Tup([I.arr(node, (d,), F(t, (0, INF), "i", f.deps, pl, None, I.cbad(f), f.trial), "nz0")])
        return Tup([I.arr(node, (d,), F(mk("nonzero", f.term, const(i)), (0, INF), "i", f.deps, "MIX" if f.pl is not None else None, None, I.cbad(f), f.trial), "nz%d" % i)
                    for i in range(n)])
    return ew(I, "where", [tonum(I, a, node) for a in args], node)


def np_clip(I, args, kw, node):
    a = A(args, kw, 0, "a")
    lo = A(args, kw, 1, "a_min", kw.get("min"))
    hi = A(args, kw, 2, "a_max", kw.get("max"))
    none = Sc(cF(None).w(itv=TOP))
    vs = [tonum(I, a, node), lo if lo is not None and not isnone(lo) else none, hi if hi is not None and not isnone(hi) else none]
    parts = [I.rd(v) for v in vs]
    fs = [p[1] for p in parts]
    if isnone(vs[1]):
        fs[1] = fs[1].w(itv=(-INF, -INF))
    if isnone(vs[2]):
        fs[2] = fs[2].w(itv=(INF, INF))
    sh, f, mism = fx.elementwise("clip", fs, [p[0] for p in parts])
    f = f.w(dt=fx.promote([x.dt for x in fs if x.dt != "N"], "add", tuple(i for i in range(1, 3))))
    r = I.arr(node, sh, f, "clip")
    return finish(I, r, args, kw, node, 3)


def np_arange(I, args, kw, node):
    vs = [a for a in args]
    if len(vs) == 1 and "start" not in kw:
        lo, hi, stp = Sc(cF(0)), vs[0], Sc(cF(1))
    else:
        lo = vs[0] if vs else kw.get("start", Sc(cF(0)))
        hi = vs[1] if len(vs) > 1 else kw.get("stop")
        stp = vs[2] if len(vs) > 2 else kw.get("step", Sc(cF(1)))
    if hi is None:
        return Unk(I._unkf("arange", vs, node))
    fl, fh, fs = I.facts(lo), I.facts(hi), I.facts(stp)
    n = mk("sub", fh.term, fl.term)
    k = tm.num_const(fs.term)
    if k is None:
        n = mk("arlen", n, fs.term)
    elif k not in (1,):
        n = mk("ceildiv", n, const(k)) if tm.num_const(n) is None else const(max(0, math.ceil(tm.num_const(n) / k)))
    note_dim(I, fh, code=False)
    note_dim(I, fh.w(term=n, deps=fh.deps | fl.deps | fs.deps))
    ints = all(x.dt in ("i", "b") for x in (fl, fh, fs))
    if fl.term is ZERO and k == 1:
        t = mk("arange0", n)
    else:
        t = mk("arange", fl.term, fh.term, fs.term)
    dt = dt_code(I, kw.get("dtype")) or ("i" if ints else "f")
    hi_ = fh.itv[1] - 1 if ints else fh.itv[1]
    return I.arr(node, (n,), F(t, (fl.itv[0], max(hi_, fl.itv[0])), dt, fl.deps | fs.deps | fh.deps, None), "ar")


def np_linspace(I, args, kw, node):
    lo, hi = A(args, kw, 0, "start"), A(args, kw, 1, "stop")
    n = A(args, kw, 2, "num") or Sc(cF(50))
    fl, fh, fn_ = I.facts(lo), I.facts(hi), I.facts(n)
    note_dim(I, fn_)
    f = F(mk("linspace", fl.term, fh.term, fn_.term, I.facts(kw["endpoint"]).term if "endpoint" in kw else tm.TRUE),
          fx.hull(fl.itv, fh.itv), "f", fl.deps | fh.deps | fn_.deps, fx.join_pl([fl.pl, fh.pl]), None, fl.bad | fh.bad, fl.trial | fh.trial)
    r = I.arr(node, (fn_.term,), f, "ls")
    if boolarg(kw.get("retstep")):
        return Tup([r, Sc(F(mk("lsstep", f.term), TOP, "f", f.deps, f.pl))])
    return r


def np_eye(I, args, kw, node):
    n = A(args, kw, 0, "N") or kw.get("n")
    m = A(args, kw, 1, "M")
    f = I.facts(n)
    note_dim(I, f)
    d2 = I.facts(m).term if m is not None and not isnone(m) else f.term
    return I.arr(node, (f.term, d2), F(mk("eye", f.term), (0, 1), dt_code(I, kw.get("dtype")) or "f", f.deps), "eye")


def np_diag(I, args, kw, node):
    v = A(args, kw, 0, "v")
    sh, f = I.rd(v)
    g = f.w(term=mk("diag", f.term) if f.term.op != "eye" else ONE, miss={}, bad=f.bad | missbad(I, f, node, "diag"), props=EMPTY)
    if sh is None:
        return Arr(I.alloc(node, ArrC(None, g), "diag"))
    if len(sh) == 1:
        return I.arr(node, (sh[0], sh[0]), g.w(itv=fx.hull(f.itv, (0, 0)), pl="MIX" if f.pl else None), "diag")
    return I.arr(node, (sh[0],), g.w(pl="MIX" if f.pl else None), "diag")


def missbad(I, f, node, what):
    if any(has_sent(t) for t, _ in f.miss.values()):
        return frozenset({("sent", f"{where(I, node)}: {what} includes the missing-response placeholder")})
    if f.miss:
        return frozenset({("contrib", f"{where(I, node)}: {what} uses values of missing responses")})
    return EMPTY


def np_outer(I, args, kw, node):
    a, b = tonum(I, args[0], node), tonum(I, args[1], node)
    sa, fa = I.rd(a)
    sb, fb = I.rd(b)
    if sa is None or sb is None:
        return Arr(I.alloc(node, ArrC(None, I._mix(fa, fb).w(term=mk("outer", fa.term, fb.term), dt=fx.promote([fa.dt, fb.dt], "mul"))), "outer"))
    sa1, fa1 = (sa, fa) if len(sa) == 1 else ((total(sa),), step(sa, fa, ("rs", (total(sa),)))[1])
    sb1, fb1 = (sb, fb) if len(sb) == 1 else ((total(sb),), step(sb, fb, ("rs", (total(sb),)))[1])
    full = ("s", None, None, None)
    _, fa2, _, _ = step_ix(sa1, fa1, (full, ("n",)))
    sh, f, _ = fx.elementwise("mul", [fa2, fb1], [(sa1[0], ONE), sb1])
    return I.arr(node, sh, f.w(term=mk("outer", fa1.term, fb1.term)), "outer")


def np_dot(I, args, kw, node):
    return matmul(I, tonum(I, args[0], node), tonum(I, args[1], node), node)


def np_average(I, args, kw, node):
    w = A(args, kw, 2, "weights")
    axv = A(args, kw, 1, "axis")
    rest = {k: x for k, x in kw.items() if k == "keepdims"}
    if axv is not None:
        rest["axis"] = axv
    if w is None or isnone(w):
        r = reducer("mean")(I, [A(args, kw, 0, "a")], rest, node)
        return Tup([r, Unk(I.facts(r))]) if boolarg(kw.get("returned"), False) else r
    v, w = tonum(I, A(args, kw, 0, "a"), node), tonum(I, w, node)
    (sv, fv), (sw, _) = I.rd(v), I.rd(w)
    ax = axes_arg(I, axv)
    whole = {}
    if sv is not None and sw is not None and len(sw) == 1 and len(sv) > 1 and ax not in (None, "unknown") and len(ax) == 1:
        k = ax[0] % len(sv)
        if k < len(sv) - 1:
            w2 = alias(lambda *_: ("ix", (("s", None, None, None),) + (("n",),) * (len(sv) - 1 - k)))(I, [w], {}, node)
        else:
            w2 = w
    else:
        w2, whole = w, rest
    num = reducer("sum")(I, [ew(I, "mul", [v, w2], node)], rest, node)
    den = reducer("sum")(I, [w], whole, node)
    r = ew(I, "div", [num, den], node)
    fw = I.facts(w)
    if fw.itv[0] >= 0 and isinstance(r, Sc):
        r = Sc(r.f.w(itv=fv.itv))
    return Tup([r, den]) if boolarg(kw.get("returned"), False) else r


def np_unique(I, args, kw, node):
    v = A(args, kw, 0, "ar")
    v = tonum(I, v, node)
    sh, f = I.rd(v)
    ax = axes_arg(I, A(args, kw, 4, "axis"))
    ub, umiss = EMPTY, {}
    if sh is None or ax == "unknown":
        d = mk("ulen", f.term)
        f2 = f.w(term=mk("unique", f.term), pl="MIX" if f.pl is not None else None, miss={}, bad=f.bad | missbad(I, f, node, "unique"))
        s2 = (d,) if ax is None else None
        vals = I.arr(node, s2, f2, "uq")
        ncol = d
    elif ax is None:
        d = mk("ulen", f.term)
        # the set of distinct values: a missing response adds the placeholder itself
        bad = set(f.bad)
        miss = {}
        for s, (t, ti) in f.miss.items():
            miss[((s[0], "uq"), "*", "*")] = (t, ti)
        ub = missbad(I, f, node, "the set of distinct values")
        if ub:
            I.dimbad[d] = I.dimbad.get(d, EMPTY) | ub
            umiss = {k: (mk("n", w[0]), TOP) if not has_sent(w[0]) else (mk("n", SENT), TOP) for k, w in miss.items()}
        f2 = f.w(term=mk("unique", f.term), pl="MIX" if f.pl is not None else None, miss=miss)
        vals = I.arr(node, (d,), f2, "uq")
        s2, ncol = (d,), d
    else:
        a = ax[0] % len(sh)
        d = mk(UDIM, f.term, const(a)) if True else None
        d = mk(UDIM, f.term)
        s2 = tuple(d if i == a else x for i, x in enumerate(sh))
        miss = {((s[0], "uq"),) + s[1:]: w for s, w in f.miss.items()}
        t = mk("unique", f.term, const(a))
        miss = {s: (mk("unique", w[0], const(a)) if w[0].op not in ("const", "SENT", "nan") else w[0], w[1]) for s, w in miss.items()}
        vals = I.arr(node, s2, f.w(term=t, miss=miss, props=EMPTY), "uq")
        ncol = d
    outs = [vals]
    own = umiss or None
    base = F(mk("uidx", f.term), (0, INF), "i", f.deps, "MIX" if f.pl is not None else None, None, f.bad, f.trial)
    if boolarg(A(args, kw, 1, "return_index")):
        outs.append(I.arr(node, (ncol,), base.w(miss=own) if own else base, "uqi"))
    if boolarg(A(args, kw, 2, "return_inverse")):
        if sh is not None and ax not in (None, "unknown"):
            n = sh[ax[0] % len(sh)]
            pl = ("ax", 0) if f.pl == ("ax", ax[0] % len(sh)) else ("MIX" if f.pl else None)
        else:
            n = total(sh) if sh is not None else sym("len")
            pl = "MIX" if f.pl is not None else None
        outs.append(I.arr(node, (n,), base.w(term=mk("uinv", f.term), pl=pl, bad=base.bad | ub), "uqv"))
    if boolarg(A(args, kw, 3, "return_counts")):
        outs.append(I.arr(node, (ncol,), base.w(term=mk("ucount", f.term), itv=(1, INF), miss=own or {}), "uqc"))
    return outs[0] if len(outs) == 1 else Tup(outs)


def np_concat(axis_default):
    def g(I, args, kw, node):
        seq = A(args, kw, 0, "arrays") or kw.get("tup")
        axv = A(args, kw, 1, "axis")
        ax = axes_arg(I, axv) if axv is not None else (axis_default,)
        its = I.items_of(seq)
        return concat(I, seq, its, ax, node)
    return g


def concat(I, seq, its, ax, node):
    if its is None:
        sh, f = I.rd(seq)
        if sh is None or len(sh) < 2 or ax in (None, "unknown"):
            return Arr(I.alloc(node, ArrC(None if sh is None else (mk("cat", f.term),) if len(sh) <= 2 else None, f.w(pl="MIX" if f.pl is not None else None, miss={})), "cat"))
        a = ax[0] % (len(sh) - 1) if len(sh) > 1 else 0
        ns = list(sh[1:])
        ns[a] = mk("mul", sh[0], ns[a])
        return I.arr(node, tuple(ns), fx.remapF(f, {i + 1: i for i in range(len(ns)) if i != a}).w(term=mk("cat", f.term, const(a))), "cat")
    parts = [I.rd(x) for x in its]
    if not parts:
        return I.arr(node, (ZERO,), F(sym("empty")), "cat")
    shs = [p[0] for p in parts]
    f = parts[0][1]
    t = mk("cat", const(str(ax)), *[p[1].term for p in parts])
    if any(s is None for s in shs) or ax in ("unknown",) or ax is None:
        for p in parts[1:]:
            f = fx.joinF(f, p[1], t)
        ns = (total([mk("add", ZERO, ZERO)]),) if False else None
        if ax is None and all(s is not None for s in shs):
            n = ZERO
            for s in shs:
                n = mk("add", n, total(s))
            ns = (n,)
        return Arr(I.alloc(node, ArrC(ns, f.w(term=t, pl="MIX" if f.pl is not None else None)), "cat"))
    n = max(len(s) for s in shs)
    a = ax[0] % n if n else 0
    d = ZERO
    base = None
    fs = []
    for (s, q) in parts:
        if len(s) != n:
            I.ev("shape", node, key="concat", mism=[], shapes=shs, op="concatenate")
            s = s + (ONE,) * (n - len(s))
        d = mk("add", d, s[a])
        base = s if base is None else base
        # rows of one operand no longer line up with the whole along the joined axis
        if len(parts) > 1:
            am = {i: i for i in range(n) if i != a}
            q2 = q
            if q.pl == ("ax", a):
                q2 = q2.w(pl="MIX")
            q2 = q2.w(miss={((r, "cat", len(fs)) if sel_on(i, a) or sel_on(p, a) else r, i, "*" if sel_on(p, a) else p): w
                            for (r, i, p), w in q2.miss.items()})
            fs.append(q2)
        else:
            fs.append(q)
    f = fs[0]
    for q in fs[1:]:
        f = fx.joinF(f, q, t)
    if not all(q.term is fs[0].term for q in fs) or len(fs) == 1:
        f = f.w(term=t if len(fs) > 1 else fs[0].term)
    ns = tuple(d if i == a else x for i, x in enumerate(base))
    # broadcast dims against the others
    return I.arr(node, ns, f.w(props=EMPTY, dt=fx.promote([q.dt for q in fs], "cat") if len(fs) > 1 else f.dt), "cat")


def sel_on(s, a):
    return isinstance(s, tuple) and s[0] == "ax" and s[1] == a


def np_stack(I, args, kw, node):
    seq = A(args, kw, 0, "arrays")
    ax = axes_arg(I, A(args, kw, 1, "axis") or Sc(cF(0)))
    sh, f = I.rd(seq)
    if sh is None or ax in (None, "unknown"):
        return Arr(I.alloc(node, ArrC(None, f), "stack"))
    n = len(sh)
    a = ax[0] % n
    perm = list(range(1, n))
    perm.insert(a, 0)
    s2, f2, _, _ = step(sh, f, ("T", tuple(perm)))
    return I.arr(node, s2, f2, "stack")


def vh(which):
    def g(I, args, kw, node):
        seq = A(args, kw, 0, "tup")
        its = I.items_of(seq)
        if its is not None:
            vs = []
            for x in its:
                s, f = I.rd(x)
                if s is not None and len(s) == 0:
                    s, f = (ONE,), f
                if which == "v" and s is not None and len(s) == 1:
                    s, f = (ONE, s[0]), fx.shift(f, 1)
                if which == "c" and s is not None and len(s) == 1:
                    s2, f, _, _ = step_ix(s, f, (("s", None, None, None), ("n",)))
                    s = s2
                vs.append(I.arr(node, s, f, "vh%d" % len(vs)))
            a = 0 if which == "v" else 1
            if which == "h":
                s0 = I.rd(vs[0])[0] if vs else None
                a = 0 if s0 is not None and len(s0) == 1 else 1
            return concat(I, seq, vs, (a,), node)
        sh, f = I.rd(seq)
        if sh is not None and len(sh) == 2:
            if which == "v":
                return I.arr(node, sh, f, "vh")
            if which == "h":
                return concat(I, seq, None, (0,), node)
            s2, f2, _, _ = step(sh, f, ("T", None))
            return I.arr(node, s2, f2, "vh")
        a = 0 if which == "v" else 1
        return concat(I, seq, None, (a,), node)
    return g


def np_repeat(I, args, kw, node):
    v, r = A(args, kw, 0, "a"), A(args, kw, 1, "repeats")
    ax = axes_arg(I, A(args, kw, 2, "axis"))
    sh, f = I.rd(v)
    rf = I.facts(r)
    if sh is not None and ax not in (None, "unknown") and isinstance(r, Sc):
        a = ax[0] % len(sh)
        ns = tuple(mk("mul", d, rf.term) if i == a else d for i, d in enumerate(sh))
        g = f.w(term=mk("repeat", f.term, rf.term, const(a)), deps=f.deps | rf.deps)
        if tm.num_const(sh[a]) == 1:
            g = g.w(term=f.term if f.term.op == "const" else g.term)
        else:
            g = g.w(pl="MIX" if sel_on(f.pl, a) else f.pl, miss={(k[0], "*" if sel_on(k[1], a) else k[1], "*" if sel_on(k[2], a) else k[2]): w for k, w in f.miss.items()})
        return I.arr(node, ns, g, "rep")
    if sh is not None and len(sh) <= 1 and ax in (None, (0,)) and isinstance(r, Sc):
        n = mk("mul", total(sh), rf.term)
        return I.arr(node, (n,), f.w(term=mk("repeat", f.term, rf.term), deps=f.deps | rf.deps, pl="MIX" if f.pl else None, miss={}), "rep")
    return Arr(I.alloc(node, ArrC(None if ax is not None else (mk("replen", f.term, rf.term),), I._mix(f, rf).w(term=mk("repeat", f.term, rf.term), dt=f.dt, itv=f.itv)), "rep"))


def np_tile(I, args, kw, node):
    v, r = A(args, kw, 0, "A"), A(args, kw, 1, "reps")
    sh, f = I.rd(v)
    rs = shape_of(I, r)
    rf = I.facts(r)
    if sh is None or rs is None:
        return Arr(I.alloc(node, ArrC(None, I._mix(f, rf).w(term=mk("tile", f.term, rf.term), dt=f.dt, itv=f.itv)), "tile"))
    n = max(len(sh), len(rs))
    s = (ONE,) * (n - len(sh)) + sh
    r2 = (ONE,) * (n - len(rs)) + rs
    g = fx.shift(f, n - len(sh))
    for a in range(n):
        if tm.num_const(r2[a]) != 1 and tm.num_const(s[a]) != 1:
            g = g.w(pl="MIX" if sel_on(g.pl, a) else g.pl, miss={(k[0], "*" if sel_on(k[1], a) else k[1], "*" if sel_on(k[2], a) else k[2]): w for k, w in g.miss.items()})
    t = f.term if f.term.op in ("const", "SENT") else mk("tile", f.term, *r2)
    return I.arr(node, tuple(mk("mul", d, e) for d, e in zip(s, r2)), g.w(term=t, deps=g.deps | rf.deps), "tile")


def np_broadcast_to(I, args, kw, node):
    v = tonum(I, A(args, kw, 0, "array"), node)
    sh2 = shape_of(I, A(args, kw, 1, "shape"))
    sh, f = I.rd(v)
    if sh is None or sh2 is None:
        return Arr(I.alloc(node, ArrC(None, f), "bc"))
    return I.arr(node, sh2, fx.shift(f, len(sh2) - len(sh)), "bc")


def reorder(name, keepset=True):
    """sort / roll / flip-like: same multiset of elements along one axis, new positions"""
    def g(I, args, kw, node):
        v = tonum(I, A(args, kw, 0, "a"), node)
        sh, f = I.rd(v)
        if name == "roll":
            axv = A(args, kw, 2, "axis")
            ax = axes_arg(I, axv)
            extra = [I.facts(A(args, kw, 1, "shift"))]
        else:
            axv = A(args, kw, 1, "axis")
            ax = axes_arg(I, axv) if axv is not None else (-1,)
            extra = []
        t = mk(name, f.term, *[e.term for e in extra], const(str(ax)))
        if f.term.op in ("const", "SENT", "nan"):
            t = f.term
        g2 = f.w(term=t, deps=f.deps.union(*[e.deps for e in extra]) if extra else f.deps, props=EMPTY)
        if name == "sort" and sh is not None and len(sh) and (ax in ((-1,), (len(sh) - 1,))):
            g2 = g2.w(props=frozenset({"sorted"}))
        if sh is None or ax in ("unknown",):
            return Arr(I.alloc(node, ArrC(None, g2.w(pl="MIX" if f.pl is not None else None)), name))
        axs = range(len(sh)) if ax is None else [a % len(sh) for a in ax] if sh else []
        for a in axs:
            if sel_on(g2.pl, a):
                g2 = g2.w(pl="MIX")
            g2 = g2.w(miss={(k[0] if not (sel_on(k[1], a) or sel_on(k[2], a)) else (k[0], name), "*" if sel_on(k[1], a) else k[1],
                             "*" if sel_on(k[2], a) else k[2]): (mk(name, w[0]) if w[0].op not in ("const", "SENT", "nan") else w[0], w[1])
                            for k, w in g2.miss.items()})
        if name == "argsort":
            g2 = g2.w(dt="i", itv=(0, INF), miss={}, bad=f.bad | missbad(I, f, node, "argsort"))
        return I.arr(node, sh, g2, name) if sh else Sc(g2)
    return g


def np_diff(I, args, kw, node):
    v = tonum(I, A(args, kw, 0, "a"), node)
    axv = A(args, kw, 2, "axis")
    ax = axes_arg(I, axv) if axv is not None else (-1,)
    sh, f = I.rd(v)
    n = constof(A(args, kw, 1, "n")) if A(args, kw, 1, "n") is not None else 1
    if sh is None or ax == "unknown" or n != 1:
        return Arr(I.alloc(node, ArrC(None if sh is None else sh if n != 1 else None, f.w(term=mk("diff", f.term), itv=TOP, miss={}, bad=f.bad | missbad(I, f, node, "diff"), pl="MIX" if f.pl else None, props=EMPTY)), "diff"))
    a = ax[0] % len(sh)
    full = ("s", None, None, None)
    if f.dt.startswith("inh:"):
        w = (f.itv[1] - f.itv[0]) if INF not in (f.itv[1], -f.itv[0]) else INF
        I.ev("arith", node, key=("diff", f.term), dt=f.dt, op="sub", f=f.w(itv=(-w, w), term=mk("diff", f.term)), fs=[f, f])
    lo = tuple(("s", None, const(-1), None) if i == a else full for i in range(len(sh)))
    hi = tuple(("s", const(1), None, None) if i == a else full for i in range(len(sh)))
    s1, f1, _, _ = step_ix(sh, f, lo)
    s2, f2, _, _ = step_ix(sh, f, hi)
    s3, f3, _ = fx.elementwise("sub", [f2, f1], [s2, s1])
    return I.arr(node, s3, f3, "diff")


def np_delete(I, args, kw, node):
    v = A(args, kw, 0, "arr")
    ax = axes_arg(I, A(args, kw, 2, "axis"))
    sh, f = I.rd(v)
    of = I.facts(A(args, kw, 1, "obj"))
    g = f.w(term=mk("delete", f.term, of.term), deps=f.deps | of.deps, props=EMPTY, bad=f.bad | I.cbad(of))
    if sh is None or ax == "unknown" or (ax is None and len(sh) != 1):
        return Arr(I.alloc(node, ArrC(None, g.w(pl="MIX" if f.pl else None, miss={})), "del"))
    a = 0 if ax is None else ax[0] % len(sh)
    osh, _ = I.rd(A(args, kw, 1, "obj"))
    one = osh == ()
    ns = tuple((mk("sub", d, ONE) if one else mk("deldim", d, of.term)) if i == a else d for i, d in enumerate(sh))
    g = g.w(pl="MIX" if sel_on(f.pl, a) else f.pl,
            miss={((k[0], "del", of.term) if sel_on(k[1], a) or sel_on(k[2], a) else k[0], k[1], "*" if sel_on(k[2], a) else k[2]): w for k, w in f.miss.items()})
    return I.arr(node, ns, g, "del")


def np_take_along(I, args, kw, node):
    v, idx = A(args, kw, 0, "arr"), A(args, kw, 1, "indices")
    ax = axes_arg(I, A(args, kw, 2, "axis"))
    sh, f = I.rd(v)
    ish, fi = I.rd(idx)
    if I.codes is not None:
        sizeby(I, fi, node)
    if fi.dt.startswith("inh"):
        I.ev("index", node, key=fi.term, dt=fi.dt, f=fi)
    if sh is None or ish is None or ax == "unknown" or len(sh) != len(ish):
        return Arr(I.alloc(node, ArrC(None, I._mix(f, fi).w(term=mk("takeal", f.term, fi.term), itv=f.itv, dt=f.dt)), "ta"))
    a = 0 if ax is None else ax[0] % len(sh)
    am = {i: i for i in range(len(sh)) if i != a}
    g = fx.remapF(f, am)
    miss = {s: (mk("takeal", t, fi.term), ti) if t.op not in ("const", "SENT") else (t, ti) for s, (t, ti) in g.miss.items()}
    for s, (t, ti) in fi.miss.items():
        miss[s] = (mk("takeal", miss[s][0] if s in miss else f.term, t), f.itv)
    ns = tuple(ish[i] if i == a else fx.bdim(d, ish[i])[0] for i, d in enumerate(sh))
    return I.arr(node, ns, F(mk("takeal", f.term, fi.term, const(a)), f.itv, f.dt, f.deps | fi.deps, fx.join_pl([g.pl, fi.pl]), miss,
                             f.bad | I.cbad(fi.w(miss={})), f.trial | fi.trial), "ta")


def np_take(I, args, kw, node):
    v, idx = A(args, kw, 0, "a"), A(args, kw, 1, "indices")
    ax = axes_arg(I, A(args, kw, 2, "axis"))
    v = tonum(I, v, node)
    sh, f = I.rd(v)
    if ax is None:
        return index(I, flat(I, v) if isinstance(v, Arr) else v, comp_of(I, idx), node)
    if sh is None or ax == "unknown":
        return Unk(I._unkf("take", [v, idx], node))
    a = ax[0] % len(sh)
    comps = [("s", None, None, None)] * a + comp_of(I, idx)
    return index(I, v, comps, node)


def np_isin(I, args, kw, node):
    a, b = A(args, kw, 0, "element"), A(args, kw, 1, "test_elements")
    inv = boolarg(kw.get("invert"), False)
    sh, f = I.rd(tonum(I, a, node))
    sb, fb = I.rd(b)
    t = mk("isin", f.term, fb.term)
    miss = {}
    for s, (tt, ti) in f.miss.items():
        if ti[1] < fb.itv[0] or ti[0] > fb.itv[1]:
            miss[s] = (tm.FALSE, (0, 0))
        else:
            miss[s] = (mk("isin", tt, fb.term), (0, 1))
    bad = f.bad | I.cbad(fb) | (missbad(I, fb, node, "isin") if any(has_sent(x) for x, _ in fb.miss.values()) else EMPTY)
    g = F(t, (0, 1), "b", f.deps | fb.deps, fx.join_pl([f.pl, "MIX" if fb.pl is not None else None]), miss, bad, f.trial | fb.trial)
    if inv is True or inv is None:
        g = fx.elementwise("not", [g], [sh])[1].w(dt="b")
    return I.arr(node, sh, g, "isin")


def np_searchsorted(I, args, kw, node):
    a, v = A(args, kw, 0, "a"), A(args, kw, 1, "v")
    sa, fa = I.rd(tonum(I, a, node))
    sv, fv = I.rd(tonum(I, v, node))
    n = sa[0] if sa else None
    g = F(mk("searchsorted", fa.term, fv.term, I.facts(kw["side"]).term if "side" in kw else const("left")), (0, tm.num_const(n) if n is not None and tm.num_const(n) is not None else INF), "i",
          fa.deps | fv.deps, fx.join_pl(["MIX" if fa.pl is not None else None, fv.pl]),
          {s: (mk("searchsorted", fa.term, t), (0, 0) if ti[1] < fa.itv[0] else (0, INF)) for s, (t, ti) in fv.miss.items()},
          fa.bad | fv.bad, fa.trial | fv.trial)
    return I.arr(node, sv, g, "ss") if sv != () else Sc(g)


def np_digitize(I, args, kw, node):
    x, bins = A(args, kw, 0, "x"), A(args, kw, 1, "bins")
    return np_searchsorted(I, [bins, x], {}, node)


def np_einsum(I, args, kw, node):
    spec = constof(args[0]) if args else None
    ops = [tonum(I, a, node) for a in args[1:]]
    parts = [I.rd(o) for o in ops]
    if isinstance(spec, str) and "..." not in spec and all(p[0] is not None for p in parts):
        spec = spec.replace(" ", "")
        ins, _, out = spec.partition("->")
        ins = ins.split(",")
        if "->" not in spec:
            import collections
            cnt = collections.Counter("".join(ins))
            out = "".join(sorted(c for c in cnt if cnt[c] == 1))
        if len(ins) == len(ops) and all(len(a) == len(p[0]) for a, p in zip(ins, parts)):
            letters = list(out) + [c for c in dict.fromkeys("".join(ins)) if c not in out]
            pos = {c: i for i, c in enumerate(letters)}
            dims = {}
            fs = []
            for a, (sh, f) in zip(ins, parts):
                for c, d in zip(a, sh):
                    dims[c] = d if c not in dims else fx.bdim(dims[c], d)[0]
                fs.append(fx.remapF(f, {i: pos[c] for i, c in enumerate(a)}))
            vs = tuple(dims[c] for c in letters)
            cur = fs[0]
            for g in fs[1:]:
                _, cur, _ = fx.elementwise("mul", [cur, g], [vs, vs])
            if len(letters) > len(out):
                d0 = cur.dt
                sh, cur = fx.reduce_("sum", vs, cur, tuple(range(len(out), len(letters))), site=where(I, node))
                if d0.startswith("inh:"):
                    cur = cur.w(dt=d0)
                    I.ev("arith", node, key=("einsum", cur.term), dt=d0, op="einsum", f=cur, fs=[q[1] for q in parts])
            else:
                sh = vs
            pt = parts[0][1].term
            for q in parts[1:]:
                pt = mk("mul", pt, q[1].term)
            cur = cur.w(term=mk("einsum", const(spec), *[p[1].term for p in parts]))
            if len(letters) > len(out):
                I.ev("reduce", node, key="einsum", op="einsum", term=pt, dims=tuple(dims[c] for c in letters[len(out):]), out=cur.term)
            return mkfresh(I, node, sh, cur, "einsum")
    f = parts[0][1] if parts else F(sym("einsum"))
    for p in parts[1:]:
        f = I._mix(f, p[1])
    t = mk("einsum", I.facts(args[0]).term, *[p[1].term for p in parts])
    deps = f.deps | (I.facts(args[0]).deps if args else EMPTY)
    return Arr(I.alloc(node, ArrC(None, f.w(term=t, deps=deps, dt=fx.promote([p[1].dt for p in parts], "mul") if parts else "?")), "einsum"))


def np_meshgrid(I, args, kw, node):
    n = len(args)
    idx = constof(kw.get("indexing"))
    outs = []
    dims = []
    if any(isinstance(a, Prim) and a.kind == "star" for a in args):
        return Unk(I._unkf("meshgrid", args, node))
    for a in args:
        sh, f = I.rd(a)
        dims.append(sh[0] if sh else ONE)
    order = list(range(n))
    if idx != "ij" and n >= 2:
        order[0], order[1] = 1, 0
    shape = tuple(dims[o] for o in order)
    for i, a in enumerate(args):
        sh, f = I.rd(a)
        ax = order.index(i)
        g = fx.remapF(f, {0: ax})
        comps = tuple(("n",) if j != ax else ("s", None, None, None) for j in range(n))
        t = ixterm(f.term, ixkey(comps))
        outs.append(I.arr(node, shape, g.w(term=t), "mg%d" % i))
    return self_list(I, node, outs)


def self_list(I, node, outs):
    return I.list_(node, outs)


def np_tri_idx(name):
    def g(I, args, kw, node):
        n = A(args, kw, 0, "n") or kw.get("arr")
        k = A(args, kw, 1, "k") or Sc(cF(0))
        nf, kf = I.facts(n), I.facts(k)
        if isinstance(n, Arr):
            sh, _ = I.rd(n)
            nt = sh[0] if sh else sym("n")
        else:
            nt = nf.term
        d = mk("tricount", const(name), nt, kf.term)
        if name == "diag":
            d = nt
        outs = []
        for i in range(2):
            t = mk("triidx", const(name), nt, kf.term, const(i)) if name != "diag" else mk("arange0", nt)
            outs.append(I.arr(node, (d,), F(t, (0, INF), "i", nf.deps | kf.deps), "tri%d" % i))
        return Tup(outs)
    return g


def np_tri(name):
    def g(I, args, kw, node):
        sh, f = I.rd(args[0])
        return I.arr(node, sh, f.w(term=mk(name, f.term, *[I.facts(a).term for a in args[1:]], *[I.facts(a).term for a in kw.values()]), itv=fx.hull(f.itv, (0, 0))), name)
    return g


def np_array_split(I, args, kw, node):
    v, n = A(args, kw, 0, "ary"), A(args, kw, 1, "indices_or_sections")
    v = tonum(I, v, node)
    sh, f = I.rd(v)
    nf = I.facts(n)
    d = mk("chunklen", sh[0], nf.term) if sh else sym("chunk")
    es = ((d,) + sh[1:]) if sh is not None else None
    ef = f.w(term=mk("chunk", f.term, nf.term), deps=f.deps | nf.deps)
    e = Arr(I.alloc(node, ArrC(es, ef), "chunk"))
    return I.list_(node, None, e, nf.term)


def np_c_(I, slc, node, which):
    elts = slc.elts if isinstance(slc, ast.Tuple) else [slc]
    vs = []
    for e in elts:
        if isinstance(e, ast.Slice):
            vs.append(I.arr(node, (sym("rlen", e._id if hasattr(e, "_id") else 0),), F(sym("r_", e.lineno if hasattr(e, "lineno") else 0), TOP, "?"), "cr%d" % len(vs)))
        else:
            v = I.expr(e)
            if I.heap is None:
                return v
            vs.append(v)
    seq = Tup(vs)
    if which == "c":
        out = []
        for i, x in enumerate(vs):
            sh, f = I.rd(x)
            if sh is not None and len(sh) == 0:
                sh, f = (ONE, ONE), f
            elif sh is not None and len(sh) == 1:
                sh, f, _, _ = step_ix(sh, f, (("s", None, None, None), ("n",)))
            out.append(I.arr(node, sh, f, "c_%d" % i))
        r = concat(I, Tup(out), out, (-1,), node)
        # a single column or scalars broadcast nothing in np.c_
        return r
    out = []
    for i, x in enumerate(vs):
        sh, f = I.rd(x)
        if sh is not None and len(sh) == 0:
            sh = (ONE,)
        out.append(I.arr(node, sh, f, "r_%d" % i))
    return concat(I, Tup(out), out, (0,), node)


def np_cov(name):
    def g(I, args, kw, node):
        v = A(args, kw, 0, "m") or kw.get("x")
        v = tonum(I, v, node)
        sh, f = I.rd(v)
        if len(args) > 1 and not isnone(args[1]) or kw.get("y") is not None:
            f2 = I.facts(args[1] if len(args) > 1 else kw["y"])
            f = I._mix(f, f2).w(term=mk("pair", f.term, f2.term), dt="f", miss=dict(f.miss) | dict(f2.miss))
            n = const(2) if sh is not None and len(sh) == 1 else mk("mul", const(2), sh[0]) if sh else None
            sh = (n, sh[-1]) if sh else None
        g2 = F(mk(name, f.term), (-1, 1) if name == "corrcoef" else TOP, "f", f.deps, "MIX" if f.pl is not None else None, None,
               f.bad | missbad(I, f, node, name), f.trial)
        if sh is None:
            return Arr(I.alloc(node, ArrC(None, g2), name))
        if len(sh) == 1:
            return Sc(g2)
        rv = boolarg(kw.get("rowvar"), True)
        d = sh[0] if rv is not False else sh[1]
        return I.arr(node, (d, d), g2, name)
    return g


def np_convolve(I, args, kw, node):
    a, b = A(args, kw, 0, "a"), A(args, kw, 1, "v")
    sa, fa = I.rd(a)
    sb, fb = I.rd(b)
    mode = constof(A(args, kw, 2, "mode"))
    n = None
    if sa and sb and mode is None:
        n = mk("sub", mk("add", sa[0], sb[0]), ONE)
    elif sa and sb and mode == "same":
        n = mk("max2", sa[0], sb[0])
    else:
        n = mk("convlen", fa.term, fb.term)
    f = I._mix(fa, fb).w(term=mk("convolve", fa.term, fb.term), itv=(0 if fa.itv[0] >= 0 and fb.itv[0] >= 0 else -INF, INF), dt="f")
    return I.arr(node, (n,), f, "conv")


def np_apply_along(I, args, kw, node):
    fnv = A(args, kw, 0, "func1d")
    ax = axes_arg(I, A(args, kw, 1, "axis"))
    v = A(args, kw, 2, "arr")
    rest = list(args[3:])
    kk = {k: x for k, x in kw.items() if k not in ("func1d", "axis", "arr")}
    sh, f = I.rd(v)
    if sh is None or ax in (None, "unknown"):
        r = I.call(fnv, [Unk(f)] + rest, kk, node)
        return Unk(I.facts(r)) if I.heap is not None else r
    a = ax[0] % len(sh)
    idt = sym("ala", node._id, I.ctx)
    comps = [("i", Sc(F(idt, (0, INF), "i"))) if i != a else ("s", None, None, None) for i in range(len(sh))]
    I.pushloop(idt)
    col = index(I, v if isinstance(v, Arr) else asarr(I, v, node), comps, node)
    r = I.call(fnv, [col] + rest, kk, node)
    I.poploop()
    if I.heap is None:
        return r
    rs, rf = I.rd(r)
    if rs is None:
        return Arr(I.alloc(node, ArrC(None, rf.w(pl="MIX" if rf.pl else None)), "ala"))
    others = [i for i in range(len(sh)) if i != a]
    ns = tuple(sh[i] for i in others[:a]) + tuple(rs) + tuple(sh[i] for i in others[a:])
    am = {i: i for i in range(len(others))}
    def back(s):
        if isinstance(s, tuple) and s[0] == "at" and s[1] is idt and len(others) == 1:
            return ("ax", 0 if a > 0 else len(rs))
        if isinstance(s, tuple) and s[0] == "at" and s[1] is idt:
            return "MIX"
        return s
    g = rf.w(term=mk("ala", rf.term), pl=back(rf.pl), miss={(k[0], back(k[1]) if back(k[1]) != "MIX" else "*", back(k[2]) if back(k[2]) != "MIX" else "*"): w for k, w in rf.miss.items()}, props=EMPTY)
    return mkfresh(I, node, ns, g, "ala")


def np_vectorize(I, args, kw, node):
    return Prim("vectorize", fn=args[0])


def np_copyto(I, args, kw, node):
    dst, src = args[0], args[1]
    for d in I.alts(dst):
        if isinstance(d, Arr):
            if "where" in kw:
                store_all(I, d, ew(I, "where", [tonum(I, kw["where"], node), tonum(I, src, node), d], node), node)
            else:
                store_all(I, d, src, node)
    return Sc(cF(None))


def inplace(name):
    def g(I, args, kw, node):
        if name in ("putmask", "place") and len(args) == 3 and isinstance(args[2], Sc):
            for d in I.alts(args[0]):
                if isinstance(d, Arr):
                    store_all(I, d, ew(I, "where", [tonum(I, args[1], node), args[2], d], node), node)
            return Sc(cF(None))
        for d in I.alts(args[0]):
            if isinstance(d, Arr):
                vs = [x for x in list(args[1:]) + list(kw.values())]
                sh, f = I.rd(d)
                nf = f
                for x in vs:
                    nf = I._mix(nf, I.facts(x)).w(dt=f.dt)
                if vs:
                    nf = nf.w(term=mk(name, f.term, *[I.facts(x).term for x in vs]))
                else:
                    nf = nf.w(term=mk(name, f.term), pl="MIX" if f.pl is not None else None)
                if name == "fill_diagonal":
                    nf = fx.joinF(f, I.facts(args[1]), mk("filldiag", f.term, I.facts(args[1]).term)).w(dt=f.dt)
                if name == "sort":
                    r = FUNCS["numpy.sort"](I, [d] + list(args[1:]), kw, node)
                    store_all(I, d, r, node)
                    continue
                I.touch(d, node, name)
                c = I.c(d.loc)
                base = c.f
                I.heap[d.loc] = ArrC(c.shape, fx.joinF(base, nf, nf.term).w(dt=base.dt) if d.path else nf.w(dt=base.dt))
                for cb in I.cbs:
                    if d.loc in cb["entry"] and d.loc not in cb["fresh"]:
                        I.heap[d.loc] = ArrC(c.shape, I.heap[d.loc].f.w(trial=I.heap[d.loc].f.trial | {(cb["site"], node._id, ("full",))}))
        return Sc(cF(None))
    return g


def m_fill(I, args, kw, node):
    for d in I.alts(args[0]):
        if isinstance(d, Arr):
            store_all(I, d, args[1], node)
    return Sc(cF(None))


def np_nan_to_num(I, args, kw, node):
    v = args[0]
    if boolarg(A(args, kw, 1, "copy"), True) is not True and isinstance(v, Arr):
        sh, f = I.rd(v)
        store_all(I, v, I.arr(node, sh, f.w(term=mk("nan_to_num", f.term)), "n2n"), node)
        return v
    sh, f = I.rd(tonum(I, v, node))
    miss = {s: ((cF(0).term, (0, 0)) if t.op == "nan" else (t, ti)) for s, (t, ti) in f.miss.items()}
    return I.arr(node, sh, f.w(term=mk("nan_to_num", f.term), miss=miss), "n2n")


def np_masked(I, args, kw, node):
    data = A(args, kw, 0, "data")
    mask = A(args, kw, 1, "mask")
    sh, f = I.rd(tonum(I, data, node))
    if mask is None or isnone(mask):
        mf = F(tm.FALSE, (0, 0), "b")
    else:
        ms, mf = I.rd(mask)
        if ms is not None and sh is not None:
            mf = fx.shift(mf, len(sh) - len(ms))
    return Prim("ma", shape=sh, f=f, mask=mf)


def masked_cmp(op):
    def g(I, args, kw, node):
        a = tonum(I, args[0], node)
        m = ew(I, op, [a, args[1]], node)
        sh, f = I.rd(a)
        return Prim("ma", shape=sh, f=f, mask=I.facts(m))
    return g


def ma_filled(I, args, kw, node):
    v = args[0]
    if not isma(v):
        return v
    sh, f, m = v.data["shape"], v.data["f"], v.data["mask"]
    fill = I.facts(args[1]) if len(args) > 1 else I.facts(kw["fill_value"]) if "fill_value" in kw else F(sym("fill"))
    _, g, _ = fx.elementwise("where", [m, fill, f], [sh, (), sh])
    return mkfresh(I, node, sh, g.w(dt=f.dt), "filled")


def ma_compressed(I, args, kw, node):
    v = args[0]
    if not isma(v):
        return flat(I, v) if isinstance(v, Arr) else v
    sh, f, m = v.data["shape"], v.data["f"], v.data["mask"]
    keep = fx.elementwise("not", [m], [sh])[1].w(dt="b")
    a = Arr(I.alloc(node, ArrC(sh, f), "cmp"))
    return index(I, a, [("m", sh, keep)], node)


def ma_count(I, args, kw, node):
    v = args[0]
    sh, f = I.rd(v)
    if isma(v):
        keep = fx.elementwise("not", [v.data["mask"]], [sh])[1].w(dt="b")
        a = I.arr(node, sh, keep, "cnt")
        return FUNCS["numpy.count_nonzero"](I, [a] + list(args[1:]), kw, node)
    return attr(I, v, "size", node)


def ma_getdata(I, args, kw, node):
    v = args[0]
    return attr(I, v, "data", node) if isma(v) else v


# linear algebra -----------------------------------------------------------
def mixf(I, name, vs, node, dt="f"):
    f = None
    for v in vs:
        g = I.facts(v)
        f = g if f is None else I._mix(f, g).w(term=f.term)
    if f is None:
        return F(sym(name), TOP, dt)
    bad = f.bad
    for v in vs:
        bad |= missbad(I, I.facts(v), node, name)
    return F(mk("la", const(name), *[I.facts(v).term for v in vs]), TOP, dt, f.deps, "MIX" if f.pl is not None else None, None, bad, f.trial)


def la(name, shapef):
    def g(I, args, kw, node):
        vs = [tonum(I, a, node) for a in args]
        for k in ("overwrite_a", "overwrite_b"):
            if boolarg(kw.get(k), False) is not False and isinstance(vs[0], Arr):
                I.touch(vs[0], node, f"{name}({k})")
        f = mixf(I, name, vs + [x for k, x in kw.items() if isinstance(x, (Sc, Arr))], node)
        shs = [I.rd(v)[0] for v in vs]
        out = shapef(shs)
        if isinstance(out, list):
            res = []
            for i, s in enumerate(out):
                fi = f.w(term=mk("part", f.term, const(i)))
                res.append(mkfresh(I, node, s, fi, "la%d" % i) if s is not None else Arr(I.alloc(node, ArrC(None, fi), "la%d" % i)))
            return Tup(res)
        if out is None:
            return Arr(I.alloc(node, ArrC(None, f), "la"))
        return mkfresh(I, node, out, f, "la")
    return g


def s_same(shs):
    return shs[0]


def s_T(shs):
    return tuple(reversed(shs[0])) if shs[0] is not None else None


def s_scalar(shs):
    return ()


def s_eigh(shs):
    s = shs[0]
    return [(s[0],), s] if s is not None and len(s) == 2 else [None, None]


def s_eig1(shs):
    s = shs[0]
    return (s[0],) if s is not None and len(s) == 2 else None


def s_svd(shs):
    s = shs[0]
    if s is None or len(s) != 2:
        return [None, None, None]
    return [(s[0], s[0]), (mk("min2", s[0], s[1]),), (s[1], s[1])]


def s_qr(shs):
    s = shs[0]
    return [s, (s[1], s[1])] if s is not None and len(s) == 2 else [None, None]


def s_solve(shs):
    return shs[1] if len(shs) > 1 else None


def s_ldl(shs):
    s = shs[0]
    return [s, s, (s[0],)] if s is not None and len(s) == 2 else [None, None, None]


def la_svd(I, args, kw, node):
    v = tonum(I, A(args, kw, 0, "a"), node)
    f = mixf(I, "svd", [v], node)
    sh, _ = I.rd(v)
    cu = boolarg(A(args, kw, 2, "compute_uv"), True)
    fm = boolarg(A(args, kw, 1, "full_matrices"), True)
    if sh is None or len(sh) != 2:
        outs = [None, None, None]
    else:
        k = sh[0] if same(sh[0], sh[1]) else mk("min2", sh[0], sh[1])
        outs = [(sh[0], sh[0] if fm else k), (k,), (sh[1] if fm else k, sh[1])]
    def part(i):
        fi = f.w(term=mk("part", f.term, const(i)), itv=(0, INF) if i == 1 else TOP)
        return mkfresh(I, node, outs[i], fi, "la%d" % i) if outs[i] is not None else Arr(I.alloc(node, ArrC(None, fi), "la%d" % i))
    if cu is False:
        return part(1)
    return Tup([part(0), part(1), part(2)])


def np_ix_(I, args, kw, node):
    n = len(args)
    outs = []
    for i, a in enumerate(args):
        sh, f = I.rd(tonum(I, a, node))
        d = sh[0] if sh else ONE
        if f.dt == "b":
            d = mk("seldim", d, f.term)
            f = F(mk("nonzero", f.term, ZERO), (0, INF), "i", f.deps, f.pl)
        comps = tuple(("n",) if j != i else ("s", None, None, None) for j in range(n))
        s2, f2, _, _ = step_ix((d,), f, comps)
        outs.append(I.arr(node, s2, f2, "ix%d" % i))
    return Tup(outs)


def np_pad(I, args, kw, node):
    v = args[0]
    f = I._mix(I.facts(v), I.facts(kw["constant_values"]) if "constant_values" in kw else cF(0))
    return Arr(I.alloc(node, ArrC(None, f.w(term=mk("pad", f.term), dt=I.facts(v).dt)), "pad"))


def np_ndim(I, args, kw, node):
    sh, f = I.rd(args[0])
    if isinstance(args[0], U):
        rs = None
        for x in args[0].vals:
            rs = I.joinV(rs, np_ndim(I, [x], kw, node))
        return rs
    return Sc(cF(len(sh))) if sh is not None else Sc(F(mk("ndimof", f.term), (0, INF), "i", f.deps))


def np_size(I, args, kw, node):
    v = args[0]
    ax = axes_arg(I, A(args, kw, 1, "axis"))
    if isinstance(v, U):
        rs = None
        for x in v.vals:
            rs = I.joinV(rs, np_size(I, [x] + list(args[1:]), kw, node))
        return rs
    sh, f = I.rd(v)
    if sh is None:
        return Sc(F(mk("sizeof", f.term), (0, INF), "i", EMPTY, "MIX" if f.pl is not None else None))
    if ax not in (None, "unknown"):
        return dimval(I, sh[ax[0]])
    d = total(sh)
    return Sc(F(d, dim_itv(d), "i", tdeps(d), "MIX" if any(is_pdim(I, x) for x in sh) else None))


def np_shape(I, args, kw, node):
    return attr(I, tonum(I, args[0], node), "shape", node)


def np_ndarray(I, args, kw, node):
    shp = A(args, kw, 0, "shape")
    dt = dt_code(I, A(args, kw, 1, "dtype"))
    buf = A(args, kw, 2, "buffer")
    sh = shape_of(I, shp)
    if isinstance(buf, Prim) and buf.kind == "shmbuf":
        name = buf.data["name"]
        arrloc = ("h", "shm", name)
        I.ev("resuse", node, key=("buf", name), name=name, how="array over the shared buffer", shape=sh, dt=dt)
        if not isinstance(I.heap.get(arrloc), ArrC):
            I.heap[arrloc] = ArrC(sh, F(sym("shmcontent", str(name)), TOP, dt or "f"))
        return Arr(arrloc)
    return mkfresh(I, node, sh, F(sym("uninit", node._id, I.ctx), TOP, dt or "f", I.facts(shp).deps), "nd")


def np_frombuffer(I, args, kw, node):
    return np_ndarray(I, [Tup([Sc(F(sym("buflen")))])], {"dtype": A(args, kw, 1, "dtype"), "buffer": args[0]}, node)


def np_allclose(I, args, kw, node):
    a, b = tonum(I, args[0], node), tonum(I, args[1], node)
    fa, fb = I.facts(a), I.facts(b)
    t = mk("allclose", *sorted((fa.term, fb.term), key=lambda q: q.id))
    itv = (0, 1)
    r = F(t, itv, "b", fa.deps | fb.deps, "MIX" if fa.pl or fb.pl else None, None, fa.bad | fb.bad, fa.trial | fb.trial)
    s = prop_sym(fa, fb)
    if s is not None:
        r = r.w(itv=(int(s),) * 2, term=const(s))
    return Sc(r)


def prop_sym(fa, fb):
    """x compared with the negation/reversal of itself for (a)symmetric tables"""
    return None


def np_isclose(I, args, kw, node):
    a, b = tonum(I, args[0], node), tonum(I, args[1], node)
    return fn(I, "isclose", [a, b], node, (0, 1), "b")


def np_array_equal(I, args, kw, node):
    fa, fb = I.facts(args[0]), I.facts(args[1])
    return Sc(F(mk("array_equal", *sorted((fa.term, fb.term), key=lambda q: q.id)), (0, 1), "b", fa.deps | fb.deps,
                "MIX" if fa.pl or fb.pl else None, None, fa.bad | fb.bad, fa.trial | fb.trial))


def np_interp(I, args, kw, node):
    return fn(I, "interp", [tonum(I, a, node) for a in args], node) if False else _interp(I, args, kw, node)


def _interp(I, args, kw, node):
    x = tonum(I, args[0], node)
    sh, f = I.rd(x)
    if len(args) > 2:
        I.ev("interpcall", node, key=tuple(I.facts(a).term for a in args), x=I.facts(args[1]), y=I.facts(args[2]), at=f, table=None)
    g = f
    for a in args[1:]:
        g = I._mix(g, I.facts(a)).w(miss=f.miss)
    fy = I.facts(args[2]) if len(args) > 2 else F(sym("y"))
    pl = fx.join_pl([f.pl, "MIX" if any(I.facts(a).pl for a in args[1:]) else None])
    return mkfresh(I, node, sh, F(mk("interp", *[I.facts(a).term for a in args]), fy.itv, "f", g.deps, pl,
                                  {s: (mk("interp", t, *[I.facts(a).term for a in args[1:]]), fy.itv) for s, (t, ti) in f.miss.items()}, g.bad, g.trial), "interp")


def np_trapz(I, args, kw, node):
    y = tonum(I, args[0], node)
    sh, f = I.rd(y)
    ex = list(args[1:]) + [v for k, v in kw.items() if k != "axis"]
    ax = axes_arg(I, kw.get("axis")) if "axis" in kw else (-1,)
    s2, g = fx.reduce_("sum", sh, f, ax if sh is not None else None, site=where(I, node))
    for e in ex:
        fe = I.facts(e)
        g = g.w(deps=g.deps | fe.deps)
    return mkfresh(I, node, s2, g.w(term=mk("trapz", f.term, *[I.facts(e).term for e in ex])), "trapz")


def np_bincount(I, args, kw, node):
    f = I.facts(args[0])
    n = kw.get("minlength")
    if f.dt.startswith("inh"):
        I.ev("index", node, key=f.term, dt=f.dt, f=f)
    return I.arr(node, (mk("binlen", f.term, I.facts(n).term if n is not None else ZERO),),
                 F(mk("bincount", f.term), (0, INF), "i", f.deps, "MIX" if f.pl is not None else None, None, f.bad | missbad(I, f, node, "bincount"), f.trial), "bc")


def np_histogram2d(I, args, kw, node):
    f = I._mix(I.facts(args[0]), I.facts(args[1]))
    bad = f.bad | missbad(I, I.facts(args[0]), node, "histogram") | missbad(I, I.facts(args[1]), node, "histogram")
    rest = list(args[2:]) + list(kw.values())
    for r in rest:
        f = I._mix(f, I.facts(r))
    h = F(mk("hist2d", *[I.facts(a).term for a in list(args) + rest]), (0, INF), "f", f.deps, "MIX" if f.pl is not None else None, None, bad, f.trial)
    return Tup([Arr(I.alloc(node, ArrC((sym("hb", node._id), sym("hb2", node._id)), h), "hist")), Unk(f), Unk(f)])


def np_apply_over(I, args, kw, node):
    return Unk(I._unkf("apply", list(args), node))


def np_fft(name):
    def g(I, args, kw, node):
        v = tonum(I, args[0], node)
        sh, f = I.rd(v)
        n = A(args, kw, 1, "n")
        if n is not None and not isnone(n):
            sh = (I.facts(n).term,)
        return I.arr(node, sh, I._mix(f, I.facts(n) if n is not None else f).w(term=mk(name, f.term, *( [I.facts(n).term] if n is not None else [])), dt="c"), name)
    return g


def np_errstate(I, args, kw, node):
    return Prim("errstate")


def np_iinfo(I, args, kw, node):
    return Unk(F(sym("finfo", str(node._id))))


def np_select(I, args, kw, node):
    """select(conditions, choices, default): the first condition that holds decides, element by element"""
    cs, vs = (I.items_of(A(args, kw, i, n)) for i, n in ((0, "condlist"), (1, "choicelist")))
    if cs is None or vs is None or len(cs) != len(vs):
        f = I._unkf("select", list(args) + list(kw.values()), node)
        return Arr(I.alloc(node, ArrC(None, f), "sel"))
    r = A(args, kw, 2, "default", Sc(cF(0)))
    for c, v in zip(reversed(cs), reversed(vs)):
        r = ew(I, "where", [tonum(I, x, node) for x in (c, v, r)], node)
    return r


def np_choose(I, args, kw, node):
    """choose(index, choices): element by element the choice the index names"""
    vs = I.items_of(args[1]) if len(args) > 1 else None
    if not vs:
        f = I._unkf("choose", list(args) + list(kw.values()), node)
        return Arr(I.alloc(node, ArrC(I.rd(args[0])[0], f), "sel"))
    i = tonum(I, args[0], node)
    r = vs[-1]
    for k in range(len(vs) - 2, -1, -1):
        r = ew(I, "where", [ew(I, "eq", [i, Sc(cF(k))], node), tonum(I, vs[k], node), tonum(I, r, node)], node)
    return r


def np_vander(I, args, kw, node):
    f = I._unkf("vander", list(args), node)
    return Arr(I.alloc(node, ArrC(None, f), "vd"))


def np_random_global(name):
    def g(I, args, kw, node):
        I.ev("rng", node, key=name, what=f"numpy.random.{name} uses the global generator", kind_="global")
        if name in ("seed", "set_state"):
            if I.phase != "import":
                I.ev("gwrite", node, key=name, what=f"the global numpy generator (numpy.random.{name})")
            return Sc(cF(None))
        f = I._unkf("rand", list(args) + list(kw.values()), node)
        if name == "shuffle" and args and isinstance(args[0], Arr):
            inplace("shuffle")(I, args, kw, node)
        return Unk(f.w(deps=f.deps | {"globalrng"}))
    return g


FUNCS = {}


def _reg():
    R = FUNCS
    n = "numpy."
    R[n + "zeros"], R[n + "ones"], R[n + "empty"] = np_filled(0.0), np_filled(1.0), np_filled(None)
    R[n + "full"] = np_full
    R[n + "zeros_like"], R[n + "ones_like"], R[n + "empty_like"], R[n + "full_like"] = np_like(0), np_like(1), np_like(None), np_like("full")
    R[n + "array"] = np_array
    for k in ("asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "require"):
        R[n + k] = np_asarray
    R[n + "copy"] = np_copy
    R[n + "ravel"] = alias(st_ravel)
    R[n + "squeeze"] = alias(st_squeeze)
    R[n + "reshape"] = alias(st_reshape)
    R[n + "transpose"] = alias(st_T)
    R[n + "swapaxes"] = alias(st_swap)
    R[n + "moveaxis"] = alias(st_moveaxis)
    R[n + "expand_dims"] = alias(st_expand)
    R[n + "flip"], R[n + "flipud"], R[n + "fliplr"] = alias(st_flip("flip")), alias(st_flip("ud")), alias(st_flip("lr"))
    for k in (1, 2, 3):
        R[n + f"atleast_{k}d"] = alias(st_atleast(k))
    for k in ("sum", "prod", "mean", "var", "std", "median", "any", "all", "count_nonzero", "argmax", "argmin", "ptp",
              "nansum", "nanmean", "nanvar", "nanstd", "nanmin", "nanmax", "nanprod", "nanmedian"):
        R[n + k] = reducer(k)
    R[n + "product"] = R[n + "prod"]
    R[n + "max"] = R[n + "amax"] = reducer("max")
    R[n + "min"] = R[n + "amin"] = reducer("min")
    R[n + "average"] = np_average
    R["scipy.special.logsumexp"] = reducer("logsumexp")
    R[n + "percentile"] = R[n + "nanpercentile"] = np_percentile
    R[n + "quantile"] = R[n + "nanquantile"] = np_quantile
    R[n + "cumsum"], R[n + "cumprod"] = cumulative("cumsum"), cumulative("cumprod")
    for k, o in (("exp", "exp"), ("log", "log"), ("log1p", "log1p"), ("sqrt", "sqrt"), ("square", "square"), ("abs", "abs"),
                 ("absolute", "abs"), ("fabs", "abs"), ("sin", "sin"), ("cos", "cos"), ("cosh", "cosh"), ("tanh", "tanh"), ("arccos", "arccos"),
                 ("sign", "sign"), ("negative", "neg"), ("isnan", "isnan"), ("isfinite", "isfinite"), ("isinf", "isinf"),
                 ("logical_not", "not"), ("invert", "invert"), ("bitwise_not", "invert"), ("floor", "floor"), ("ceil", "ceil"), ("rint", "rint"), ("trunc", "trunc"),
                 ("real", "real"), ("positive", "pos"), ("expm1", "expm1"), ("arctan", "arctan"), ("log2", "log2"), ("log10", "log10")):
        R[n + k] = unary(o)
    R[n + "conj"] = R[n + "conjugate"] = unary("real")
    for k in ("sinh", "tan", "arcsin", "deg2rad", "rad2deg", "radians", "degrees", "cbrt", "reciprocal", "exp2", "nextafter", "arctan2", "hypot", "logaddexp", "fix", "signbit", "imag", "angle", "sinc", "i0"):
        R[n + k] = fnum(k)
    R[n + "round"] = R[n + "around"] = R[n + "round_"] = unary1("round")
    for k, o in (("add", "add"), ("subtract", "sub"), ("multiply", "mul"), ("divide", "div"), ("true_divide", "div"), ("floor_divide", "floordiv"),
                 ("mod", "mod"), ("remainder", "mod"), ("power", "pow"), ("float_power", "pow"), ("maximum", "max2"), ("minimum", "min2"), ("fmax", "max2"),
                 ("fmin", "min2"), ("logical_and", "and"), ("logical_or", "or"), ("logical_xor", "bitxor"), ("bitwise_and", "bitand"),
                 ("bitwise_or", "bitor"), ("equal", "eq"), ("not_equal", "ne"), ("less", "lt"), ("less_equal", "le"), ("greater", "gt"),
                 ("greater_equal", "ge")):
        R[n + k] = binary(o)
    R[n + "where"] = np_where
    R[n + "nonzero"] = R[n + "flatnonzero"] = R[n + "argwhere"] = lambda I, a, k, nd: np_where(I, a[:1], {}, nd)
    R[n + "clip"] = np_clip
    R[n + "arange"], R[n + "linspace"] = np_arange, np_linspace
    R[n + "eye"] = R[n + "identity"] = np_eye
    R[n + "diag"] = R[n + "diagonal"] = np_diag
    R[n + "diagflat"] = np_diag
    R[n + "outer"] = np_outer
    R[n + "dot"] = R[n + "matmul"] = R[n + "inner"] = R[n + "vdot"] = np_dot
    R[n + "einsum"] = np_einsum
    R[n + "unique"] = np_unique
    R[n + "concatenate"] = np_concat(0)
    R[n + "append"] = np_append
    R[n + "insert"] = np_insert
    R[n + "stack"] = np_stack
    R[n + "vstack"] = R[n + "row_stack"] = vh("v")
    R[n + "hstack"] = vh("h")
    R[n + "column_stack"] = vh("c")
    R[n + "repeat"], R[n + "tile"] = np_repeat, np_tile
    R[n + "broadcast_to"] = np_broadcast_to
    R[n + "sort"] = reorder("sort")
    R[n + "argsort"] = reorder("argsort")
    R[n + "roll"] = reorder("roll")
    R[n + "diff"] = np_diff
    R[n + "delete"] = np_delete
    R[n + "take"] = np_take
    R[n + "take_along_axis"] = np_take_along
    R[n + "isin"] = R[n + "in1d"] = np_isin
    R[n + "searchsorted"], R[n + "digitize"] = np_searchsorted, np_digitize
    R[n + "meshgrid"] = np_meshgrid
    R[n + "tril_indices"], R[n + "triu_indices"], R[n + "diag_indices"] = np_tri_idx("tril"), np_tri_idx("triu"), np_tri_idx("diag")
    R[n + "tril_indices_from"], R[n + "triu_indices_from"] = np_tri_idx("tril"), np_tri_idx("triu")
    R[n + "diag_indices_from"] = np_tri_idx("diag")
    R[n + "tril"], R[n + "triu"] = np_tri("tril"), np_tri("triu")
    R[n + "array_split"] = R[n + "split"] = np_array_split
    R[n + "cov"], R[n + "corrcoef"] = np_cov("cov"), np_cov("corrcoef")
    R[n + "convolve"] = np_convolve
    R[n + "apply_along_axis"] = np_apply_along
    R[n + "vectorize"] = np_vectorize
    R[n + "copyto"] = np_copyto
    for k in ("fill_diagonal", "put", "place", "putmask", "put_along_axis"):
        R[n + k] = inplace(k)
    for k in ("add.at", "subtract.at", "multiply.at"):
        R[n + k] = inplace(k)
    for k, o in (("add", "sum"), ("multiply", "prod"), ("logical_and", "all"), ("logical_or", "any"), ("maximum", "max"), ("minimum", "min")):
        R[n + k + ".reduce"] = redufunc(o)
    R[n + "multiply.outer"] = np_outer
    R[n + "nan_to_num"] = np_nan_to_num
    for k in ("ma.masked_array", "ma.array", "ma.MaskedArray"):
        R[n + k] = np_masked
    R[n + "ma.masked_where"] = lambda I, a, k, nd: np_masked(I, [a[1], a[0]], {}, nd)
    R[n + "ma.masked_equal"] = masked_cmp("eq")
    R[n + "ma.masked_values"] = masked_cmp("eq")
    R[n + "ma.masked_not_equal"] = masked_cmp("ne")
    R[n + "ma.masked_less"] = masked_cmp("lt")
    R[n + "ma.filled"] = ma_filled
    R[n + "ma.getdata"] = ma_getdata
    R[n + "ma.getmaskarray"] = R[n + "ma.getmask"] = lambda I, a, k, nd: attr(I, a[0], "mask", nd) if isma(a[0]) else I.arr(nd, I.rd(a[0])[0], F(tm.FALSE, (0, 0), "b"), "gm")
    R[n + "ma.count"] = ma_count
    for k in ("sum", "mean", "var", "std", "min", "max", "prod", "any", "all", "median"):
        R[n + "ma." + k] = reducer(k)
    for L in (n + "linalg.", "scipy.linalg."):
        R[L + "svd"] = la_svd
        R[L + "inv"] = la("inv", s_same)
        R[L + "pinv"] = R[L + "pinvh"] = la("pinv", s_T)
        R[L + "cholesky"] = la("cholesky", s_same)
        R[L + "det"] = la("det", s_scalar)
        R[L + "slogdet"] = la("slogdet", lambda s: [(), ()])
        R[L + "cond"] = la("cond", s_scalar)
        R[L + "matrix_rank"] = la("matrix_rank", s_scalar)
        R[L + "eigh"] = R[L + "eig"] = la("eigh", s_eigh)
        R[L + "eigvalsh"] = R[L + "eigvals"] = la("eigvalsh", s_eig1)
        R[L + "qr"] = la("qr", s_qr)
        R[L + "solve"] = la("solve", s_solve)
        R[L + "lstsq"] = la("lstsq", lambda s: [None, None, None, None])
        R[L + "ldl"] = la("ldl", s_ldl)
        R[L + "norm"] = reducer("norm")
        R[L + "expm"] = la("expm", s_same)
    R[n + "trace"] = la("trace", s_scalar)
    R[n + "ix_"] = np_ix_
    R[n + "pad"] = np_pad
    R[n + "ndim"], R[n + "size"], R[n + "shape"] = np_ndim, np_size, np_shape
    R[n + "ndarray"] = np_ndarray
    R[n + "frombuffer"] = np_frombuffer
    R[n + "allclose"], R[n + "isclose"], R[n + "array_equal"] = np_allclose, np_isclose, np_array_equal
    R[n + "interp"] = _interp
    R[n + "trapz"] = R[n + "trapezoid"] = R["scipy.integrate.simpson"] = R["scipy.integrate.trapezoid"] = R["scipy.integrate.simps"] = np_trapz
    R[n + "bincount"] = np_bincount
    R[n + "histogram2d"] = np_histogram2d
    for k in ("fft.fft", "fft.ifft", "fft.rfft", "fft.irfft", "fft.fftshift", "fft.ifftshift"):
        R[n + k] = np_fft(k)
    R[n + "errstate"] = np_errstate
    R[n + "iinfo"] = R[n + "finfo"] = np_iinfo
    R[n + "select"], R[n + "choose"] = np_select, np_choose
    for k in ("random", "rand", "randn", "randint", "uniform", "normal", "choice", "permutation", "shuffle", "seed", "set_state", "standard_normal",
              "random_sample", "binomial", "exponential", "poisson", "beta", "gamma", "multivariate_normal", "random_integers", "ranf", "sample", "bytes", "get_state"):
        R[n + "random." + k] = np_random_global(k)
    for k, i in (("expit", (0, 1)), ("erfinv", TOP), ("erf", (-1, 1)), ("logit", TOP), ("ndtr", (0, 1)), ("ndtri", TOP), ("gammaln", TOP), ("gamma", TOP), ("log_expit", (-INF, 0)), ("xlogy", TOP), ("comb", (0, INF)), ("factorial", (1, INF))):
        R["scipy.special." + k] = fnum(k, i) if k != "expit" else unary("expit")
    R[n + "dtype"] = lambda I, a, k, nd: Prim("dtype", code=dt_code(I, a[0]) or "?", src=I.facts(a[0]).term)
    R[n + "result_type"] = R[n + "promote_types"] = np_result_type
    R[n + "isscalar"] = lambda I, a, k, nd: Sc(cF(isinstance(a[0], Sc)))
    R[n + "issubdtype"] = lambda I, a, k, nd: Sc(F(mk("issubdtype", *[I.facts(x).term for x in a]), (0, 1), "b"))
    R[n + "can_cast"] = R[n + "issubdtype"]
    R[n + "shares_memory"] = R[n + "may_share_memory"] = R[n + "issubdtype"]
    R[n + "seterr"] = R[n + "seterrcall"] = R[n + "set_printoptions"] = R[n + "setbufsize"] = g_state
    for k in ("float64", "float32", "int64", "int32", "int8", "uint8", "bool_", "intp", "int16", "float128", "longdouble", "double", "int_"):
        R[n + k] = castto(k)


def g_state(I, args, kw, node):
    if I.phase != "import":
        I.ev("gwrite", node, key="numpy state", what="a global numpy setting")
    return Unk(F(sym("gstate")))


def castto(k):
    def g(I, args, kw, node):
        if not args:
            return Sc(cF(0))
        sh, f = I.rd(args[0])
        code = dt_code(I, Ext("numpy." + k))
        note_cast(I, node, f, code)
        return mkfresh(I, node, sh, f.w(dt=code), "cast")
    return g


def np_result_type(I, args, kw, node):
    codes = []
    for a in args:
        if isinstance(a, (Arr, Sc)):
            codes.append(I.facts(a).dt)
        else:
            codes.append(dt_code(I, a) or "?")
    c = fx.promote(codes, "add") if codes else "?"
    return Prim("dtype", code=c, src=mk("result_type", *[I.facts(a).term for a in args]))


def unary1(op):
    def g(I, args, kw, node):
        return finish(I, ew(I, op, [tonum(I, args[0], node)], node), [], kw, node, 1)
    return g


def redufunc(o):
    base = reducer(o)
    def g(I, args, kw, node):
        a = list(args)
        if len(a) < 2 and "axis" not in kw:
            kw = dict(kw)
            kw["axis"] = Sc(cF(0))
        return base(I, a, kw, node)
    return g


def np_append(I, args, kw, node):
    a, b = args[0], args[1]
    axv = A(args, kw, 2, "axis")
    if axv is None or isnone(axv):
        a2, b2 = tonum(I, a, node), tonum(I, b, node)
        fl = alias(st_ravel)
        x = fl(I, [a2], {}, node) if isinstance(a2, Arr) else I.arr(node, (ONE,), I.facts(a2), "ap1")
        y = fl(I, [b2], {}, node) if isinstance(b2, Arr) else I.arr(node, (ONE,), I.facts(b2), "ap2")
        return concat(I, None, [x, y], (0,), node)
    return concat(I, None, [a, b], axes_arg(I, axv), node)


def np_insert(I, args, kw, node):
    a, o, v = args[0], args[1], args[2]
    sh, f = I.rd(a)
    of, vf = I.facts(o), I.facts(v)
    axv = A(args, kw, 3, "axis")
    ax = axes_arg(I, axv)
    g = fx.joinF(f, vf.w(pl=vf.pl if vf.pl is None else "MIX", miss={}), mk("insert", f.term, of.term, vf.term))
    g = g.w(deps=g.deps | of.deps, dt=f.dt)
    if sh is None or ax == "unknown":
        return Arr(I.alloc(node, ArrC(None, g), "ins"))
    k = 0 if ax is None else ax[0] % len(sh)
    ns = tuple(mk("add", d, ONE) if i == k else d for i, d in enumerate(sh)) if ax is not None or len(sh) == 1 else (mk("inslen", f.term),)
    if g.pl == ("ax", k):
        g = g.w(pl="MIX")
    return I.arr(node, ns, g.w(miss={(q[0], q[1] if not sel_on(q[1], k) else "*", q[2] if not sel_on(q[2], k) else "*"): w for q, w in g.miss.items()}), "ins")


_reg()


def with_out(fn):
    """a function that puts its result into the array given as out="""
    def g(I, args, kw, node):
        out = kw.get("out")
        if isinstance(out, Tup) and out.items:
            out = out.items[0]
        if not isinstance(out, Arr):
            return fn(I, args, kw, node)
        r = fn(I, args, {k: v for k, v in kw.items() if k != "out"}, node)
        if I.heap is not None:
            store_all(I, out, tonum(I, r, node), node)
        return out
    return g


for _k in ("cumsum", "cumprod", "percentile", "quantile", "nanpercentile", "nanquantile", "dot", "matmul", "einsum", "take", "round", "around",
           "outer", "concatenate", "stack", "choose", "compress", "tensordot"):
    if "numpy." + _k in FUNCS:
        FUNCS["numpy." + _k] = with_out(FUNCS["numpy." + _k])

# methods of arrays / numbers -> the function taking the array first
METHODS = {}
for _k in ("sum", "prod", "mean", "var", "std", "any", "all", "argmax", "argmin", "max", "min", "ptp", "cumsum", "cumprod", "dot",
           "ravel", "squeeze", "reshape", "transpose", "swapaxes", "copy", "repeat", "take", "clip", "diagonal", "argsort", "searchsorted",
           "round", "nonzero", "conj", "conjugate", "trace"):
    METHODS[_k] = FUNCS["numpy." + _k]
METHODS["flatten"] = lambda I, a, k, nd: np_copy(I, [flat(I, a[0]) if isinstance(a[0], Arr) else a[0]], {}, nd)
METHODS["astype"] = m_astype
METHODS["view"] = lambda I, a, k, nd: a[0]
METHODS["fill"] = m_fill
METHODS["sort"] = inplace("sort")
METHODS["partition"] = inplace("partition")
METHODS["put"] = inplace("put")
METHODS["resize"] = inplace("resize")
METHODS["itemset"] = inplace("itemset")
METHODS["byteswap"] = METHODS["copy"]
METHODS["setflags"] = lambda I, a, k, nd: (I.touch(a[0], nd, "setflags") if isinstance(a[0], Arr) else None, Sc(cF(None)))[1]
METHODS["filled"] = ma_filled
METHODS["compressed"] = ma_compressed
METHODS["count"] = ma_count


def m_item(I, args, kw, node):
    sh, f = I.rd(args[0])
    if len(args) > 1:
        r = index(I, args[0], [("i", a) for a in args[1:] if isinstance(a, Sc)], node)
        return r
    pl = f.pl
    return Sc(f.w(term=f.term, pl=pl))


def m_tolist(I, args, kw, node):
    v = args[0]
    sh, f = I.rd(v)
    if sh == ():
        return Sc(f)
    its = I.items_of(v)
    if its is not None:
        return I.list_(node, its)
    if sh is None:
        return Unk(f)
    e = lambda i: I.item_at(v, i, node)
    idx = Sc(F(sym("k"), (0, INF), "i"))
    return I.list_(node, None, e(idx), sh[0])


METHODS["item"] = m_item
METHODS["tolist"] = m_tolist
METHODS["tobytes"] = METHODS["tostring"] = lambda I, a, k, nd: Sc(F(mk("bytes", I.facts(a[0]).term), TOP, "U", I.facts(a[0]).deps, I.facts(a[0]).pl))
METHODS["__len__"] = lambda I, a, k, nd: dimval(I, I.rd(a[0])[0][0]) if I.rd(a[0])[0] else Unk(F(sym("len")))
