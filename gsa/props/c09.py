"""C09: serial and parallel polychoric matrices."""
from .. import entries as E
from .. import terms as tm
from ..terms import mk, const, sym
from ..values import *   # noqa
from . import common as cm

ASSUMPTIONS = ["the coefficient of two rows does not depend on which of them is called first",
               "a pool's map returns results in the order of its inputs, and array_split cuts all elements into consecutive pieces"]
DATA = sym("in", "ordinal_data")
N = E.ITEMS
START, STOP = sym("arg", "start_val"), sym("arg", "stop_val")
FREE = sym("c09", "free")
COLON = ":"


def check(ctx):
    val = {}
    for n, sc, mode in (("girth.common.polychoric_correlation", {}, "parallel"), ("girth.common.polychoric_correlation", {"serial": True}, "one processor"),
                        ("girth.common.polychoric_correlation_serial", {}, "serial")):
        r = ctx.run(n, sc)
        cm.must_return(ctx, r)
        val[mode] = matrix(ctx, r, mode)
        shared(ctx, r)
        for e in r.I.evs("unordered"):
            ctx.find("order", e.node, "results are taken in the order of completion, not of the pairs", ctx=e.ctx, run=r)
    base = val.get("serial")
    for mode, v in val.items():
        if v is None or base is None:
            continue
        ctx.count("serial/parallel value comparisons")
        if not same_value(base, v):
            ctx.find("value", v[3], f"the {mode} coefficient of a pair is not the one computed serially", ctx=v[4], run=v[5], key=mode)
    ctx.need("pair values", 3)
    return ("The matrix construction is interpreted for the serial and the parallel call. For every store into the matrix the two indices are resolved to the pair they denote (through chunks of the pair list and the worker's result position), "
            "and compared with the two data rows the stored coefficient was computed from; both (r, c) and (c, r) must be stored, all pairs below (or above) the diagonal must be enumerated once over the full size and all pieces run, the diagonal must be one, "
            "the category tables must span the caller's first to last category, and the coefficient expressions of both modes must be identical once the pair is renamed. Views of the shared copy must agree in shape and type.")


def resolve(t, free):
    """an index term as (array, coordinates), with `free` standing for a full slice"""
    free = list(free)
    if t.op == "T" and len(t.args) > 1 and str(t.args[1]) in ("(1, 0)", "'(1, 0)'"):
        co = (free + [COLON, COLON])[:2]
        return resolve(t.args[0], (co[1], co[0]))
    if t.op == "ix" and any(isslice(a) for a in t.args[1:]):
        return (t, tuple(free))
    if t.op == "ix":
        co = []
        for a in t.args[1:]:
            if iscolon(a):
                co.append(free.pop(0) if free else COLON)
            else:
                co.append(a)
        return resolve(t.args[0], co + free)
    if t.op in ("cast", "int", "asarray", "copy", "lat") and isinstance(t.args[0], tm.T):
        return resolve(t.args[0], free)
    return (t, tuple(free))


def iscolon(a):
    return a == ":" or isinstance(a, tm.T) and a.op == "const" and a.args[0] == ":"


def isslice(a):
    return isinstance(a, tm.T) and (a.op in ("slice", "slc") or a.op == "const" and "slice(" in str(a.args[0])) or isinstance(a, str) and "slice(" in a or isinstance(a, tuple) and a[:1] == ("slice",)


def key(x):
    b, co = x
    while co and co[-1] == COLON:
        co = co[:-1]
    bk = b.id
    if b.op == "chunk" and len(b.args) > 2 and b.args[2].op == "sym" and b.args[2].args[:1] in (("it",), ("elt",)):
        # which piece: any plain counter (reordered lists of pieces or results are looked for separately)
        bk = ("chunk", b.args[0].id, b.args[1].id)
    return (bk,) + tuple(c if isinstance(c, str) else c.id for c in co)


def rowsof(t):
    """[(index term, resolved)] of the data rows a value was computed from"""
    out, other, seen, todo = [], [], set(), [t]
    while todo:
        u = todo.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        if u is DATA:
            other.append(u)
            continue
        if u.op == "ix" and u.args[0] is DATA:
            out.append((u, resolve(u.args[1], ()) if len(u.args) > 1 and isinstance(u.args[1], tm.T) and not iscolon(u.args[1]) else None))
            continue
        todo += [a for a in u.args if isinstance(a, tm.T)]
    return out, other


def longlist(I, v):
    """a list or iterator whose length is not known from the source: pairs, pieces or results"""
    if isinstance(v, It):
        return v.items is None
    if isinstance(v, Ref):
        c = I.heap.get(v.loc) if I.heap else None
        return isinstance(c, ListC) and c.items is None
    return False


def pairlist(I, v):
    """a list of pairs of numbers: visiting it in another order is harmless"""
    e = None
    if isinstance(v, Ref):
        c = I.heap.get(v.loc) if I.heap else None
        e = c.elem if isinstance(c, ListC) else None
    elif isinstance(v, It) and v.elem is not None:
        e = v.elem(Sc(F(sym("c09", "probe"), (0, INF), "i")))
    return isinstance(e, Tup)


def whole(x, pos):
    """the row of the pair list that position pos of a piece becomes when the pieces are joined end to end"""
    if x is None or pos is None:
        return x
    b, co = x
    if b.op == "chunk" and len(co) == 2 and co[0] is pos:
        src = b.args[0]
        i = tm.num_const(co[1])
        if src.op == "pack" and i is not None and 0 <= i < len(src.args):
            y = src.args[int(i)]
            # an element of the list: the loop variable of the enumeration becomes the free position
            while y.op == "ix" and len(y.args) == 2 and not isslice(y.args[1]):
                y = y.args[0]
                break
            return resolve(y, (FREE,))
        return resolve(src, (FREE, co[1]))
    return x


def compof(c):
    if c[0] == "i":
        return c[1].f.term, False
    if c[0] == "a":
        return c[2].term, True
    return None, False


def matrix(ctx, r, mode):
    I = r.I
    node = cm.retnode(r)
    v = r.ret
    if not isinstance(v, (Arr, U)):
        ctx.find("matrix", node, "the result is not a matrix", run=r, key="kind")
        return None
    sh, f = I.rd(v)
    if sh is None or len(sh) != 2 or not (tm.same(sh[0], N) and tm.same(sh[1], N)):
        ctx.find("matrix", node, "the result is not an items by items matrix", run=r, key="shape")
    stores = [e for e in I.evs("store") if e.d.get("tshape") is not None and e.d.get("comps") is not None and len(e.comps) == 2 and not e.mask
              and all(c[0] in ("i", "a") for c in e.comps) and pairvalue(I, e.vf.term) is not None]
    # a store that copies the opposite cell of the matrix
    pairs = []
    for e in stores:
        (a, fa), (b, fb) = compof(e.comps[0]), compof(e.comps[1])
        if a is None or b is None:
            continue
        val = pairvalue(I, e.vf.term)
        if val is None:
            continue
        ctx.count("pair values")
        t, pos, cat = val
        rows, other = rowsof(t)
        if other:
            ctx.find("value", e.node, "a coefficient is computed from more than the two rows of its pair", ctx=e.ctx, run=r)
            continue
        if cat:
            rows = [(u, whole(x, pos)) for u, x in rows]
        rr = {key(x): (u, x) for u, x in rows if x is not None}
        if len(rr) != 2:
            ctx.find("value", e.node, f"a coefficient is computed from {len(rr)} rows of the data, not from the two of its pair", ctx=e.ctx, run=r)
            continue
        ka, kb = resolve(a, (FREE,) if fa else ()), resolve(b, (FREE,) if fb else ())
        got = []
        for k in (ka, kb):
            k2 = key(k)
            hit = [x for x in rr if x == k2 or len(x) == len(k2) and k2.count(FREE.id) == 1 and all(p == q or q == FREE.id for p, q in zip(x, k2))]
            got.append(hit[0] if hit else None)
        if None in got or got[0] == got[1]:
            ctx.find("position", e.node, "a coefficient is not stored at the position of the pair it was computed from", ctx=e.ctx, run=r)
            continue
        if fa:
            # position of the coefficient in the worker's result
            fr = {FREE.id} if cat else {x[i] for x, k in zip(got, (ka, kb)) for i, q in enumerate(key(k)) if q == FREE.id}
            if len(fr) != 1 or not cat and pos is not None and pos.id not in fr:
                ctx.find("position", e.node, "a worker's coefficients are not stored in the order of its pairs", ctx=e.ctx, run=r)
                continue
        pairs.append((e, got, rr, t))
    if not pairs:
        if not ctx.findings:
            ctx.find("matrix", node, "no coefficient is stored at the position of its pair", run=r, key="nostore")
        return None
    for kd in ("seqslice", "reorder"):
        for q in I.evs(kd):
            if I.proj.where(q.node).split(":")[0] == I.proj.where(pairs[0][0].node).split(":")[0] and longlist(I, q.of) and not (kd == "reorder" and pairlist(I, q.of)):
                ctx.find("pairs", q.node, "the list of pairs or of results is cut or reordered", ctx=q.ctx, run=r)
    # symmetry
    t = f.term
    orders = {}
    for e, got, rr, _ in pairs:
        orders.setdefault(frozenset(got), set()).add(tuple(got))
    mirrored = selfsum(t)
    for k, os in orders.items():
        if len(os) < 2 and not mirrored:
            e = [p for p in pairs if frozenset(p[1]) == k][0][0]
            ctx.find("symmetry", e.node, "a coefficient is stored at (r, c) but not at (c, r)", ctx=e.ctx, run=r)
    # diagonal
    if not diagonal(I, t, v):
        ctx.find("diagonal", node, "the diagonal of the matrix is not set to one", run=r, key="diag")
    for e, got, rr, val in pairs:
        coverage(ctx, r, e, [rr[g] for g in got])
    e, got, rr, val = pairs[0]
    categories(ctx, r, e, val)
    return (val, rr[got[0]][0], rr[got[1]][0], e.node, e.ctx, r)


def pairvalue(I, t, depth=0):
    """(coefficient of one pair, its position in an array of results or None, results joined end to end?)"""
    if depth > 8:
        return None
    if t.op == "sym" and t.args and t.args[0] == "phi":
        for e in I.evs("loop") + I.evs("drain"):
            if e.d.get("lid") == t.args[1]:
                c = (e.d.get("end") or {}).get(t.args[2])
                if isinstance(c, ArrC) and c.f.term is not t:
                    return pairvalue(I, c.f.term, depth + 1)
        return None
    if t.op == "join":
        xs = [pairvalue(I, a, depth + 1) for a in t.args if isinstance(a, tm.T)]
        xs = [x for x in xs if x is not None]
        return xs[0] if xs else None
    if t.op == "cat":
        v = pairvalue(I, t.args[0], depth + 1)
        return v and (v[0], v[1], True)
    if t.op == "st":
        k = t.args[1]
        v = pairvalue(I, t.args[-1], depth + 1)
        if v is None:
            return None
        co = [a for a in k.args if isinstance(a, tm.T)] if isinstance(k, tm.T) else []
        return (v[0], co[0] if len(co) == 1 else None, False)
    if t.op == "ix" and t.args[0].op == "st":
        k = t.args[0].args[1]
        if isinstance(k, tm.T) and [getattr(a, "id", a) for a in k.args] == [getattr(a, "id", a) for a in t.args[1:]]:
            return pairvalue(I, t.args[0].args[-1], depth + 1)
        return None
    if t.op == "ix" and t.args[0].op == "join":
        return pairvalue(I, t.args[0], depth + 1)
    if tm.contains(t, lambda u: u.op == "optres"):
        return (t, None, False)
    return None


def selfsum(t):
    """X + X.T (+ anything symmetric)"""
    sub = {u.id: u for u in tm.subterms(t).values()}
    ats = {a for m in tm.poly(t) for a, p in m}
    for a in ats:
        u = sub.get(a)
        if u is not None and u.op in ("T", "transpose"):
            x = u.args[0]
            while x.op in ("call", "tril", "triu", "tri") and x.id not in ats and any(isinstance(y, tm.T) for y in x.args):
                x = [y for y in x.args if isinstance(y, tm.T)][0]
            if x.id in ats:
                return True
    return t.op == "filldiag" and selfsum(t.args[0])


def diagonal(I, t, v):
    todo, seen = [t], set()
    while todo:
        u = todo.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        if u.op in ("eye", "identity"):
            return True
        if u.op == "st":
            ks = [a for a in u.args[1].args if isinstance(a, tm.T)] if isinstance(u.args[1], tm.T) else []
            if len(ks) == 2 and ks[0] is ks[1] and tm.num_const(u.args[-1]) == 1:
                return True
            todo.append(u.args[0])
        elif u.op in ("join", "add", "max2", "where", "T"):
            todo += [a for a in u.args if isinstance(a, tm.T)]
        elif u.op == "filldiag" and tm.num_const(u.args[-1]) == 1:
            return True
        elif u.op == "fill_diagonal" or u.op == "call" and "fill_diagonal" in str(u.args[0]):
            return True
        elif u.op == "sym" and u.args and u.args[0] == "phi":
            for e in I.evs("loop"):
                if e.form != "unrolled" and e.lid == u.args[1]:
                    c = (e.entry or {}).get(u.args[2])
                    if isinstance(c, ArrC):
                        todo.append(c.f.term)
    return False


def loop_of(I, t):
    for e in I.evs("loop"):
        if e.d.get("idt") is t:
            return e
    return None


def coverage(ctx, r, e, two):
    """are all pairs enumerated, each once?"""
    I = r.I
    (u0, (b0, c0)), (u1, (b1, c1)) = two
    bad = lambda m: ctx.find("pairs", e.node, m, ctx=e.ctx, run=r)
    if b0.op == "chunk" and b0 is b1:
        ctx.count("pair enumerations")
        src, cnt = b0.args[0], b0.args[1]
        tasks = [it.n for d in I.evs("dispatch") if d.process for it in d.its if it.n is not None]
        if tasks and not any(tm.same(n, cnt) for n in tasks):
            bad(f"the pairs are cut into {tm.show(cnt)[:40]} pieces but {tm.show(tasks[0])[:40]} pieces are run")
        if len(b0.args) > 2 and len(c0) == 2:
            lp = loop_of(I, b0.args[2])
            if lp is not None and not tm.same(lp.n, cnt):
                bad("not all pieces of the pair list are collected")
            lp = loop_of(I, c0[0])
            if lp is not None and not (lp.n.op == "chunklen" and tm.same(lp.n.args[1], cnt)):
                bad("not all pairs of a piece are computed")
        if src.op == "pack" and len(src.args) == 2 and len(c0) == 2 == len(c1):
            i0, i1 = tm.num_const(c0[1]), tm.num_const(c1[1])
            if i0 is not None and i1 is not None and i0 != i1:
                x, y = resolve(src.args[int(i0)], ()), resolve(src.args[int(i1)], ())
                return triangle(ctx, r, e, x, y, bad, loop=False)
        sl = [u for u in tm.subterms(src).values() if u.op in ("slen", "slice") or u.op == "const" and "slice" in str(u.args[0])]
        if sl:
            bad("only part of the pair list is used")
        tri = [u for u in tm.subterms(src).values() if u.op == "triidx"]
        for q in tri:
            tri_ok(q, bad)
        return
    ctx.count("pair enumerations")
    triangle(ctx, r, e, (b0, c0), (b1, c1), bad)


def tri_ok(b, bad):
    name, n, k = [tm.num_const(a) if tm.num_const(a) is not None else (a.args[0] if a.op == "const" else a) for a in b.args[:3]]
    if not tm.same(b.args[1], N):
        bad("the pairs are enumerated over another number than the number of items: " + tm.show(b.args[1])[:60])
    elif (name, k) not in (("tril", -1), ("triu", 1)):
        bad(f"the pairs enumerated are those of {name} with offset {k}: not every pair exactly once")


def triangle(ctx, r, e, x, y, bad, loop=True):
    I = r.I
    (b0, c0), (b1, c1) = x, y
    if b0.op == "triidx" and b1.op == "triidx":
        if b0.args[:3] != b1.args[:3] or b0.args[3] is b1.args[3] or [str(c) for c in c0] != [str(c) for c in c1] or any(a is not b for a, b in zip(c0, c1) if isinstance(a, tm.T)):
            return bad("the two positions do not come from the same pair")
        tri_ok(b0, bad)
        if loop and len(c0) == 1 and isinstance(c0[0], tm.T):
            lp = loop_of(I, c0[0])
            if lp is not None and lp.n.op != "tricount":
                bad("not all pairs are visited: " + tm.show(lp.n)[:60])
            if lp is not None and (lp.breaks or lp.rets):
                bad("the pairs are left before all are visited")
        return
    # nested counting loops
    l0, l1 = counter(I, b0), counter(I, b1)
    if l0 and l1 and not c0 and not c1:
        (p, op), (q, oq) = l0, l1
        for (a, oa), (b, ob) in (((p, op), (q, oq)), ((q, oq), (p, op))):
            # inner b runs below the outer a:  0 <= b < a,  or above: a + 1 <= b < N
            if tm.contains(b.n, lambda u: u is a.idt):
                outer = mk("add", a.idt, oa)
                first, last = ob, mk("add", mk("add", ob, b.n), const(-1))
                low = tm.same(ob, const(0)) and tm.same(b.n, outer)
                high = tm.same(ob, mk("add", outer, const(1))) and tm.same(mk("add", ob, b.n), N)
                full = tm.same(oa, const(0)) and (tm.same(a.n, N) or high and tm.same(a.n, mk("add", N, const(-1)))) or low and tm.same(oa, const(1)) and tm.same(mk("add", oa, a.n), N)
                if not (low or high) or not full:
                    bad("the nested loops over items do not visit every pair exactly once")
                return
    if any(isslice(a) for b in (b0, b1) for u in tm.subterms(b).values() for a in u.args):
        return bad("only part of the pairs is visited")
    ctx.notes.append("pair enumeration not recognised: " + tm.show(b0)[:60])


def counter(I, t):
    """(loop, offset) of a loop counter plus a constant"""
    sub = {u.id: u for u in tm.subterms(t).values()}
    hits = []
    for m, c in tm.poly(t).items():
        if len(m) == 1 and m[0][1] == 1 and c == 1:
            l = loop_of(I, sub.get(m[0][0]))
            if l is not None:
                hits.append(l)
    # the innermost counter is the one whose loop the others are outside of
    hits.sort(key=lambda l: len(l.outer or ()))
    if not hits:
        return None
    l = hits[-1]
    return l, mk("add", t, mk("mul", const(-1), l.idt))


def categories(ctx, r, e, val):
    I = r.I
    L = mk("add", mk("add", STOP, mk("mul", const(-1), START)), const(1))
    L2 = mk("mul", L, L)
    for e in I.evs("store"):
        if e.d.get("comps") is None or len(e.comps) != 2 or tm.contains(e.vf.term, lambda u: u.op == "optres") or any(c[0] not in ("i", "a") for c in e.comps):
            continue
        co = [c[1].f.term if c[0] == "i" else c[2].term for c in e.comps]
        if e.aug and any(isrow(u) for c in co for u in tm.subterms(c).values()):
            for c in co:
                ctx.count("category comparisons")
                rows = [u for u in tm.subterms(c).values() if isrow(u) and u.op == "ix"]
                if not any(tm.same(c, mk("add", x, mk("mul", const(-1), START))) for x in rows):
                    ctx.find("categories", e.node, "a response is not counted at its distance from the caller's first category: " + tm.show(c)[:80], ctx=e.ctx, run=r, key="index")
            continue
        eqs = [u for u in tm.subterms(e.vf.term).values() if u.op == "eq" and len(u.args) == 2 and all(isinstance(a, tm.T) for a in u.args) and any(isrow(q) for q in tm.subterms(u).values())]
        eqs = [u for u in eqs if any(tm.contains(u, lambda q: q is x) for c in co for x in tm.subterms(c).values() if x.op in ("pidx", "sym"))]
        for u in eqs:
            compare(ctx, r, e, u, co, L)
    for l in I.evs("loop"):
        n = l.d.get("n")
        if not isinstance(n, tm.T) or not (tm.contains(n, lambda u: u is STOP) or tm.contains(n, lambda u: u is START)) or tm.contains(n, lambda u: u is DATA):
            continue
        ctx.count("category loops")
        if not (tm.same(n, L) or tm.same(n, L2)):
            ctx.find("categories", l.node, "the category table does not span the caller's first to last category: " + tm.show(n)[:80], ctx=l.ctx, run=r)


def compare(ctx, r, e, u, co, L):
    """a cell (i, j) of the table counts the responses first + i of one row and first + j of the other"""
    ctx.count("category comparisons")
    d = mk("add", u.args[0], mk("mul", const(-1), u.args[1]))
    rows = [q for q in tm.subterms(d).values() if q.op == "ix" and q.args[0] is DATA]
    rows = [q for q in rows if not any(q is not p and tm.contains(p, lambda z: z is q) for p in rows)]
    if not rows or len(rows) > 2:
        return
    ways = [dict(zip((q.id for q in rows), w)) for w in ((co[0], co[1]), (co[1], co[0]))]
    for w in ways:
        x = d
        for q in rows:
            x = tm.replace(x, {q: mk("add", START, w[q.id])})
        if tm.same(x, const(0)):
            break
    else:
        ctx.find("categories", e.node, "a cell of the table does not count the responses at its distance from the caller's first category: " + tm.show(u)[:100], ctx=e.ctx, run=r, key="compare")
        return
    if len(rows) == 2:
        ids = {q.id for q in rows}
        coef = {}
        for m, c in tm.poly(d).items():
            for a, p in m:
                if a in ids:
                    rest = tuple(z for z in m if z[0] != a)
                    coef.setdefault(a, {})[rest] = c
        if len(coef) == 2:
            k = [dict(v) for v in coef.values()]
            if not any(injective(x, y) for x, y in ((k[0], k[1]), (k[1], k[0]))):
                ctx.find("categories", e.node, "two different pairs of responses are counted in the same cell: the multiplier of one response is not above the range of the other", ctx=e.ctx, run=r, key="injective")


def injective(p, one):
    """|p| >= last - first + 1 whenever 0 <= first < last, and the other coefficient is +-1"""
    if set(one) != {()} or abs(one[()]) != 1:
        return False
    s, t = ((START.id, 1),), ((STOP.id, 1),)
    if set(p) - {(), s, t}:
        return True
    for sg in (1, -1):
        a, b, c = sg * p.get(t, 0), sg * p.get(s, 0), sg * p.get((), 0)
        if a >= 1 and a + b >= 0 and a - 1 + c - 1 >= 0:
            return True
    return False


def isrow(t):
    while t.op in ("cast", "asarray", "copy", "astype"):
        t = t.args[0]
    return t.op == "ix" and t.args[0] is DATA


def shared(ctx, r):
    I = r.I
    by = {}
    for e in I.evs("resuse"):
        if e.d.get("shape") is not None:
            by.setdefault(e.name, []).append(e)
    for name, es in by.items():
        a = es[0]
        for b in es:
            ctx.count("views of the shared copy")
            if len(a.shape) != len(b.shape) or not all(tm.same(x, y) for x, y in zip(a.shape, b.shape)) or a.dt != b.dt:
                ctx.find("shared", b.node, f"the worker reads the shared copy with another shape or type ({b.dt}) than it was written with ({a.dt})", ctx=b.ctx, run=r)
        if not str(a.dt).startswith("inh"):
            ctx.find("shared", a.node, f"the data are copied into shared storage of another type ({a.dt}) than the caller's", ctx=a.ctx, run=r)
    for e in I.evs("store"):
        if isinstance(e.loc, tuple) and e.loc[:2] == ("h", "shm") and not e.full:
            ctx.find("shared", e.node, "only part of the shared copy is filled", ctx=e.ctx, run=r)


def canon(t, ren, memo):
    r = memo.get(t.id)
    if r is None:
        if t.id in ren:
            r = ren[t.id]
        elif t.op == "sym" and t.args and t.args[0] in ("it", "phi", "optvar", "eval", "k", "draw", "task"):
            loc = t.args[-1] if isinstance(t.args[-1], tuple) and t.args[-1] else ("",)
            r = sym("c09", t.args[0], str(loc[-1]) if t.args[0] == "phi" else "")
        elif t.op == "const" and isinstance(t.args[0], tuple):
            r = sym("c09", "const")
        elif t.args:
            r = mk(t.op, *[canon(a, ren, memo) if isinstance(a, tm.T) else a for a in t.args])
        else:
            r = t
        memo[t.id] = r
    return r


COMM = {"join", "add", "mul", "min2", "max2", "and", "or", "eq", "ne"}


def alike(x, y, memo):
    """equal up to the order of commuting operands"""
    if x is y:
        return True
    if not isinstance(x, tm.T) or not isinstance(y, tm.T) or x.op != y.op or len(x.args) != len(y.args):
        return x == y if not isinstance(x, tm.T) and not isinstance(y, tm.T) else False
    k = (x.id, y.id)
    if k in memo:
        return memo[k]
    memo[k] = False
    if x.op in COMM:
        left = list(y.args)
        ok = True
        for p in x.args:
            h = next((i for i, q in enumerate(left) if alike(p, q, memo)), None)
            if h is None:
                ok = False
                break
            left.pop(h)
    elif x.op == "sym" or x.op == "const":
        ok = x.args == y.args
    else:
        ok = all(alike(p, q, memo) for p, q in zip(x.args, y.args))
    memo[k] = ok
    return ok


def same_value(a, b):
    A, B = sym("c09", "row", 0), sym("c09", "row", 1)
    x = canon(a[0], {a[1].id: A, a[2].id: B}, {})
    for p, q in ((A, B), (B, A)):
        y = canon(b[0], {b[1].id: p, b[2].id: q}, {})
        if tm.same(x, y) or alike(x, y, {}):
            return True
    return False
