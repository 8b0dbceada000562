"""C22: every item enters every likelihood exactly once (leave-one-out bookkeeping of the product over items)."""
from .. import entries as E
from .. import terms as tm
from ..terms import mk, const
from ..values import *   # noqa
from . import common as cm

ASSUMPTIONS = ["products and quotients of probabilities are exact (no claim about underflow or rounding)",
               "a probability that is divided out is not zero"]

THROUGH = ("cast", "copy", "asarray", "reshape", "broadcast")
REACH = {"ix", "take", "where", "eq", "ne", "lt", "gt", "le", "ge", "not", "and", "or", "unique", "uinv", "st", "add", "sub", "mul", "cast", "copy", "join", "asarray", "T", "ite", "ravel", "sign", "abs"}
OPAQUE = ("optres", "optvar")
WEIGHTS = ("qweights", "quadw")


def factors(t):
    """[(factor, exponent)] of a product"""
    out, todo = [], [(t, 1)]
    while todo:
        u, s = todo.pop()
        if u.op == "mul":
            todo += [(a, s) for a in u.args]
        elif u.op == "div":
            todo += [(u.args[0], s), (u.args[1], -s)]
        elif u.op == "inv":
            todo.append((u.args[0], -s))
        elif u.op == "pow" and len(u.args) == 2 and isinstance(tm.num_const(u.args[1]), int) and abs(tm.num_const(u.args[1])) < 9:
            k = tm.num_const(u.args[1])
            todo += [(u.args[0], s if k > 0 else -s)] * abs(k)
        elif u.op in THROUGH and u.args and isinstance(u.args[0], tm.T):
            todo.append((u.args[0], s))
        else:
            out.append((untiny(u), s))
    return out


def products(t, has, cap=8):
    """factor lists of the alternatives (branches) of a product, following those in which `has` is found"""
    out, todo = [], [factors(t)]
    while todo:
        fs = todo.pop()
        i = next((i for i, (u, s) in enumerate(fs) if u.op in ("join", "ite") and any(has(x) for x in shallow(u))), None)
        if i is None or len(out) + len(todo) > cap:
            out.append(fs)
            continue
        u, s = fs[i]
        for a in (u.args if u.op == "join" else u.args[1:]):
            if isinstance(a, tm.T):
                todo.append(fs[:i] + [(x, s * k) for x, k in factors(a)] + fs[i + 1:])
    return out


def shallow(u):
    """factors of all alternatives"""
    for a in (u.args if u.op == "join" else u.args[1:] if u.op == "ite" else ()):
        if isinstance(a, tm.T):
            for x, _ in factors(a):
                yield x
                if x.op in ("join", "ite"):
                    yield from shallow(x)


def untiny(u):
    """x + 1e-23 is x"""
    if u.op == "add":
        big = [a for a in u.args if not (tm.num_const(a) is not None and abs(tm.num_const(a)) < 1e-9)]
        if len(big) == 1:
            return big[0]
    if u.op in ("max2", "clip") and sum(1 for a in u.args if isinstance(a, tm.T) and not tm.is_const(a)) == 1:
        lows = [tm.num_const(a) for a in u.args if isinstance(a, tm.T) and tm.is_const(a)]
        if lows and all(x is not None and (abs(x) < 1e-9 or x >= 1) for x in lows):
            return next(a for a in u.args if isinstance(a, tm.T) and not tm.is_const(a))
    return u


def targs(u):
    for a in u.args:
        if isinstance(a, tm.T):
            yield a
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, tm.T):
                    yield b


def direct(t, stop=OPAQUE):
    """subterms, without what lies inside optimiser results"""
    seen, todo = {}, [t]
    while todo:
        u = todo.pop()
        if u.id in seen:
            continue
        seen[u.id] = u
        if u.op in stop and (u.op != "st" or stored(u)):
            continue
        todo += list(targs(u))
    return seen.values()


def stored(u):
    """a newer version of an array that is carried round a loop"""
    while u.op == "st":
        u = u.args[0]
    return u.op == "sym" and u.args[0] == "phi" or u.op in ("join", "ite")


class Rows:
    """which rows of the answers a term reads"""
    def __init__(self, leaf):
        self.leaf, self.memo = leaf, {}

    def data(self, t):
        """are these answers (recoded, masked, ... element by element)?"""
        k = t.id
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = False
        r = t.op == "sym" and t.args[0] == "in" and t.args[1] in self.leaf
        if not r and t.op in REACH:
            r = any(self.data(a) for a in targs(t))
        self.memo[k] = r
        return r

    def of(self, t, idt):
        out = {}
        for u in direct(t):
            if u.op == "ix" and len(u.args) > 1 and isinstance(u.args[1], tm.T) and tm.contains(u.args[1], lambda x: x is idt) and self.data(u.args[0]):
                out[u.args[1].id] = u.args[1]
        return list(out.values())


class Loop:
    """one pass over the items that multiplies into an array"""
    def __init__(self, e, key, head, others, entry):
        self.e, self.key, self.head, self.others, self.entry = e, key, head, others, entry
        self.pos = self.neg = None


def loops_of(I, rows):
    out = []
    for k, e in list(I.events.items()):
        if e.kind != "loop" or e.form != "for" or e.d.get("end") is None or e.d.get("idt") is None or k[4] != "run":
            continue
        for key, c in e.end.items():
            h = (e.head or {}).get(key)
            if not isinstance(c, ArrC) or not isinstance(h, ArrC) or h.f.term is c.f.term or h.f.term is None or c.f.term is None:
                continue
            if rebound(e.head, key):
                continue                   # one name for several arrays
            H = h.f.term
            for fs in products(c.f.term, lambda x: x is H):
                if not any(u is H for u, _ in fs):
                    continue
                L = Loop(e, key, H, [(u, s) for u, s in fs if u is not H], (e.entry or {}).get(key))
                L.n = sum(s for u, s in fs if u is H)
                L.items = [(u, s, rows.of(u, e.idt)) for u, s in L.others]
                L.cond = skipped(c.f.term, H) if not L.others else None
                out.append(L)
    return out


def skipped(t, H):
    """condition under which nothing is multiplied in"""
    for u in [t] + list(targs(t)):
        if u.op == "ite" and any(a is H for a in u.args[1:]):
            return u.args[0]
    return None


def rebound(heap, key):
    """does some variable name this array or another one?"""
    for k, v in heap.items():
        if k[0] == "v" and isinstance(v, U) and any(isinstance(x, Arr) and x.loc == key for x in v.vals):
            return True
    return False


def whole(u, rows):
    """a product over all items at once"""
    if u.op != "red" or u.args[0] != "prod":
        return False
    return any(x.op != "sym" and rows.data(x) for x in direct(u)) and not any(
        x.op == "ix" and len(x.args) > 1 and isinstance(x.args[1], tm.T) and tm.contains(x.args[1], lambda y: y.op == "it" or y.op == "sym" and y.args[0] == "it") for x in direct(u))


def check(ctx):
    for name, ent in E.ENTRIES.items():
        if not ({"mml", "score"} & set(ent.tags)):
            continue
        for sc in cm.scenarios(name, ctx.tier):
            r = ctx.run(name, sc)
            cm.must_return(ctx, r)
            one(ctx, name, r)
    ctx.need("likelihood products over items", 6)
    return ("Every array that a pass over the items multiplies into is decomposed into its factors at the end of one generic iteration. A pass that builds a likelihood must multiply in the "
            "probability of exactly one item, the one it is at, start from something that holds no item yet and cover all items; a pass that re-estimates items must take out exactly the "
            "probability of the current item, at the parameter values it was multiplied in with, and multiply it back in at the new values; every sum over the nodes in between must hold each "
            "item once.")


def one(ctx, name, r):
    I = r.I
    leaf = {x for x in r.args if x in ("dataset", "data", "responses")} or {"dataset"}
    rows = Rows(leaf)
    Ls = loops_of(I, rows)
    live = {L.head.id for L in Ls if any(rs for _, _, rs in L.items)}
    Ls = [L for L in Ls if L.head.id in live]
    heads = {}
    for L in Ls:
        heads.setdefault(L.head.id, []).append(L)
    for L in Ls:
        judge(ctx, name, r, rows, L, heads)
    sums(ctx, name, r, rows, heads, Ls)


def complete(fs, heads, rows, depth=0):
    """how many times the likelihood of all items is contained in a product, and the factors left over"""
    n, left = 0, list(fs)
    for u, s in fs:
        Ls = heads.get(u.id)
        if Ls is None:
            if s > 0 and whole(u, rows):
                n += s
                left.remove((u, s))
            continue
        upd = [L for L in Ls if L.neg is not None]
        if upd:
            left.remove((u, s))
            ent = upd[0].entry
            if isinstance(ent, ArrC) and ent.f.term is not None and depth < 6 and s > 0:
                m, more = complete(factors(ent.f.term), heads, rows, depth + 1)
                if m:
                    n += s * m
                    left += [x for x in more if weightish(x[0])]
                    continue
            n += s
            continue
        own = [L.pos for L in Ls if L.pos is not None and (L.pos, s) in left]
        if not own:
            return None, left
        n += s
        left.remove((u, s))
        left.remove((own[0], s))
        ent = next((L.entry for L in Ls if L.pos is own[0]), None)
        if isinstance(ent, ArrC) and ent.f.term is not None:
            alts = products(ent.f.term, lambda x: weightish(x))
            left += max(([x for x in fs1 if weightish(x[0])] for fs1 in alts), key=len, default=[])
    return n, left


def judge(ctx, name, r, rows, L, heads):
    I, e = r.I, L.e
    idt, node = e.idt, e.node
    what = f"{name}: the pass over items in {I.proj.where(node)}"
    pos = [(u, rs) for u, s, rs in L.items if rs and s > 0]
    neg = [(u, rs) for u, s, rs in L.items if rs and s < 0]
    unknown = [u for u, s, rs in L.items if not rs and any(rows.data(x) for x in direct(u) if x.op == "ix")]
    for p in list(pos):                                        # a factor and its own inverse are nothing
        q = next((x for x in neg if x[0] is p[0]), None)
        if q is not None and len(pos) + len(neg) > 2:
            pos.remove(p), neg.remove(q)
    key = fkey(e)
    if L.cond is not None and tm.contains(L.cond, lambda x: x is idt) and not tm.has_sent(L.cond):
        ctx.find("left-out", node, f"{what} leaves an item out under a condition other than that nobody answered it", ctx=e.ctx, run=r, key=key)
        return
    if unknown or not pos and not neg:
        ctx.notes.append(f"{what}: not understood")
        return
    if L.n != 1:
        ctx.find("power", node, f"{what} raises the likelihood to a power", ctx=e.ctx, run=r, key=key)
        return
    ctx.count("likelihood products over items")
    ks = {k.id: k for _, rs in pos + neg for k in rs}
    if len(ks) > 1:
        if all(tm.pconst(mk("sub", k, idt)) is not None for k in ks.values()):
            ctx.find("rows", node, f"{what} takes the answers to different items for one item", ctx=e.ctx, run=r, key=key)
        else:
            ctx.notes.append(f"{what}: rows not understood")
        return
    row = next(iter(ks.values()))
    for u, rs in pos + neg:
        pairing(ctx, what, r, L, u, row, key)
    span(ctx, what, r, rows, L, heads, key)
    # something that is no item's probability, in every iteration
    for u, s, rs in L.items:
        if s > 0 and not rs and not tm.contains(u, lambda x: x is idt or x.op == "red") and tm.contains(u, lambda x: x.op in WEIGHTS):
            ctx.find("weights-per-item", node, f"{what} multiplies in the node weights once per item", ctx=e.ctx, run=r, key=key)
    if not neg:
        if len(pos) != 1:
            ctx.find("twice", node, f"{what} multiplies in the same item's probability {len(pos)} times", ctx=e.ctx, run=r, key=key)
            return
        L.pos = pos[0][0]
        start(ctx, what, r, rows, L, heads, key)
        return
    if len(pos) != 1 or len(neg) != 1:
        ctx.find("balance", node, f"{what} takes an item's probability out {len(neg)} times and puts it in {len(pos)} times", ctx=e.ctx, run=r, key=key)
        return
    L.pos, L.neg = pos[0][0], neg[0][0]
    ctx.count("items taken out and put back")
    versions(ctx, what, r, L, heads, row, key)


def fkey(e):
    from ..loader import enclosing
    return enclosing(e.node)


def pairing(ctx, what, r, L, u, row, key):
    """parameters of one value per item are read at the item whose answers are used"""
    I, idt = r.I, L.e.idt
    for x in direct(u):
        if x.op != "ix" or len(x.args) < 2 or not isinstance(x.args[1], tm.T):
            continue
        k = x.args[1]
        if not itemwise(r, x.args[0]):
            continue
        ctx.count("parameter reads paired with answers")
        if tm.is_const(k) and k.op == "const" and isinstance(k.args[0], int) and not isinstance(k.args[0], bool):
            ctx.find("pair", L.e.node, f"{what} reads the parameters of a fixed item", ctx=L.e.ctx, run=r, key=key)
        elif tm.contains(k, lambda y: y is idt):
            d = tm.pconst(mk("sub", k, row))
            if d is not None and d != 0:
                ctx.find("pair", L.e.node, f"{what} pairs the parameters of one item with the answers to another", ctx=L.e.ctx, run=r, key=key)


def itemwise(r, t, depth=0):
    """an array with one row per item that is no answer"""
    if t.op in ("join", "ite") and depth < 6:
        return any(itemwise(r, a, depth + 1) for a in (t.args if t.op == "join" else t.args[1:]) if isinstance(a, tm.T))
    while t.op == "st":
        t = t.args[0]
    if t.op == "sym" and t.args[0] == "in":
        return t.args[1] in ("difficulty", "discrimination", "guessing")
    if t.op == "sym" and t.args[0] == "phi" and len(t.args) == 3 and isinstance(t.args[2], tuple):
        c = r.I.heap.get(t.args[2]) if r.I.heap is not None else None
        sh = getattr(c, "shape", None)
        return bool(sh) and isinstance(sh[0], tm.T) and tm.same(sh[0], E.ITEMS)
    return False


def span(ctx, what, r, rows, L, heads, key):
    """all items, and each one"""
    n = L.e.n
    if n is None or tm.same(n, E.ITEMS):
        return
    ent = L.entry.f.term if isinstance(L.entry, ArrC) else None
    if ent is not None and any(rows.data(x) for u, s in factors(ent) for x in direct(u) if x.op == "ix"):
        ctx.notes.append(f"{what}: starts from an item")
        return
    d = tm.pconst(mk("sub", n, E.ITEMS))
    if d is not None and d != 0 or tm.is_const(n) and tm.num_const(n) is not None or part(n):
        ctx.find("span", L.e.node, f"{what} does not visit every item", ctx=L.e.ctx, run=r, key=key)
    else:
        ctx.notes.append(f"{what}: number of items visited {tm.show(n)[:60]} not understood")


def part(n):
    """clearly fewer than all items for some number of items"""
    if n.op == "min2":
        return any(tm.same(a, E.ITEMS) or part(a) for a in n.args)
    if n.op in ("floordiv", "ceildiv", "div") and isinstance(n.args[1], tm.T):
        c, d = tm.num_const(n.args[1]), tm.pconst(mk("sub", n.args[0], E.ITEMS))
        return c is not None and c > 1 and d is not None and d < c
    if n.op in ("ceil", "floor", "cast", "int", "max2"):
        return any(isinstance(a, tm.T) and part(a) for a in n.args)
    return False


def start(ctx, what, r, rows, L, heads, key):
    if not isinstance(L.entry, ArrC) or L.entry.f.term is None:
        return
    ctx.count("starting values of likelihood products")
    bad = lambda u: u.id in heads or whole(u, rows) or u.op == "sym" and u.args[0] == "phi" and len(u.args) == 3 and u.args[2] == L.key and u is not L.head   # noqa
    for fs in products(L.entry.f.term, bad):
        if any(bad(u) for u, _ in fs):
            ctx.find("carry", L.e.node, f"{what} multiplies into a likelihood that already holds the items", ctx=L.e.ctx, run=r, key=key)
            return


def versions(ctx, what, r, L, heads, row, key):
    """taken out at the values multiplied in with; put back at the new values"""
    e = L.e
    if L.pos is L.neg:
        ctx.find("stale", e.node, f"{what} puts an item back at the old parameter values", ctx=e.ctx, run=r, key=key)
        return
    changed = {k for k, c in e.end.items() if isinstance(c, ArrC) and isinstance((e.head or {}).get(k), ArrC) and c.f.term is not e.head[k].f.term}
    lids = [e.lid] + [o.args[1:] for o in e.outer or ()]
    old = lambda x: x.op == "sym" and x.args[0] == "phi" and len(x.args) == 3 and x.args[2] in changed and x.args[1] in lids   # noqa
    for x in direct(L.pos, OPAQUE + ("st", "join", "ite")):
        if old(x):
            ctx.find("stale", e.node, f"{what} puts an item back with a parameter at its old value", ctx=e.ctx, run=r, key=key)
            return
    # the product this pass starts from
    ent = L.entry.f.term if isinstance(L.entry, ArrC) else None
    src = [P for u, s in factors(ent) for P in heads.get(u.id, ())] if ent is not None else []
    if len(src) == 1 and src[0].pos is not None:
        P = src[0]
        got = tm.replace(L.neg, {e.idt: P.e.idt})
        ctx.count("divisions compared with the multiplication they undo")
        if got is P.pos:
            return
        pairs = diff(P.pos, got)
        if pairs and all(newer(b, changed) and isold(a) for a, b in pairs):
            ctx.find("undo", e.node, f"{what} takes an item out at other parameter values than it was multiplied in with", ctx=e.ctx, run=r, key=key)
        else:
            ctx.notes.append(f"{what}: the division is not literally the multiplication it undoes")
        return
    for x in direct(L.neg, OPAQUE + ("st",)):
        if x.op == "ix" and x.args[1] is row and newer(x, changed):
            ctx.find("undo", e.node, f"{what} takes an item out at other parameter values than it was multiplied in with", ctx=e.ctx, run=r, key=key)
            return


def isold(a):
    while a.op == "ix":
        a = a.args[0]
    return a.op == "sym" and a.args[0] == "phi"


def newer(b, changed):
    while b.op == "ix":
        b = b.args[0]
    if b.op == "optres":
        return True
    if b.op == "st":
        while b.op == "st":
            b = b.args[0]
        return b.op != "sym" or b.args[0] != "phi" or len(b.args) < 3 or b.args[2] in changed
    return False


def diff(a, b, depth=0, seen=None):
    """minimal differing pairs"""
    seen = {} if seen is None else seen
    if a is b:
        return []
    if (a.id, b.id) in seen:
        return []
    seen[a.id, b.id] = True
    if (isold(a) and a.op in ("ix", "sym")) or a.op != b.op or len(a.args) != len(b.args) or depth > 40:
        return [(a, b)]
    out = []
    for x, y in zip(a.args, b.args):
        if x is y or x == y:
            continue
        if not isinstance(x, tm.T) or not isinstance(y, tm.T):
            return [(a, b)]
        out += diff(x, y, depth + 1, seen)
    return out


def sums(ctx, name, r, rows, heads, Ls):
    """sums over the nodes"""
    I = r.I
    idts = [L.e.idt for L in Ls] + [e.idt for k, e in I.events.items() if e.kind == "loop" and e.d.get("idt") is not None and e.n is not None and tm.same(e.n, E.ITEMS)]
    idts = list({i.id: i for i in idts}.values())
    known = lambda u: u.id in heads or whole(u, rows)   # noqa
    for k, e in list(I.events.items()):
        if e.kind != "reduce" or k[4] != "run" or e.op not in ("sum", "mean", "dot", "nansum") or e.d.get("term") is None:
            continue
        for fs in products(e.term, known):
            if not any(s > 0 and known(u) for u, s in fs):
                continue
            n, left = complete(fs, heads, rows)
            where = f"{name}: the sum over nodes in {I.proj.where(e.node)}"
            if n is None:
                continue                # inside the pass that builds the product: a part of it
            ctx.count("sums over nodes of a likelihood")
            if n != 1:
                ctx.find("sum-twice", e.node, f"{where} holds the likelihood of all items {n} times", ctx=e.ctx, run=r, key=fkey(e))
                continue
            ex = [(u, s, [x for i in idts for x in rows.of(u, i)]) for u, s in left]
            pos = [(u, rs) for u, s, rs in ex if rs and s > 0]
            neg = [(u, rs) for u, s, rs in ex if rs and s < 0]
            if len(pos) > len(neg):
                ctx.find("sum-extra", e.node, f"{where} holds an item's probability in addition to the likelihood of all items", ctx=e.ctx, run=r, key=fkey(e))
            elif pos and neg and {k.id for _, rs in pos for k in rs} != {k.id for _, rs in neg for k in rs}:
                ctx.find("sum-rows", e.node, f"{where} replaces one item's probability by another item's", ctx=e.ctx, run=r, key=fkey(e))
            w = [u for u, s, rs in ex if not rs and s > 0 and weightish(u)]
            if len(w) > 1:
                ctx.find("weights-twice", e.node, f"{where} holds the node weights {len(w)} times", ctx=e.ctx, run=r, key=fkey(e))


def weightish(u):
    return u.op in WEIGHTS or u.op == "join" and any(x.op in WEIGHTS for a in u.args if isinstance(a, tm.T) for x, _ in factors(a))
