"""C12: sweeps are bounded by the requested limit and stop early only on convergence."""
from .. import entries as E
from .. import terms as tm
from ..terms import mk, const, sym
from ..values import *   # noqa
from . import common as cm

ASSUMPTIONS = ["the minimisers and eigen-solvers called inside a sweep terminate", "a comparison of real numbers is exact (no claim about rounding)"]

LIMITS = {"girth.factoranalysis.maximum_likelihood_factor_analysis": sym("arg", "max_iter"),
          "girth.factoranalysis.principal_axis_factor": sym("arg", "max_iterations"),
          "girth.factoranalysis.minimum_rank_factor_analysis": sym("arg", "n_iter")}
OPT = sym("opt", "max_iteration")


def mentions(t, lim):
    return t is not None and tm.contains(t, lambda u: u is lim)


def atmost(t, lim):
    """t <= lim for every lim >= 1:  True / False / None"""
    if tm.same(t, lim):
        return True
    d = tm.pconst(mk("sub", t, lim))
    if d is not None:
        return d <= 0
    if t.op == "min2":
        return True if any(atmost(a, lim) is True for a in t.args) else None
    if t.op == "max2":
        rs = [atmost(a, lim) for a in t.args]
        if all(r is True for r in rs):
            return True
        if any(a.op == "const" and isinstance(a.args[0], (int, float)) and a.args[0] > 1 for a in t.args) or any(r is False for r in rs):
            return False
        return True if all(r is True or tm.same(a, const(1)) or tm.same(a, const(0)) for a, r in zip(t.args, rs)) else None
    if t.op == "ite":
        rs = [atmost(a, lim) for a in t.args[1:]]
        return True if all(r is True for r in rs) else False if any(r is False for r in rs) else None
    if t.op == "floordiv" and t.args[0] is lim:
        return True
    if t.op in ("mul", "floordiv", "div"):
        cs = [tm.num_const(a) for a in t.args if a is not lim]
        if t.op == "mul" and lim in t.args and all(c is not None for c in cs):
            p = 1
            for c in cs:
                p *= c
            return p <= 1
    if t.op == "const":
        return False
    return None


def fewer(t, lim):
    """is t smaller than lim by more than a peeled sweep, for some lim >= 1?"""
    if tm.same(t, lim):
        return False
    d = tm.pconst(mk("sub", t, lim))
    if d is not None:
        return d < -1
    if t.op == "min2":
        return any(not mentions(a, lim) for a in t.args) and any(mentions(a, lim) for a in t.args) or any(fewer(a, lim) for a in t.args)
    if t.op == "max2":
        rest = [a for a in t.args if tm.num_const(a) is None]
        return bool(rest) and all(fewer(a, lim) for a in rest)
    if t.op in ("int", "float", "floor", "ceil", "round", "trunc"):
        return fewer(t.args[0], lim)
    if t.op in ("floordiv", "div") and t.args[0] is lim:
        c = tm.num_const(t.args[1])
        return c is not None and c > 1
    if t.op == "mul" and lim in t.args:
        c = [tm.num_const(a) for a in t.args if a is not lim]
        return len(c) == 1 and c[0] is not None and c[0] < 1
    if t.op == "ite":
        return any(fewer(a, lim) for a in t.args[1:] if mentions(a, lim))
    return False


def conj(t, pol=True):
    """conditions that all hold when t has truth value pol"""
    if t.op == "not":
        return conj(t.args[0], not pol)
    if t.op == "and" and pol or t.op == "or" and not pol:
        out = []
        for a in t.args:
            out += conj(a, pol)
        return out
    if t.op in ("bool", "asbool", "item"):
        return conj(t.args[0], pol)
    if not pol:
        if t.op == "ge":
            return [(mk("lt", *t.args), True)]
        if t.op == "gt":
            return [(mk("le", *t.args), True)]
    return [(t, pol)]


def less(t, pol):
    """(small, large) when the condition says small < large (or <=)"""
    if t.op in ("lt", "le") and pol:
        return t.args[0], t.args[1]
    if t.op in ("gt", "ge") and pol:
        return t.args[1], t.args[0]
    if t.op in ("lt", "le") and not pol:
        return t.args[1], t.args[0]
    if t.op in ("gt", "ge") and not pol:
        return t.args[0], t.args[1]
    return None


def strip(t):
    while t.op in ("float", "item", "asarray", "ravel", "flatten", "reshape", "copy", "squeeze") and t.args and isinstance(t.args[0], tm.T):
        t = t.args[0]
    return t


def largest_change(t):
    """the difference term d of max|d| (also sum|d|, norm(d), max|d| over parts), or None"""
    t = strip(t)
    if t.op == "red" and t.args[0] in ("max", "sum", "norm") or t.op in ("norm", "max"):
        for a in t.args:
            if isinstance(a, tm.T):
                a = strip(a)
                if a.op == "abs":
                    return [strip(a.args[0])]
                if t.op == "norm" or t.args[0] == "norm":
                    return [a]
        return None
    if t.op == "max2":
        out = []
        for a in t.args:
            d = largest_change(a)
            if d is None:
                return None
            out += d
        return out
    return None


def small_change(t, pol):
    """[difference terms] and tolerance when the condition bounds max|difference| from above"""
    r = less(t, pol)
    if r is not None:
        d = largest_change(r[0])
        return (d, r[1]) if d is not None else None
    if t.op == "red" and t.args[0] in ("all", "any"):
        inner = [a for a in t.args if isinstance(a, tm.T)]
        want = pol if t.args[0] == "all" else not pol
        if (t.args[0] == "all") == pol and inner:
            r = less(strip(inner[0]), pol)
            if r is not None and strip(r[0]).op == "abs":
                return [strip(strip(r[0]).args[0])], r[1]
    if t.op == "allclose" and pol:
        return [mk("sub", t.args[0], t.args[1])], None
    return None


class Loop:
    def __init__(self, ctx, r, e, lim):
        self.ctx, self.r, self.e, self.lim, self.I = ctx, r, e, lim, r.I
        self.cache = {}

    def term(self, heap, k):
        v = heap.get(k) if heap is not None else None
        if isinstance(v, ArrC) or isinstance(v, Sc):
            return v.f.term
        return None

    def states(self, d, head, now, base, prevend):
        """d is the difference of the state before this sweep and the state after it, of the same parameters"""
        for k, v in head.items():
            X, Y = self.term(head, k), self.term(now, k)
            if X is None or Y is None or X is Y:
                continue
            if self.diff(d, X, Y):
                return True
            # a copy kept since the end of the previous sweep
            for q, w in head.items():
                if q != k and type(w) is type(v) and base is not None and self.term(base, q) is self.term(base, k) is not None and \
                        (prevend is None or self.term(prevend, q) is self.term(prevend, k)) and self.diff(d, self.term(head, q), Y):
                    return True
        return False

    def diff(self, d, X, Y):
        k = (d, X, Y)
        if k not in self.cache:
            e = mk("sub", X, Y)
            self.cache[k] = e is d or mk("sub", Y, X) is d or tm.same(e, d) or tm.same(mk("sub", Y, X), d)
        return self.cache[k]

    def subst(self, t, end):
        """loop-carried scalars replaced by their value at the end of the previous sweep"""
        lid = self.e.lid
        m = {}
        for u in tm.subterms(t).values():
            if u.op == "sym" and u.args[0] == "phi" and u.args[1] == lid and len(u.args) == 3:
                k = u.args[2]
                w = self.term(end, k)
                if w is not None and k[0] != "h":
                    m[u] = w
        return tm.replace(t, m) if m else None

    def converged(self, conds, head, now, base, prevend):
        """does some condition of the exit bound the largest change of one sweep?  -> (ok, why)"""
        why = "its condition does not bound the largest absolute change of a sweep"
        for t, pol in conds:
            for t2, hd, nw, bs, pe in self.variants(t, head, now, base, prevend):
                for c, p in conj(t2, pol):
                    sc = small_change(c, p)
                    if sc is None:
                        continue
                    ds, tol = sc
                    if tol is not None:
                        tc = tm.pconst(tol)
                        if tc is not None and not tc > 0:
                            why = "the tolerance is not positive"
                            continue
                    good = False
                    for d in ds:
                        if self.states(strip(d), hd, nw, bs, pe):
                            good = True
                        else:
                            why = "it does not compare the parameters before this sweep with the same parameters after it"
                    if good:
                        return True, ""
        return False, why

    def variants(self, t, head, now, base, prevend):
        yield t, head, now, base, prevend
        if prevend is not None:
            t2 = self.subst(t, prevend)
            if t2 is not None:
                # evaluated one sweep later: compares the states of the sweep before
                yield t2, head, prevend, base, prevend


def counter_bound(L, t, pol, atend=False):
    """the condition to go on, read as counter < limit: sweeps allowed <= limit?  True / False / None
    (atend: tested at the end of the body, where the counter has already taken its step)"""
    r = less(t, pol)
    if r is None:
        return None
    small, large = r
    strict = (t.op in ("lt", "gt")) == pol
    e = L.e
    ms, ml = mentions(small, L.lim), mentions(large, L.lim)
    if ml and not ms:
        cnt, bound = small, large
    else:
        return None
    off = None
    it = e.idt
    if e.form == "for" and tm.contains(cnt, lambda u: u is it):
        off = tm.pconst(mk("sub", cnt, it))
        start, step = (off, 1) if off is not None else (None, None)
    else:
        start = step = None
        phis = [u for u in tm.subterms(cnt).values() if u.op == "sym" and u.args[0] == "phi" and u.args[1] == e.lid]
        if len(phis) == 1 and len(phis[0].args) == 3:
            k = phis[0].args[2]
            off = tm.pconst(mk("sub", cnt, phis[0]))
            a, b = L.term(e.entry, k), L.term(e.end, k)
            if off is not None and a is not None and b is not None:
                s0, st = tm.pconst(a), tm.pconst(mk("sub", b, phis[0]))
                if s0 is not None and st is not None:
                    start, step = s0 + off - (st if atend else 0), st
    if start is None:
        return None
    if step < 1:
        return False
    d = tm.pconst(mk("sub", bound, L.lim))
    if d is None:
        return atmost(bound, L.lim)
    extra = d - start + (0 if strict else 1)
    return extra <= 0


def check(ctx):
    for n, e in E.ENTRIES.items():
        lim = LIMITS.get(n) or (OPT if "max_iteration" in e.opts else None)
        if lim is None:
            continue
        for sc in cm.scenarios(n, ctx.tier):
            r = ctx.run(n, sc)
            cm.must_return(ctx, r)
            one(ctx, n, r, lim)
    ctx.need("sweep loops", 17)
    ctx.need("early exits of sweep loops", 15)
    return ("In every estimator that takes an iteration limit, each loop whose trip count, loop test or exits mention the limit is a sweep loop. "
            "Obligations: its trip count (symbolic, after following the option through wrappers and helpers) is at most the limit; sweep loops are "
            "not nested or chained; every early exit (break, return, loop test) is reached only under a condition that bounds the largest absolute "
            "difference between a parameter array's content at the start of this sweep and its content at the end, by a positive tolerance. "
            "Array contents are followed through copies, views and in-place updates, so an aliased or stale snapshot is not accepted.")


def one(ctx, n, r, lim):
    I = r.I
    sweeps = []
    calls = [e for e in I.evs("optcall", "extcall") if any(mentions(t, lim) for t in evterms(I, e))]
    for e in I.evs("loop"):
        if e.form == "unrolled":
            continue
        L = Loop(ctx, r, e, lim)
        isfor = e.form == "for" and mentions(e.n, lim)
        tests = [c for _, tf, _ in e.tests if tf is not None for c in conj(tf.term)]
        exits = exits_of(e)
        limtest = [c for c in tests if mentions(c[0], lim)]
        limexit = [(x, cs) for x, cs, *_ in exits if any(mentions(c[0], lim) for c in cs)]
        if not (isfor or limtest or limexit):
            continue
        sweeps.append(e)
        ctx.count("sweep loops")
        # ---- bound
        ok = None
        if isfor:
            ok = atmost(e.n, lim)
        for c in limtest:
            ok = combine(ok, counter_bound(L, *c, atend=True))
        if not isfor and not limtest:
            for x, cs in limexit:
                for c in cs:
                    for t, p in conj(*c):
                        g = counter_bound(L, t, not p)      # leave when counter >= limit: goes on while counter < limit
                        if g is not None and mentions(t, lim):
                            ok = combine(ok, g)
        if ok is False:
            ctx.find("too-many-sweeps", e.node, f"the number of sweeps is {tm.show(e.n)[:80] if isfor else 'not bounded by'} {'' if isfor else tm.show(lim)}, more than the requested limit allows", ctx=e.ctx, run=r)
        elif isfor and fewer(e.n, lim):
            ctx.find("too-few-sweeps", e.node, f"the number of sweeps is {tm.show(e.n)[:80]}: it stops before the requested limit without having converged", ctx=e.ctx, run=r)
        elif ok is None:
            ctx.notes.append(f"{r.label}: bound of the sweep loop {I.proj.where(e.node)} not decided")
        # ---- early exits
        for what, cs, head, now, base, prevend in exits:
            if head is None:
                continue
            if any(counter_bound(L, t, not p) is not None for c in cs for t, p in conj(*c) if mentions(t, lim)):
                continue
            ctx.count("early exits of sweep loops")
            good, why = L.converged(cs, head, now, base, prevend)
            if not good:
                ctx.find("early-exit", e.node, f"the sweep loop may stop early although {why}", ctx=e.ctx, run=r, key="early-exit")
        # loop tests other than the limit
        for c in tests:
            if mentions(c[0], lim) or tm.is_const(c[0]):
                continue
            ctx.count("early exits of sweep loops")
            good, why = L.converged([(c[0], not c[1])], e.head or {}, e.end or {}, e.entry, e.end)
            if not good:
                ctx.find("early-exit", e.node, f"the sweep loop may stop early although {why}", ctx=e.ctx, run=r, key="loop-test")
    if not sweeps and not calls:
        node = cm.fnnode(r)
        ctx.find("limit-unused", node, f"no loop of {n} is bounded by the iteration limit", run=r, key=n)
    for e in I.evs("loop"):
        if e.form != "for" or not mentions(e.n, E.ITEMS) or not any(s.idt in e.outer for s in sweeps):
            continue
        ctx.count("item loops of a sweep")
        if any(h is not None for _, h in e.breaks) or e.rets:
            if any(L_changed(e.head, e.end, k) for k in (e.end or {})):
                ctx.find("sweep-cut-short", e.node, "the loop over the items of a sweep may end before the last item, so a sweep need not update every item", ctx=e.ctx, run=r)
    for e in calls:
        ctx.count("library iterations given the limit")
    for a in sweeps:
        for b in sweeps:
            if a is not b and a.idt in b.outer:
                ctx.find("nested-sweeps", b.node, "a sweep loop runs inside another sweep loop", ctx=b.ctx, run=r)
            elif a is not b and a.node._id < b.node._id and a.ctx == b.ctx and not exclusive(a.pc, b.pc):
                ctx.find("chained-sweeps", b.node, "two sweep loops, each with the full limit, run one after the other", ctx=b.ctx, run=r)


def L_changed(head, end, k):
    """an array that existed before the loop has a new content after one pass"""
    a, b = (head or {}).get(k), (end or {}).get(k)
    return isinstance(a, ArrC) and isinstance(b, ArrC) and a.f.term is not b.f.term


def exclusive(p, q):
    return any((t, not s) in q for t, s in p)


def combine(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return a or b


def evterms(I, e):
    out = []
    for v in list(e.d.get("args") or []) + list((e.d.get("kw") or {}).values()):
        if isinstance(v, Sc):
            out.append(v.f.term)
    for k in ("maxiter", "limit"):
        v = e.d.get(k)
        if isinstance(v, tm.T):
            out.append(v)
    return out


def exits_of(e):
    """(kind, conditions, head, heap at exit, base of the head, end of the previous sweep)"""
    out = []
    pc0 = set(e.pc)
    def conds(h):
        return [c for c in h.get(("pc",), ()) if c not in pc0]
    if e.first is not None:
        entry, end1, br, rt = e.first
        for h in [h for h, _ in br] + rt:
            out.append(("first", conds(h), entry, h, entry, None))
        base, pe = end1, e.end
    else:
        base, pe = e.entry, e.end
    for h in [h for _, h in e.breaks] + e.rets:
        out.append(("rest", conds(h), e.head, h, base, pe))
    return out
