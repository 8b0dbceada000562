"""C11: worker processes get picklable work; pools and shared memory are released on every exit."""
import ast
from .. import entries as E
from .. import terms as tm
from ..values import *   # noqa
from . import common as cm

ASSUMPTIONS = ["a callable supplied by the caller is as picklable as the caller made it",
               "a handle attached to an existing block of shared memory is released with the last reference to it"]

LABEL = {"pool:process": "process pool", "pool:thread": "thread pool", "smm": "shared memory manager", "shm": "shared memory block"}


def unpicklable(I, v, depth=0, seen=None):
    """why a spawned process cannot be sent v, or None"""
    seen = set() if seen is None else seen
    if v is None or depth > 8:
        return None
    rec = lambda x: unpicklable(I, x, depth + 1, seen)      # noqa: E731
    many = lambda xs: next((w for w in map(rec, xs) if w), None)      # noqa: E731
    if isinstance(v, U):
        return many(v.vals)
    if isinstance(v, Fn):
        if isinstance(v.node, ast.Lambda):
            return "a lambda"
        if v.fid is not None and v.cls is None:
            return f"{v.node.name}, a function defined inside another function"
        if v.selfv is not None:
            return rec(v.selfv)
        if v.cls is None:
            g = I.heap.get(("g", v.mod, v.node.name)) if I.heap else None
            if g is not None and not any(isinstance(x, Fn) and x.node is v.node for x in I.alts(g)):
                return f"{v.node.name}, whose module-level name stands for something else"
        return None
    if isinstance(v, Partial):
        return rec(v.fn) or many(v.args) or many(v.kw.values())
    if isinstance(v, Meth):
        return rec(v.recv)
    if isinstance(v, Prim):
        if v.kind == "shmbuf":
            return "the buffer of a shared memory block"
        if v.kind in ("future", "lock", "mpctx") and v.kind != "mpctx":
            return f"a {v.kind}"
        return None
    if isinstance(v, It):
        return "a generator" if v.kind == "gen" else None
    if isinstance(v, Mod):
        return "a module"
    if isinstance(v, Tup):
        return many(v.items)
    if isinstance(v, Ref):
        if v.loc in seen:
            return None
        seen.add(v.loc)
        c = I.c(v.loc)
        if isinstance(c, ResC):
            return f"a {LABEL.get(c.kind, c.kind)}" if c.kind != "shm" else None
        if isinstance(c, ListC):
            return many(c.items) if c.items is not None else rec(c.elem)
        if isinstance(c, DictC):
            return many(c.keys.values()) or (rec(c.rest) if c.rest is not None else None)
        if isinstance(c, ObjC):
            if getattr(c.cls, "fid", None) is not None:
                return "an object of a class defined inside a function"
            return many(c.attrs.values())
    return None


def mentions(I, x, name, loc, depth=0):
    if depth > 6 or x is None:
        return False
    if isinstance(x, Ref):
        c = I.c(x.loc)
        return x.loc == loc or isinstance(c, ListC) and any(mentions(I, y, name, loc, depth + 1) for y in (c.items or [c.elem])) \
            or isinstance(c, DictC) and any(mentions(I, y, name, loc, depth + 1) for y in c.keys.values())
    if isinstance(x, Tup):
        return any(mentions(I, y, name, loc, depth + 1) for y in x.items)
    if isinstance(x, Sc):
        return x.f.term is name
    return False


def check(ctx):
    for n, ent in E.ENTRIES.items():
        scens = cm.scenarios(n, ctx.tier)
        if "boot" in ent.tags:
            scens = scens + [{"parallel": True, "options": "none"}]
        elif ctx.tier == "quick" and not n.endswith("polychoric_correlation"):
            scens = scens[:1]
        for sc in scens:
            r = ctx.run(n, sc)
            cm.must_return(ctx, r)
            work(ctx, r)
            resources(ctx, r)
            ctx.count("public calls x scenarios")
    ctx.need("public calls x scenarios", 20)
    return ("Every value handed to a process pool is followed to what it is made of (module-level functions, arrays, containers, bound objects); what a spawned "
            "process cannot be sent is reported. Every pool, manager and shared memory block is followed from the call that opens it: each operation that can raise "
            "while it is open must lie inside a with or try statement whose exit part, in this or a called function, releases that very resource, and it is released "
            "on every normal exit. Work in flight must be finished before the memory it reads is released; nothing reads a released block; results are taken in order.")


def work(ctx, r):
    I = r.I
    dispatched = False
    for e in I.evs("dispatch"):
        if not e.process:
            continue
        dispatched = True
        ctx.count("work dispatches")
        name = getattr(getattr(e.fn, "node", None), "name", None) or "function"
        why = unpicklable(I, e.fn)
        if why:
            ctx.find("unpicklable", e.node, f"the work is {why}: a spawned worker process cannot be sent it", ctx=e.ctx, run=r, key="fn:" + why)
        items = [x for x in e.elems if x is not None] + [x for t in e.its for x in (t.items or [])]
        for x in items:
            ctx.count("values sent to workers")
            why = unpicklable(I, x)
            if why:
                ctx.find("unpicklable", e.node, f"{why} is among the arguments of {name}: a spawned worker process cannot be sent it", ctx=e.ctx, run=r, key="arg:" + why)
    for e in I.evs("workercall"):
        for x in list(e.raw) + list((e.kw or {}).values()):
            ctx.count("values sent to workers")
            why = unpicklable(I, x)
            if why:
                ctx.find("unpicklable", e.node, f"{why} is among the arguments of a worker: a spawned process cannot be sent it", ctx=e.ctx, run=r, key="arg:" + why)
    for e in I.evs("workerret"):
        why = unpicklable(I, e.ret)
        ctx.count("values sent back")
        if why:
            ctx.find("unpicklable", e.node, f"a worker process returns {why}, which cannot be sent back", ctx=e.ctx, run=r, key="ret:" + why)
    if not dispatched:
        return
    for e in I.evs("store", "mut"):
        loc = e.d.get("loc")
        if e.d.get("proc") and isinstance(loc, tuple) and len(loc) > 1 and loc[1] == "shm":
            ctx.find("shared-write", e.node, "a worker process writes into the shared buffer the other workers read", ctx=e.ctx, run=r)
    for e in I.evs("gwrite"):
        ctx.find("global-state", e.node, f"{e.what} is written {'in a worker' if e.d.get('proc') else 'before work is dispatched'}: a spawned process does not share it", ctx=e.ctx, run=r, key=e.what)
    for e in I.evs("unordered"):
        ctx.find("unordered", e.node, "results are taken in completion order, not in submission order", ctx=e.ctx, run=r)


def resources(ctx, r):
    I = r.I
    opens, fins, risks = {}, {}, {}
    for x in I.reslog:
        if x[0] == "open":
            opens[x[1]] = x
        elif x[0] == "close":
            fins.setdefault(x[1], set()).update(x[4])
    owned = lambda loc: opens[loc][3] == "shm" and isinstance(opens[loc][4].get("owner"), Ref)      # noqa: E731

    def attached(loc):
        a = opens[loc][4]
        return opens[loc][3] == "shm" and not owned(loc) and not true(a.get("created"))
    for x in I.reslog:
        if x[0] == "risk" and x[1] in opens and x[-1] == opens[x[1]][-1]:
            loc = x[1]
            if opens[loc][3] == "exitstack" or owned(loc) or attached(loc):
                continue
            if not set(x[3]) & fins.get(loc, set()) and loc not in risks:
                risks[loc] = x[2]
    for loc, x in opens.items():
        kind, node = x[3], x[2]
        what = LABEL.get(kind, kind)
        if kind == "exitstack":
            continue
        ctx.count("resources opened")
        if loc in risks:
            ctx.find("leak-on-exception", node, f"the {what} stays open when {I.proj.where(risks[loc])} raises: no with or finally releases it", run=r, key=f"{what}")
        if owned(loc) or attached(loc):
            continue
        c = I.heap.get(loc) if x[-1] == 0 else None
        if isinstance(c, ResC):
            if c.state != "closed":
                ctx.find("leak", node, f"the {what} is not released {'on every path' if c.state == 'maybe' else ''}", run=r, key=f"{what}")
            elif kind == "shm" and not true(c.attrs.get("unlinked")):
                ctx.find("leak", node, "the shared memory block is closed but never unlinked", run=r, key="unlink")
    for e in I.evs("resuse"):
        if "what" in e.d:
            ctx.find("use-after-release", e.node, f"use of {e.what}", ctx=e.ctx, run=r)
    for p, sh, f, v in cm.retfacts(r):
        for b in f.bad:
            if b[0] == "closed":
                ctx.find("use-after-release", cm.retnode(r), f"result{p} reads shared memory that was released at {b[1]}", run=r, key="shm")
    for e in I.evs("workerret"):
        for p, v in cm.walkv(I, e.ret):
            if isinstance(v, (Sc, Arr, Unk)) and any(b[0] == "closed" for b in I.facts(v).bad):
                ctx.find("use-after-release", e.node, "a worker returns values read from shared memory after releasing it", ctx=e.ctx, run=r, key="worker")
    for e in I.evs("resclose"):
        if e.how == "unlink" and e.loc in opens and attached(e.loc):
            ctx.find("use-after-release", e.node, "a block of shared memory is destroyed by a process that only attached to it", ctx=e.ctx, run=r, key="unlink")
    flight = {}
    for x in I.reslog:
        if x[0] == "dispatch":
            _, pool, node, name, lazy, vals, proc = x
            if lazy:
                flight[(pool, node)] = vals
        elif x[0] == "collect":
            flight.pop((x[1], x[3]), None)
        elif x[0] == "write":
            for loc, o in opens.items():
                if o[3] == "shm" and not attached(loc):
                    name = I.facts(o[4]["name"]).term
                    if x[1] == ("h", "shm", str(name)):
                        for (pool, at), vals in flight.items():
                            if any(mentions(I, v, name, loc) for v in vals):
                                ctx.find("written-in-flight", x[2], f"the shared block is written while work dispatched at {I.proj.where(at)} may already be reading it", run=r, key="flight")
        elif x[0] == "close":
            loc, node, how = x[1], x[2], x[3]
            if how != "nowait":
                for k in [k for k in flight if k[0] == loc]:
                    del flight[k]
            if loc in opens and opens[loc][3] == "shm" and not attached(loc):
                name = I.facts(opens[loc][4]["name"]).term
                for (pool, at), vals in flight.items():
                    if any(mentions(I, v, name, loc) for v in vals):
                        ctx.find("released-in-flight", at, f"work that reads a shared memory block may still run when the block is released at {I.proj.where(node)}", run=r, key="flight")


def true(v):
    return v is not None and isinstance(v, Sc) and tm.is_const(v.f.term) and v.f.term.args[0] is True
