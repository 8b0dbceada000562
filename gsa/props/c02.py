"""C02: no state survives a call."""
from .. import entries as E
from .. import terms as tm
from ..values import *   # noqa
from . import common as cm

ASSUMPTIONS = ["library functions outside the model's table keep no state that a later call can observe",
               "objects handed in by the caller (density, irt_model, generators) may carry their own state"]

KEPT = ("global", "memo", "default", "class")
EVICT = ("clear", "pop", "popitem", "move_to_end")


def atoms(fs):
    out = set()
    for f in fs:
        for a in tm.subterms(f.term).values():
            if a.op == "sym" and a.args and a.args[0] in ("opt", "arg", "in", "default", "dim"):
                out.add(a)
    return out


def labels(fs):
    return {d for f in fs for d in f.deps if d.split(":")[0] in ("opt", "arg")}


BARE = ("float", "tuple", "str", "repr", "tobytes", "bool", "int")


def covered(e):
    """does the key of a stored result determine it?"""
    have = set()
    for c in e.comps:
        t = c.term
        while t.op in BARE and len(t.args) == 1 and isinstance(t.args[0], tm.T):
            if t.op == "int" and c.dt not in ("i", "b"):
                break
            t = t.args[0]
        have.add(t)
        if c.itv[0] == c.itv[1]:
            have.add(t)
    need = atoms(e.vfs)
    miss = [a for a in need if a not in have and not (a.args[0] == "dim")]
    lab = labels(e.vfs) - labels(e.comps)
    return (not miss and not lab), ", ".join([tm.show(a) for a in miss] + sorted(lab))


def changeable(fn, args):
    """arguments given in this run whose default is an object that can be changed"""
    if not isinstance(fn, Fn):
        return ()
    a = fn.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    d = dict(zip(pos[len(pos) - len(fn.defs):], fn.defs))
    d.update(fn.kwdefs)
    return tuple(k for k, v in d.items() if k in args and isinstance(v, (Ref, Arr)))


def check(ctx):
    for n in E.ENTRIES:
        runs = [(sc, None) for sc in cm.scenarios_opts(n, ctx.tier)]
        while runs:
            sc, drop = runs.pop(0)
            if drop is None:
                r = ctx.run(n, sc)
                own = changeable(r.fn, r.args)
                if own and not any(d for _, d in runs):          # once more, leaving out what has a changeable default
                    runs.append((sc, own))
            else:
                r = ctx.run(n, sc, lambda I, sc: {k: v for k, v in E.ENTRIES[n].build(I, sc).items() if k not in drop}, True, "defaults")
            cm.must_return(ctx, r)
            I = r.I
            ctx.count("public calls x scenarios")
            ctx.count("writes classified by owner", I.stats["stores"])
            ctx.count("statements interpreted", len(I.stats["stmts"]))
            for e in I.evs("gwrite"):
                ctx.find("state-kept", e.node, f"the call changes {e.what}", ctx=e.ctx, run=r)
            bad = set()
            for e in I.evs("dictstore"):
                if e.owner[0] in KEPT:
                    ok, why = covered(e)
                    ctx.count("memo stores checked for a complete key")
                    if not ok:
                        bad.add(e.owner)
                        ctx.find("incomplete-memo-key", e.node, f"the stored result depends on {why}, which its key does not contain", ctx=e.ctx, run=r)
            stores = {(e.owner, e.node._id) for e in I.evs("dictstore")}
            memo_owners = {e.owner for e in I.evs("dictstore")}
            for e in I.evs("mut"):
                if e.owner[0] in KEPT:
                    if (e.owner, e.node._id) in stores:
                        continue
                    if e.owner in memo_owners and any(w in e.how for w in EVICT):
                        continue
                    what = "the memoised result of " if e.owner[0] == "memo" else ""
                    ctx.find("state-kept", e.node, f"{e.how}: changes {what}{e.owner[1]}, which outlives the call", ctx=e.ctx, run=r)
            for e in I.evs("memocall"):
                ctx.count("memoised calls checked")
                for v, sh, f in e.args:
                    if isinstance(v, Ref) and isinstance(I.c(v.loc), ObjC):
                        ctx.find("incomplete-memo-key", e.node, "a memoised function is keyed by an object's identity but reads its state", ctx=e.ctx, run=r)
                    if f is not None and f.trial:
                        pass
            for p, v in cm.walkv(I, r.ret):
                pass
            for p, o in owned_results(I, r.ret):
                ctx.find("result-is-state", cm.retnode(r), f"the result{p} is storage of {o[1]}, which later calls read", run=r, key=p + str(o))
    for n, sc, call in cm.density_clients():
        r = ctx.custom(n, sc, call)
        cm.must_return(ctx, r)
        ctx.count("uses of a density object")
        for e in r.I.evs("gwrite"):
            ctx.find("state-kept", e.node, f"the call changes {e.what}", ctx=e.ctx, run=r)
        for e in r.I.evs("mut"):
            if e.owner[0] in KEPT:
                ctx.find("state-kept", e.node, f"{e.how}: changes {e.owner[1]}, which outlives the call", ctx=e.ctx, run=r)
    ctx.need("public calls x scenarios", len(E.ENTRIES))
    return ("Abstract interpretation of every public call after interpreting all module bodies: every object that exists before the "
            "call (module variables, class attributes, default arguments, closures made at import) is labelled. Every assignment, "
            "deletion, in-place operation, setter call and global setting reachable from a public call is an obligation: its target "
            "must not carry such a label. A store into a module-level cache is admitted only when every argument and option the "
            "stored value depends on is a component of the key; the stored value must afterwards be neither modified nor returned.")


def owned_results(I, v, depth=0, path=""):
    if depth > 5 or v is None:
        return
    for x in I.alts(v):
        if isinstance(x, (Arr, Ref)):
            o = I.owner.get(x.loc)
            if o is not None and o[0] in KEPT:
                yield path, o
                continue
        if isinstance(x, Tup):
            for i, y in enumerate(x.items):
                yield from owned_results(I, y, depth + 1, f"{path}[{i}]")
        if isinstance(x, Ref):
            c = I.c(x.loc)
            if isinstance(c, DictC):
                for k, y in c.keys.items():
                    yield from owned_results(I, y, depth + 1, f"{path}[{k!r}]")
            elif isinstance(c, ListC):
                for y in (c.items if c.items is not None else [c.elem]):
                    yield from owned_results(I, y, depth + 1, path + "[*]")
