"""C03: the seed argument controls every random draw."""
import ast
from .. import entries as E
from .. import terms as tm
from ..values import *   # noqa
from . import common as cm

ASSUMPTIONS = ["numpy generators with different seed values or spawned children are distinct streams",
               "an optimiser given an integer seed draws from its own legacy RandomState stream"]

AMBIENT = {"globalrng", "addr", "entropy", "io", "cpu"}


def exclusive(I, a, b):
    """can the two events not both happen in one call?"""
    ca, cb = chain(I, a), chain(I, b)
    for x, y in zip(ca, cb):
        if x is y:
            continue
        return excl_nodes(x, y)
    return False


def chain(I, e):
    out = []
    c = e.ctx
    while c:
        p, site = I.ctxinfo[c]
        out.append(I.proj.nodes[site] if isinstance(site, int) and site in I.proj.nodes else None)
        c = p
    return [x for x in out[::-1] if x is not None] + [e.node]


def excl_nodes(x, y):
    px, py = parents(x), parents(y)
    sy = {id(n): i for i, n in enumerate(py)}
    for i, n in enumerate(px):
        if id(n) in sy:
            if i == 0 or sy[id(n)] == 0:
                return False
            ax, ay = px[i - 1], py[sy[id(n)] - 1]
            if isinstance(n, ast.If):
                inb = lambda q: any(q is z for z in n.body)
                ino = lambda q: any(q is z for z in n.orelse)
                return inb(ax) and ino(ay) or ino(ax) and inb(ay)
            if isinstance(n, ast.IfExp):
                return {id(ax), id(ay)} == {id(n.body), id(n.orelse)}
            for first, other in ((ax, ay), (ay, ax)):
                if isinstance(first, ast.If) and getattr(first, "lineno", 0) < getattr(other, "lineno", 0) and ends(first, px[:i] if first is ax else py[:sy[id(n)]]):
                    return True
            return False
    return False


def ends(iff, path):
    """the arm of the `if` that contains the path always leaves the function"""
    arm = iff.body if any(p is s for s in iff.body for p in path) else iff.orelse
    return bool(arm) and isinstance(arm[-1], (ast.Return, ast.Raise))


def parents(n):
    out = []
    while n is not None:
        out.append(n)
        n = getattr(n, "_parent", None)
    return out


def check(ctx):
    for n, ent in E.ENTRIES.items():
        rand = "rand" in ent.tags or "boot" in ent.tags
        for sc in cm.scenarios(n, ctx.tier):
            r = ctx.run(n, sc)
            cm.must_return(ctx, r)
            I = r.I
            ctx.count("public calls x scenarios")
            for e in I.evs("rng"):
                if e.kind_ == "ambient" and not e.what.startswith(("random.", "secrets.", "uuid.", "os.urandom")):
                    continue
                ctx.find("ambient-randomness", e.node, f"{e.what}: not controlled by the seed argument", ctx=e.ctx, run=r)
            for p, sh, f, v in cm.retfacts(r):
                for l in sorted(f.deps & AMBIENT):
                    if l == "cpu":
                        continue
                    ctx.find("ambient-value", cm.retnode(r), f"result{p} depends on {NAMES[l]}", run=r, key=p + l)
            news = I.evs("rngnew")
            for e in news:
                ctx.count("generators created")
                if not rand:
                    ctx.find("unexpected-randomness", e.node, f"{e.what} created by a call that takes no seed", ctx=e.ctx, run=r)
                    continue
                if e.seed.deps & (AMBIENT - {"cpu"}):
                    ctx.find("unseeded-generator", e.node, f"{e.what} is seeded from {', '.join(NAMES[l] for l in sorted(e.seed.deps & AMBIENT))}", ctx=e.ctx, run=r)
                elif "arg:seed" not in e.seed.deps:
                    ctx.find("unseeded-generator", e.node, f"{e.what} is not seeded from the seed argument", ctx=e.ctx, run=r)
                elif isinstance(e.seed.term, tm.T) and collapses(e.seed.term):
                    ctx.find("seed-altered", e.node, f"{e.what} is seeded with a lossy function of the seed: {tm.show(e.seed.term)[:60]}", ctx=e.ctx, run=r)
                for idt in e.loopidx:
                    if not tm.contains(e.seed.term, lambda u: u is idt):
                        ctx.find("stream-restarted", e.node, f"{e.what} is created with the same seed in every iteration of a loop", ctx=e.ctx, run=r)
                        break
            for i, a in enumerate(news):
                for b in news[i + 1:]:
                    if a.what == b.what and a.seed.term is b.seed.term and (a.node is not b.node or a.ctx != b.ctx) and a.loc != b.loc \
                            and not exclusive(I, a, b):
                        ctx.find("stream-restarted", b.node, f"a second {b.what} with the same seed as the one at {I.proj.where(a.node)}: both produce the same numbers", ctx=b.ctx, run=r)
            for e in I.evs("rngcopy"):
                ctx.find("stream-restarted", e.node, "a generator is copied: the copy repeats the original's numbers", ctx=e.ctx, run=r)
            for e in I.evs("rngstate"):
                if e.how == "set":
                    ctx.find("stream-restarted", e.node, "a generator's state is set back", ctx=e.ctx, run=r)
            for e in I.evs("draw"):
                ctx.count("draw sites")
                if not rand:
                    ctx.find("unexpected-randomness", e.node, f"{e.method} drawn by a call that takes no seed", ctx=e.ctx, run=r)
                elif "arg:seed" not in e.rng.deps or e.rng.deps & (AMBIENT - {"cpu"}):
                    ctx.find("ambient-randomness", e.node, f"{e.method} is drawn from a generator that is not seeded from the seed argument", ctx=e.ctx, run=r)
            for e in I.evs("dispatch"):
                if e.process:
                    ctx.count("work dispatches")
                    cm.shared_streams(ctx, r, e)
            if rand:
                noseed(ctx, n, ent, sc)
                fs = cm.retfacts(r)
                if fs and not any("rng" in f.deps for _, _, f, _ in fs) and not sc.get("guess") and "boot" not in ent.tags:
                    ctx.find("no-draw", cm.retnode(r), "the result of a simulation does not depend on any random draw", run=r)
    ctx.need("public calls x scenarios", len(E.ENTRIES))
    ctx.need("generators created", 6)
    ctx.need("draw sites", 6)
    return ("Abstract interpretation of every public call, following each generator from the seed that creates it to every draw. "
            "Obligations: each generator's seed derives from the seed argument and from nothing ambient (entropy, clock, process id, "
            "address, hash, environment, global generators); a generator is not re-created with an iteration-independent seed inside a "
            "loop, nor twice with one seed on one path; generators are not copied, rewound or sent to two workers; calls without a "
            "seed argument neither create generators nor draw.")


def noseed(ctx, n, ent, sc):
    """a call that names no seed may use fresh entropy, but nothing else of the surroundings"""
    r = ctx.run(n, sc, lambda I, sc: {k: v for k, v in ent.build(I, sc).items() if k != "seed"}, True, "noseed")
    cm.must_return(ctx, r)
    ctx.count("calls without a seed")
    for e in r.I.evs("rng"):
        if e.kind_ == "ambient" and not e.what.startswith(("random.", "secrets.", "uuid.", "os.urandom")):
            continue
        ctx.find("ambient-randomness", e.node, f"{e.what}: not controlled by the seed argument", ctx=e.ctx, run=r)
    for e in r.I.evs("rngnew"):
        bad = e.seed.deps & (AMBIENT - {"cpu", "entropy"})
        if bad:
            ctx.find("unseeded-generator", e.node, f"without a seed, {e.what} is seeded from {', '.join(NAMES[l] for l in sorted(bad))}", ctx=e.ctx, run=r)
        elif tm.is_const(e.seed.term) and e.seed.dt != "N" and e.seed.term.args[0] is not None:
            ctx.find("unseeded-generator", e.node, f"without a seed, {e.what} always starts from {tm.show(e.seed.term)[:40]}", ctx=e.ctx, run=r)


NAMES = {"globalrng": "a global generator or the clock", "addr": "an object's address or a salted hash", "entropy": "operating-system entropy",
         "io": "the environment", "cpu": "the number of processors"}


def collapses(t):
    """seed terms that merge different seeds"""
    return t.op in ("mod", "floordiv", "bool", "bitand", "rshift", "sign", "lt", "le", "gt", "ge", "eq", "ne", "clip")
