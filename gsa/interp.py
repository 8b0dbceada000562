"""Abstract interpreter for the package: flow- and context-sensitive, works on
the syntax tree only.  It never runs the analysed code and never enumerates
inputs: every value is a fact valid for all inputs of the entry scenario."""
import ast
from . import terms as tm
from .terms import mk, const, sym, T, has_sent, SENT
from .values import (F, cF, V, Sc, Arr, Tup, Ref, Fn, Ext, Meth, Mod, Cls, Partial, Prim, It, U, Unk,
                     ArrC, ListC, DictC, ObjC, RngC, ResC, vsame, TOP, INF, EMPTY)
from . import facts as fx
from .loader import locals_of, AnalysisBroken

MAXPASS = 10
MIXABLE = (ast.Call, ast.BinOp, ast.UnaryOp, ast.BoolOp, ast.Compare, ast.Subscript, ast.Attribute, ast.IfExp)
UNROLL = 16


class Scope:
    __slots__ = ("fid", "names", "parent", "mod", "glob", "nonl")

    def __init__(self, fid, names, parent, mod, glob=EMPTY, nonl=EMPTY):
        self.fid, self.names, self.parent, self.mod, self.glob, self.nonl = fid, names, parent, mod, glob, nonl

    def __eq__(self, o):
        return isinstance(o, Scope) and self.fid == o.fid

    def __hash__(self):
        return hash(self.fid)


class Frame:
    __slots__ = ("scope", "fn", "rets", "loops", "yields", "parent_loops", "cls", "cm")

    def __init__(self, scope, fn=None):
        self.scope, self.fn = scope, fn
        self.rets, self.loops, self.yields = [], [], None
        self.cls = None
        self.cm = None


class LoopC:
    __slots__ = ("breaks", "conts", "rets")

    def __init__(self):
        self.breaks, self.conts, self.rets = [], [], []


class Event:
    __slots__ = ("kind", "node", "ctx", "d")

    def __init__(self, kind, node, ctx, d):
        self.kind, self.node, self.ctx, self.d = kind, node, ctx, d

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)


class Budget(Exception):
    pass


BINOP = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.FloorDiv: "floordiv", ast.Mod: "mod",
         ast.Pow: "pow", ast.BitAnd: "bitand", ast.BitOr: "bitor", ast.BitXor: "bitxor", ast.MatMult: "matmul",
         ast.LShift: "lshift", ast.RShift: "rshift"}
CMPOP = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.Eq: "eq", ast.NotEq: "ne", ast.Is: "is",
         ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin"}


GIVEN = ("in", "arg", "opt", "dim", "default", "env", "glob")


def atpos(f, idt, pos):
    """the element of iteration idt, read at another position: its term with that position instead"""
    t = f.term
    if pos is idt or not tm.contains(t, lambda u: u is idt) or ofloop(t, idt):
        return f
    k = tm.num_const(pos)
    if k is not None and k < 0:
        # counted from the end: only where the position is itself used as an index
        bare = [False]
        seen = set()

        def w(u):
            if u is idt:
                bare[0] = True
            elif isinstance(u, tm.T) and u.id not in seen:
                seen.add(u.id)
                for i, a in enumerate(u.args):
                    if not (u.op == "ix" and i == 1 and a is idt):
                        w(a)
        w(t)
        if bare[0]:
            return f
    return f.w(term=tm.replace(t, {idt: pos}))


def ofloop(t, idt):
    """does the value mention what an earlier pass over this loop left behind?"""
    return tm.contains(t, lambda u: u.op == "sym" and u.args[0] in ("phi", "phitw") and len(u.args) > 1 and u.args[1] == idt.args[1:4])


def gathered(t, head):
    """is the value what was there before, combined with this pass in a way whose order does not matter?"""
    if t is head:
        return True
    if t.op == "join":
        return all(gathered(a, head) for a in t.args)
    for op in ("sub", "div"):
        if not tm.contains(mk(op, t, head), lambda u: u is head):
            return True
    if t.op in ("min2", "max2", "and", "or", "mul") and any(a is head for a in t.args):
        return not any(tm.contains(a, lambda u: u is head) for a in t.args if a is not head)
    return False


def madeinloop(t):
    return tm.contains(t, lambda u: u.op == "sym" and u.args and u.args[0] not in GIVEN)


class Interp:
    def __init__(self, proj, max_steps=600000):
        self.proj = proj
        self.heap = {}
        self.owner = {}
        self.frames = []
        self.tries = []
        self.events = {}
        self.ctxs = {}
        self.ctxinfo = [(None, None)]
        self.ctx = 0
        self.unroll = ()
        self.phase = "import"
        self.loaded = {}
        self.cbs = []                 # active optimiser callbacks
        self.loopidx = []             # active symbolic loop indices
        self.loopfresh = []           # objects created in the current iteration of each of them
        self.ctrl = []                # facts of enclosing conditions (control dependence)
        self.unmodelled = {}
        self.steps = 0
        self.max_steps = max_steps
        self.stats = {"functions": set(), "calls": 0, "stores": 0, "loops": 0, "branches": 0, "stmts": set()}
        self.locsite = {}
        self.reapply = {}
        self.top_raises = []
        self.dimdeps = {}
        self.pdims = set()
        self.procdepth = 0
        self.guards = []              # active with statements and try statements (serial numbers)
        self.fins = []                # those of them whose exit part is running
        self.serial = 0
        self.openres = []             # resources opened so far
        self.reslog = []              # what happened to them, in order
        self.cmbody = None
        self.quiet = 0
        self.hooks = {}
        self.touched = {}              # (storage, loop) -> changes made in that loop
        self.dimbad = {}               # marks of a size
        self.nzmask = {}               # positions of a mask: {term: (shape, mask)}
        self.listidx = False           # remember which iteration made which list element
        self.mix = None                # mix mode: {label: (node, ctx, operation)}
        self.codes, self.codebad = None, {}   # code mode: scales of terms, {label: (node, ctx, reason)}
        self.order = None              # order mode: {label: [terms of the values marked]}
        self.nimport = 0
        from . import npmodel, pymodel
        self.np = npmodel
        self.py = pymodel

    # ------------------------------------------------------------ utilities
    def ev(self, kind, node, key=None, **d):
        if self.quiet:
            return
        if self.procdepth:
            d.setdefault("proc", self.procdepth)
        k = (kind, getattr(node, "_id", None), self.ctx, self.unroll, self.phase, key)
        self.events.pop(k, None)
        self.events[k] = Event(kind, node, self.ctx, d)

    at = None
    params = None

    def curnode(self):
        return self.at

    def evs(self, *kinds):
        return [e for e in self.events.values() if e.kind in kinds]

    def unm(self, what, node):
        self.unmodelled.setdefault(what, set()).add(self.proj.where(node))

    def callchain(self, ctx):
        out = []
        while ctx:
            p, site = self.ctxinfo[ctx]
            out.append(self.proj.where(self.proj.nodes[site]) if isinstance(site, int) and site in self.proj.nodes else "?")
            ctx = p
        return out

    def newctx(self, site):
        k = (self.ctx, site)
        c = self.ctxs.get(k)
        if c is None:
            c = len(self.ctxinfo)
            self.ctxinfo.append(k)
            self.ctxs[k] = c
        return c

    def under(self, ctx, anc):
        while ctx:
            if ctx == anc:
                return True
            ctx = self.ctxinfo[ctx][0]
        return ctx == anc

    @property
    def frame(self):
        return self.frames[-1]

    # ----------------------------------------------------------- allocation
    def newloc(self, node, tag=""):
        loc = ("h", self.ctx, node._id if node is not None else -1, self.unroll, tag)
        if self.heap is not None and loc in self.heap:
            self._recency(loc)
        for cb in self.cbs:
            cb["fresh"].add(loc)
        for fs in self.loopfresh:
            fs.add(loc)
        return loc

    def pushloop(self, idt):
        self.loopidx.append(idt)
        for k in [k for k in self.touched if k[1] is idt]:
            del self.touched[k]
        self.loopfresh.append(set())

    def poploop(self):
        self.loopidx.pop()
        self.loopfresh.pop()

    def _recency(self, loc):
        """a re-executed allocation: variables still holding the old object keep a renamed copy"""
        old = loc + ("old",)
        s = self.frame.scope if self.frames else None
        hit = False
        h = self.heap
        while s is not None:
            for n in s.names:
                k = ("v", s.fid, n)
                v = h.get(k)
                if v is None:
                    continue
                if isinstance(v, Arr) and v.loc == loc:
                    h[k] = Arr(old, v.path)
                    hit = True
                elif isinstance(v, Ref) and v.loc == loc:
                    h[k] = Ref(old)
                    hit = True
                elif isinstance(v, Tup) and any(isinstance(x, (Arr, Ref)) and x.loc == loc for x in v.items):
                    h[k] = Tup([Arr(old, x.path) if isinstance(x, Arr) and x.loc == loc else
                                Ref(old) if isinstance(x, Ref) and x.loc == loc else x for x in v.items])
                    hit = True
            s = s.parent
        if hit:
            h[old] = h[loc]
            if loc in self.owner:
                self.owner[old] = self.owner[loc]
            else:
                self.owner.pop(old, None)

    def alloc(self, node, content, tag="", owner=None):
        loc = self.newloc(node, tag)
        self.heap[loc] = content
        self.owner.pop(loc, None)
        if owner is not None:
            self.owner[loc] = owner
        return loc

    def arr(self, node, shape, f, tag="", path=()):
        """a fresh array value; zero-dimensional results are scalars"""
        if shape == () and not path:
            return Sc(f)
        return Arr(self.alloc(node, ArrC(shape, f), tag), path)

    def list_(self, node, items=None, elem=None, n=None, kind="list", tag="l", idx=None):
        return Ref(self.alloc(node, ListC(items, elem, n, kind, idx), tag))

    def dict_(self, node, keys=None, tag="d"):
        return Ref(self.alloc(node, DictC(keys), tag))

    def c(self, loc):
        return self.heap.get(loc)

    # ---------------------------------------------------------------- reads
    def facts(self, v):
        """one F summarising a value (for influence)"""
        return self.rd(v)[1]

    def rd(self, v, depth=0):
        """(shape or None, F) of a value seen as an array"""
        if isinstance(v, Sc):
            return (), v.f
        if isinstance(v, Arr):
            c = self.heap.get(v.loc)
            if not isinstance(c, ArrC):
                return None, F(sym("lost", str(v.loc)))
            return self.np.view(self, c.shape, c.f, v.path)
        if isinstance(v, Unk):
            return None, v.f
        if v is None:
            return None, F(sym("none"))
        if depth > 6:
            return None, F(sym("deep"))
        if isinstance(v, Tup):
            return self._rd_items(v.items, depth)
        if isinstance(v, U):
            parts = [self.rd(x, depth + 1) for x in v.vals]
            sh, f = parts[0]
            for s2, f2 in parts[1:]:
                sh = self.join_shape(sh, s2, None)
                f = fx.joinF(f, f2)
            return sh, f
        if isinstance(v, Ref):
            c = self.heap.get(v.loc)
            if isinstance(c, ListC):
                if c.items is not None:
                    return self._rd_items(c.items, depth)
                if c.elem is None:
                    return (c.n if c.n is not None else const(0),), F(sym("empty"))
                s, f = self.rd(c.elem, depth + 1)
                n = c.n if c.n is not None else sym("len", str(v.loc))
                if s is None:
                    return None, f
                f = fx.shift(f, 1)
                return (n,) + s, f if c.idx is None else fx.reat(f, c.idx, ("ax", 0))
            if isinstance(c, DictC):
                f = F(sym("dict"))
                for k, x in c.keys.items():
                    f = self._mix(f, self.rd(x, depth + 1)[1])
                if c.rest is not None:
                    f = self._mix(f, self.rd(c.rest, depth + 1)[1])
                return None, f
            if isinstance(c, ObjC):
                f = F(sym("obj"))
                for k, x in c.attrs.items():
                    if not (isinstance(x, Ref) and x.loc == v.loc):
                        f = self._mix(f, self.rd(x, depth + 1)[1])
                return None, f
            if isinstance(c, RngC):
                return None, c.f
            return None, F(sym("ref"))
        if isinstance(v, It):
            if v.items is not None:
                return self._rd_items(v.items, depth)
            if v.elem is not None:
                idx = Sc(F(sym("k"), (0, INF), "i"))
                s, f = self.rd(v.elem(idx), depth + 1)
                f = f.w(deps=f.deps | v.deps)
                if s is None or v.n is None:
                    return None, f
                return (v.n,) + s, fx.shift(f, 1)
            return None, F(sym("it"), deps=v.deps)
        if isinstance(v, Prim):
            if v.kind == "ma":
                return v.data["shape"], v.data["f"]
            if v.kind == "seed":
                return None, v.data["f"]
            f = F(sym("prim", v.kind), deps=v.data.get("deps", EMPTY))
            for x in v.data.values():
                if isinstance(x, V):
                    f = self._mix(f, self.rd(x, depth + 1)[1])
                elif isinstance(x, F):
                    f = self._mix(f, x)
            return None, f
        if isinstance(v, Partial):
            f = F(sym("partial"))
            for x in list(v.args) + list(v.kw.values()) + [v.fn]:
                f = self._mix(f, self.rd(x, depth + 1)[1])
            return None, f
        if isinstance(v, Fn):
            return None, F(sym("fn", v.qual))
        if isinstance(v, Ext):
            return None, F(sym("ext", v.name))
        return None, F(sym(type(v).__name__))

    def _mix(self, f, g):
        return F(f.term, TOP, "?", f.deps | g.deps, fx.join_pl([f.pl, g.pl]), None, f.bad | g.bad, f.trial | g.trial)

    def _rd_items(self, items, depth):
        n = const(len(items))
        if not items:
            return (n,), F(sym("empty"), TOP, "?")
        parts = [self.rd(x, depth + 1) for x in items]
        sh = parts[0][0]
        for s, _ in parts[1:]:
            if s is None or sh is None or len(s) != len(sh):
                sh = None
            elif s != sh:
                sh = self.join_shape(sh, s, None)
        f = parts[0][1]
        if len(parts) > 1:
            t = mk("pack", *[p[1].term for p in parts])
            for _, g in parts[1:]:
                f = fx.joinF(f, g, t)
            f = f.w(term=t if not all(p[1].term is parts[0][1].term for p in parts) else parts[0][1].term)
        if sh is None:
            return None, f
        return (n,) + sh, fx.shift(f, 1)

    def join_shape(self, a, b, cond):
        if a == b:
            return a
        if a is None or b is None or len(a) != len(b):
            return None
        return tuple(x if x is y or tm.same(x, y) else
                     (mk("ite", cond, x, y) if cond is not None else mk("join", *sorted((x, y), key=lambda q: q.id)))
                     for x, y in zip(a, b))

    # ---------------------------------------------------------------- joins
    def joinV(self, a, b, cond=None, phi=None, widen=False, extra=None):
        """least upper bound of two values.  cond: F of the deciding condition,
        phi: term prefix naming merged numbers (loop heads)"""
        if a is b or a is None:
            return b
        if b is None:
            return a
        if isinstance(a, (Sc, Unk)) and isinstance(b, (Sc, Unk)):
            if a.f.same(b.f):
                return a
            if isinstance(a, Sc) and isinstance(b, Sc) and (a.f.dt == "N") != (b.f.dt == "N") and phi is None:
                return U([self._infl(a, cond), self._infl(b, cond)])
            if isinstance(a, Sc) and isinstance(b, Sc) and (a.f.dt == "U") != (b.f.dt == "U") and phi is None:
                return U([self._infl(a, cond), self._infl(b, cond)])
            f = self.joinFF(a.f, b.f, cond, phi, widen, extra)
            return (Sc if isinstance(a, Sc) and isinstance(b, Sc) else Unk)(f)
        if vsame(a, b):
            return a
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.joinV(x, y, cond, (phi + (i,)) if phi else None, widen, extra)
                        for i, (x, y) in enumerate(zip(a.items, b.items))])
        if isinstance(a, Unk):
            return Unk(self._infl2(a.f, b, cond))
        if isinstance(b, Unk):
            return Unk(self._infl2(b.f, a, cond))
        vals = []
        for v in (a.vals if isinstance(a, U) else (a,)) + (b.vals if isinstance(b, U) else (b,)):
            for i, w in enumerate(vals):
                if vsame(v, w):
                    break
                if isinstance(v, Sc) and isinstance(w, Sc) and (v.f.dt == "N") == (w.f.dt == "N"):
                    vals[i] = self.joinV(w, v, cond, phi, widen, extra)
                    break
            else:
                vals.append(self._infl(v, cond))
        if len(vals) == 1:
            return vals[0]
        if len(vals) > 6:
            f = self.facts(vals[0])
            for v in vals[1:]:
                f = self._mix(f, self.facts(v))
            return Unk(f.w(term=sym("many", str(phi))))
        return U(vals)

    def _infl(self, v, cond):
        if cond is None or not isinstance(v, Sc):
            return v
        f = v.f
        if cond.deps <= f.deps and cond.pl is None and cond.bad <= f.bad and cond.trial <= f.trial:
            return v
        return Sc(f.w(deps=f.deps | cond.deps, pl=fx.join_pl([f.pl, cond.pl]), bad=f.bad | self.cbad(cond), trial=f.trial | cond.trial))

    def cbad(self, cond):
        """labels a condition passes to what it selects"""
        out = set()
        for l in cond.bad:
            if l[0] in ("offset", "scale"):
                out.add(("contrib", l[1] + ": decides a branch"))
            elif l[0] in fx.PARTS:
                continue
            else:
                out.add(l)
        for s, (t, ti) in cond.miss.items():
            if has_sent(t) and ti not in ((0, 0), (1, 1)):
                out.add(("sent", "the missing-response placeholder decides a branch"))
        return frozenset(out)

    def _infl2(self, f, other, cond):
        return self._mix(self._mix(f, self.facts(other)), cond or f)

    def joinFF(self, a, b, cond, phi, widen, extra=None):
        if phi is not None:
            t = sym("phi", *phi)
            f = self.phiF(a, b, t, phi)
            if widen:
                lo, hi = f.itv
                alo, ahi = a.itv
                f = f.w(itv=(lo if lo >= alo else (0 if lo >= 0 else -INF), hi if hi <= ahi else (1 if hi <= 1 else INF)))
        elif cond is not None:
            t = mk("ite", cond.term, a.term, b.term)
            f = fx.joinF(a, b, t)
            if a.term is b.term:
                f = f.w(term=a.term)
        else:
            f = fx.joinF(a, b)
        if cond is not None:
            f = f.w(deps=f.deps | cond.deps, pl=fx.join_pl([f.pl, cond.pl]), bad=f.bad | self.cbad(cond),
                    trial=f.trial | cond.trial)
        if extra is not None:
            f = f.w(deps=f.deps | extra.deps, pl=fx.join_pl([f.pl, extra.pl]), bad=f.bad | extra.bad)
        return f

    def phiF(self, a, b, t, phi):
        """join of a loop-head value with the value flowing back; names it t"""
        miss = {}
        for s in list(a.miss) + [s for s in b.miss if s not in a.miss]:
            x, y = fx.tw(a, s), fx.tw(b, s)
            if x[0] is a.term and y[0] is b.term:
                continue
            h = fx.hull(x[1], y[1])
            if x[0] is y[0]:
                miss[s] = (x[0], h)
            elif has_sent(x[0]) or has_sent(y[0]):
                miss[s] = (mk("phiS", tm.SENT, t, const(str(s))), TOP)
            else:
                miss[s] = (sym("phitw", t, str(s)), TOP)
        term = a.term if a.term is b.term else t
        return F(term, fx.hull(a.itv, b.itv), fx.join_dt(a.dt, b.dt), a.deps | b.deps, fx.join_pl([a.pl, b.pl]), miss,
                 a.bad | b.bad, a.trial | b.trial, a.props & b.props)

    def joinC(self, a, b, cond=None, phi=None, widen=False, extra=None):
        if a is b:
            return a
        if a.same(b):
            return a
        if type(a) is not type(b):
            return b
        if isinstance(a, ArrC):
            sh = self.join_shape(a.shape, b.shape, cond.term if cond is not None else None)
            if phi is not None and sh is not None and a.shape != sh:
                sh = tuple(d if d is e else sym("phi", *phi, "dim", i) for i, (d, e) in enumerate(zip(a.shape, sh)))
            f = a.f if a.f.same(b.f) else self.joinFF(a.f, b.f, cond, phi, widen, extra)
            return ArrC(sh, f)
        if isinstance(a, ListC):
            if a.items is not None and b.items is not None and len(a.items) == len(b.items):
                return ListC([self.joinV(x, y, cond, phi + (i,) if phi else None, widen, extra)
                              for i, (x, y) in enumerate(zip(a.items, b.items))], kind=a.kind)
            ea, eb = self.elem_of(a), self.elem_of(b)
            e = self.joinV(ea, eb, cond, phi + ("e",) if phi else None, widen, extra)
            na = a.n if a.items is None else const(len(a.items))
            nb = b.n if b.items is None else const(len(b.items))
            n = na if na is nb else (sym("phi", *phi, "n") if phi else
                                     mk("ite", cond.term, na, nb) if cond is not None and na is not None and nb is not None else None)
            return ListC(None, e, n, a.kind, a.idx if a.idx is b.idx else None)
        if isinstance(a, DictC):
            keys, maybe = {}, set(a.maybe | b.maybe)
            for k in list(a.keys) + [k for k in b.keys if k not in a.keys]:
                if k in a.keys and k in b.keys:
                    keys[k] = self.joinV(a.keys[k], b.keys[k], cond, phi + (k,) if phi else None, widen, extra)
                else:
                    keys[k] = a.keys.get(k, b.keys.get(k))
                    maybe.add(k)
            return DictC(keys, maybe, self.joinV(a.rest, b.rest, cond, phi + ("r",) if phi else None, widen, extra),
                         self.joinV(a.restkey, b.restkey, cond, phi + ("rk",) if phi else None, widen, extra))
        if isinstance(a, ObjC):
            at = {}
            for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
                at[k] = self.joinV(a.attrs.get(k), b.attrs.get(k), cond, phi + (k,) if phi else None, widen, extra)
            return ObjC(a.cls, at)
        if isinstance(a, RngC):
            return RngC(a.kind, self.joinFF(a.f, b.f, cond, phi, False, None), max(a.draws, b.draws))
        if isinstance(a, ResC):
            at = {k: self.joinV(a.attrs.get(k), b.attrs.get(k), cond) for k in set(a.attrs) | set(b.attrs)}
            return ResC(a.kind, a.state if a.state == b.state else "maybe", at)
        return a

    def elem_of(self, c):
        if c.items is None:
            return c.elem
        e = None
        for x in c.items:
            e = x if e is None else self.joinV(e, x)
        return e

    def join_heaps(self, h1, h2, cond=None):
        if h1 is None:
            return h2
        if h2 is None:
            return h1
        if h1 is h2:
            return h1
        out = dict(h1)
        for k, b in h2.items():
            a = h1.get(k)
            if a is b:
                continue
            if a is None:
                out[k] = self.born(b, cond)
                continue
            if k[0] == "pc":
                out[k] = tuple(x for x in a if x in b)
                continue
            out[k] = self.joinV(a, b, cond) if k[0] != "h" else self.joinC(a, b, cond)
        if cond is not None and cond.deps:
            for k, a in h1.items():
                if k not in h2:
                    out[k] = self.born(a, cond)
        return out

    def born(self, c, cond):
        """an array made on one side of a branch only: what decides the branch decides which array is used"""
        if cond is not None and isinstance(c, ArrC) and not cond.deps <= c.f.deps:
            return ArrC(c.shape, c.f.w(deps=c.f.deps | cond.deps))
        return c

    def pc(self, heap=None):
        """conditions known to hold on this path: ((term, polarity), ...)"""
        h = heap if heap is not None else self.heap
        return h.get(("pc",), ()) if h is not None else ()

    def assume(self, f, pol):
        if self.heap is not None and f is not None and not tm.is_const(f.term):
            old = self.heap.get(("pc",), ())
            if (f.term, pol) not in old:
                self.heap[("pc",)] = old + ((f.term, pol),)

    # -------------------------------------------------------------- modules
    def load(self, name):
        if name in self.loaded:
            return
        mi = self.proj.mods.get(name)
        if mi is None:
            return
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.loaded:
                return
        self.loaded[name] = True
        save = (self.ctx, self.unroll, self.cbs, self.ctrl)
        self.ctx, self.unroll, self.cbs, self.ctrl = self.newctx(("import", name)), (), [], []
        fr = Frame(Scope(("mod", name), EMPTY, None, name))
        self.frames.append(fr)
        self.heap[("g", name, "__name__")] = Sc(cF(name))
        for s in mi.tree.body:
            self.stmt(s)
            if self.heap is None:
                raise AnalysisBroken(f"module {name} always raises while being imported")
        self.frames.pop()
        self.ctx, self.unroll, self.cbs, self.ctrl = save
        if "." in name:
            p, c = name.rsplit(".", 1)
            self.heap.setdefault(("g", p, c), Mod(name))

    def modattr(self, name, attr):
        v = self.heap.get(("g", name, attr))
        if v is None and f"{name}.{attr}" in self.proj.mods:
            self.load(f"{name}.{attr}")
            v = Mod(f"{name}.{attr}")
        return v

    def do_import(self, s):
        mod = self.frame.scope.mod
        if isinstance(s, ast.Import):
            for al in s.names:
                top = al.name.split(".")[0]
                if al.name in self.proj.mods or top in self.proj.mods:
                    self.load(al.name)
                    v = Mod(al.name if al.asname else top)
                else:
                    v = Ext(al.name if al.asname else top)
                self.setname(al.asname or top, v, s)
            return
        base = s.module or ""
        if s.level:
            mi = self.proj.mods[mod]
            parts = mod.split(".")
            if not mi.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        internal = base in self.proj.mods
        if internal:
            self.load(base)
        for al in s.names:
            if al.name == "*":
                if internal:
                    allv = self.heap.get(("g", base, "__all__"))
                    names = None
                    if isinstance(allv, Ref) and isinstance(self.c(allv.loc), ListC):
                        names = [x.f.term.args[0] for x in (self.c(allv.loc).items or ()) if isinstance(x, Sc) and tm.is_const(x.f.term)]
                    if names is None:
                        names = [k[2] for k in list(self.heap) if k[0] == "g" and k[1] == base and not k[2].startswith("_")]
                    for n in names:
                        v = self.modattr(base, n)
                        if v is not None:
                            self.setname(n, v, s)
                continue
            if internal:
                v = self.modattr(base, al.name)
                if v is None:
                    if self.phase == "import" and len(self.frames) == 1 or True:
                        v = Unk(F(sym("import", base, al.name)))
                        self.ev("badimport", s, name=f"{base}.{al.name}")
            else:
                v = Ext(self.py.canon(base + "." + al.name))
            self.setname(al.asname or al.name, v, s)

    # ---------------------------------------------------------------- names
    def lookup(self, name, node=None):
        s = self.frame.scope
        if name in s.glob:
            return self._global(s.mod, name)
        first = True
        while s is not None:
            if name in s.names and not (first and name in s.nonl):
                v = self.heap.get(("v", s.fid, name))
                if v is not None:
                    return v
                if first and s.fid[0] != "cls":
                    self.ev("unbound", node, name=name) if node is not None else None
                    return Unk(F(sym("unbound", name)))
            first = False
            if s.parent is None:
                break
            s = s.parent
        return self._global(s.mod, name)

    def _global(self, mod, name):
        v = self.heap.get(("g", mod, name))
        if v is not None:
            return v
        return self.py.builtin(name)

    def setname(self, name, v, node):
        s = self.frame.scope
        if self.ctrl and isinstance(v, Sc):
            pass
        if s.fid[0] == "mod":
            self.heap[("g", s.mod, name)] = v
            return
        if name in s.glob:
            if self.phase != "import":
                self.ev("gwrite", node, what=f"module variable {s.mod}.{name}")
            self.heap[("g", s.mod, name)] = v
            return
        if name in s.nonl:
            p = s.parent
            while p is not None:
                if name in p.names:
                    if self.cbs:
                        v = self.mark_trial_var(("v", p.fid, name), v, node, name)
                    if self.phase != "import" and p.fid[0] == "fn" and p.fid[1] < self.nimport:
                        self.ev("gwrite", node, key=name, what=f"variable {name} kept by a function object between calls")
                    self.heap[("v", p.fid, name)] = v
                    return
                p = p.parent
        self.heap[("v", s.fid, name)] = v

    def mark_trial_var(self, key, v, node, name):
        cb = self.cbs[-1]
        if key in cb["entry"] and isinstance(v, Sc):
            return Sc(v.f.w(trial=v.f.trial | {(cb["site"], node._id, name)}))
        return v

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            if self.heap is None:
                return
            self.stmt(s)

    def stmt(self, s):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget(f"analysis budget exhausted at {self.proj.where(s)}")
        if self.phase != "import":
            self.stats["stmts"].add(s._id)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unm("statement " + type(s).__name__, s)
            return
        self.at = s
        m(s)

    def s_Expr(self, s):
        self.expr(s.value)

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_Import(self, s):
        self.do_import(s)

    s_ImportFrom = s_Import

    def s_FunctionDef(self, s):
        fn = self.mkfn(s, s.name)
        v = fn
        for d in reversed(s.decorator_list):
            dv = self.expr(d)
            if self.heap is None:
                return
            v = self.call(dv, [v], {}, d, decorator=True)
        self.setname(s.name, v, s)

    def mkfn(self, node, name):
        a = node.args
        defs = [self.expr(d) for d in a.defaults]
        kwd = {x.arg: self.expr(d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        for x, v in zip((a.posonlyargs + a.args)[len(a.posonlyargs + a.args) - len(defs):], defs):
            if isinstance(v, (Ref, Arr)):
                self.owner[v.loc] = ("default", f"{name}.{x.arg}")
        for k, v in kwd.items():
            if isinstance(v, (Ref, Arr)):
                self.owner[v.loc] = ("default", f"{name}.{k}")
        sc = self.frame.scope
        parent = None
        p = sc
        while p is not None and p.fid[0] in ("cls",):
            p = p.parent
        if p is not None and p.fid[0] != "mod":
            parent = p
        q = self.proj.mods[sc.mod].name + "." + (self.enclosing_qual(node))
        return Fn(node, sc.mod, parent, None, defs, kwd, q)

    def enclosing_qual(self, node):
        from .loader import enclosing
        return enclosing(node)

    def s_ClassDef(self, s):
        bases = [self.expr(b) for b in s.bases]
        for k in s.keywords:
            self.expr(k.value)
        sc = self.frame.scope
        names = set()
        for n in s.body:
            for t in ast.walk(n):
                if isinstance(t, (ast.FunctionDef, ast.ClassDef)):
                    names.add(t.name)
                elif isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                    names.add(t.id)
                elif isinstance(t, (ast.Import, ast.ImportFrom)):
                    for al in t.names:
                        names.add((al.asname or al.name).split(".")[0])
        fid = ("cls", self.ctx, s._id)
        fr = Frame(Scope(fid, frozenset(names), sc if sc.fid[0] != "mod" else Scope(("mod", sc.mod), EMPTY, None, sc.mod), sc.mod))
        self.frames.append(fr)
        self.block(s.body)
        self.frames.pop()
        if self.heap is None:
            return
        attrs = {}
        for n in names:
            v = self.heap.pop(("v", fid, n), None)
            if v is not None:
                attrs[n] = v
                if isinstance(v, (Ref, Arr)):
                    self.owner[v.loc] = ("class", f"{s.name}.{n}")
        loc = self.alloc(s, ObjC(None, attrs), "cls", ("class", s.name))
        v = Cls(s, sc.mod, loc, sc.mod + "." + s.name, bases)
        for d in reversed(s.decorator_list):
            dv = self.expr(d)
            v2 = self.call(dv, [v], {}, d, decorator=True)
            v = v2 if isinstance(v2, Cls) else v
        self.setname(s.name, v, s)

    def s_Return(self, s):
        v = self.expr(s.value) if s.value is not None else Sc(cF(None))
        if self.heap is None:
            return
        self.frame.rets.append((self.heap, self.ctl(v)))
        for lc in self.frame.loops:
            lc.rets.append(self.heap)
        self.heap = None

    def ctl(self, v):
        return v

    def s_Raise(self, s):
        v = self.expr(s.exc) if s.exc is not None else None
        if self.heap is None:
            return
        self.raise_(s, self.py.exc_name(self, v))

    def raise_(self, node, what, explicit=True):
        if self.openres and explicit:
            self.risk(node)
        self.ev("raise", node, what=what, explicit=explicit, ctrl=tuple(f.term for f in self.ctrl), ctrlf=tuple(self.ctrl))
        h = self.heap
        self.heap = None
        if self.tries:
            self.tries[-1].append((h, what))
        else:
            self.top_raises.append((node, what))

    def may_raise(self, node, what):
        """the exceptional path of an operation that usually succeeds"""
        if self.tries and self.heap is not None:
            self.tries[-1].append((dict(self.heap), what))

    def s_Assert(self, s):
        c = self.expr(s.test)
        if self.heap is None:
            return
        t, f = self.truth(c)
        if t is True:
            return
        if t is False:
            self.raise_(s, "AssertionError")
            return
        keep = self.heap
        self.heap = dict(keep)
        self.refine(s.test, False)
        if self.heap is not None:
            self.raise_(s, "AssertionError")
        self.heap = keep
        self.refine(s.test, True)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                sc = self.frame.scope
                self.heap.pop(("v", sc.fid, t.id), None)
            elif isinstance(t, ast.Subscript):
                o = self.expr(t.value)
                k = self.expr(t.slice) if not isinstance(t.slice, (ast.Slice, ast.Tuple)) else None
                for r in self.alts(o):
                    if isinstance(r, Ref):
                        self.touch(r, s, "del item")
                        c = self.c(r.loc)
                        if isinstance(c, DictC) and isinstance(k, Sc) and tm.is_const(k.f.term):
                            n = dict(c.keys)
                            n.pop(k.f.term.args[0], None)
                            self.heap[r.loc] = DictC(n, c.maybe, c.rest, c.restkey)
                        elif isinstance(c, ListC):
                            self.heap[r.loc] = ListC(None, self.elem_of(c), sym("dellen", s._id, self.ctx), c.kind)
            elif isinstance(t, ast.Attribute):
                o = self.expr(t.value)
                for r in self.alts(o):
                    if isinstance(r, Ref):
                        self.touch(r, s, "del attribute")
                    elif isinstance(r, (Mod, Cls, Ext, Fn)):
                        self.ev("gwrite", s, what=f"attribute {t.attr} of {r}")

    def alts(self, v):
        return v.vals if isinstance(v, U) else (v,)

    # ------------------------------------------------------------ assignment
    def s_Assign(self, s):
        v = self.expr(s.value)
        if self.heap is None:
            return
        for t in s.targets:
            self.assign(t, v, s)
            if self.heap is None:
                return

    def s_AnnAssign(self, s):
        if s.value is not None:
            v = self.expr(s.value)
            if self.heap is not None:
                self.assign(s.target, v, s)

    def assign(self, t, v, node):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, node)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value)
            if self.heap is not None:
                self.setattr(o, t.attr, v, node)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value)
            if self.heap is None:
                return
            self.setitem(o, t.slice, v, t)

    def unpack(self, targets, v, node):
        n = len(targets)
        star = next((i for i, t in enumerate(targets) if isinstance(t, ast.Starred)), None)
        items = self.items_of(v)
        if items is not None:
            if star is None:
                if len(items) == n:
                    for t, x in zip(targets, items):
                        self.assign(t, x, node)
                    return
                self.raise_(node, "ValueError: unpack", explicit=False)
                return
            k = len(items) - (n - 1)
            vals = list(items[:star]) + [self.list_(node, list(items[star:star + k]), tag="star")] + list(items[star + k:])
            for t, x in zip(targets, vals):
                self.assign(t, x, node)
            return
        for i, t in enumerate(targets):
            if i == star:
                self.assign(t, Unk(self.facts(v)), node)
            else:
                self.assign(t, self.item_at(v, Sc(cF(i)), node), node)

    def items_of(self, v):
        """exact elements of a finite iterable, else None"""
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, It):
            return list(v.items) if v.items is not None else None
        if isinstance(v, Ref):
            c = self.c(v.loc)
            if isinstance(c, ListC) and c.items is not None:
                return list(c.items)
            if isinstance(c, DictC) and c.rest is None and not c.maybe:
                return [Sc(cF(k)) for k in c.keys]
            return None
        if isinstance(v, Sc) and v.f.dt == "U" and tm.is_const(v.f.term) and len(v.f.term.args[0]) <= UNROLL:
            return [Sc(cF(ch)) for ch in v.f.term.args[0]]
        if isinstance(v, Arr):
            sh, f = self.rd(v)
            if sh and len(sh) >= 1 and tm.num_const(sh[0]) is not None and 0 <= tm.num_const(sh[0]) <= 8:
                return [self.item_at(v, Sc(cF(int(i))), None) for i in range(int(tm.num_const(sh[0])))]
        return None

    def item_at(self, v, idx, node):
        """v[idx] for any iterable"""
        if isinstance(v, Arr):
            return self.np.index(self, v, [("i", idx)], node)
        if isinstance(v, U):
            r = None
            for x in v.vals:
                r = self.joinV(r, self.item_at(x, idx, node))
            return r
        k = tm.num_const(idx.f.term) if isinstance(idx, Sc) else None
        if isinstance(v, Tup):
            if k is not None and -len(v.items) <= k < len(v.items):
                return v.items[int(k)]
            if k is not None and v.items:
                self.raise_(node, "IndexError", explicit=False)
                return Unk(F(sym("dead")))
            r = None
            for x in v.items:
                r = self.joinV(r, x)
            return r if r is not None else Unk(F(sym("emptyitem")))
        if isinstance(v, It):
            if v.items is not None:
                return self.item_at(Tup(v.items), idx, node)
            return v.elem(idx) if v.elem is not None else Unk(F(sym("item"), deps=v.deps))
        if isinstance(v, Ref):
            c = self.c(v.loc)
            if isinstance(c, ListC):
                if c.items is not None:
                    if k is not None and -len(c.items) <= k < len(c.items):
                        return c.items[int(k)]
                    if k is not None and c.items:
                        self.raise_(node, "IndexError", explicit=False)
                        return Unk(F(sym("dead")))
                    return self.elem_at(self.elem_of(c), idx, c.idx) or Unk(F(sym("emptyitem")))
                return self.elem_at(c.elem, idx, c.idx) or Unk(F(sym("emptyitem")))
            if isinstance(c, ObjC):
                g = self.getattr_raw(v, "__getitem__")
                if g is not None:
                    return self.call(g, [idx], {}, node)
        return Unk(self._unkf("item", [v, idx], node))

    def elem_at(self, e, idx, at=None):
        """element of a summarised list at a symbolic position: rename the list's own position symbol"""
        if e is None:
            return None
        moved = False
        if at is not None and isinstance(idx, Sc):
            if isinstance(e, (Sc, Unk)):
                f = fx.reat(e.f, at, ("at", idx.f.term))
                g = atpos(f, at, idx.f.term)
                moved = g is not f
                e = type(e)(g)
            elif isinstance(e, Arr) and self.heap is not None and isinstance(self.heap.get(e.loc), ArrC):
                c = self.heap[e.loc]
                f = atpos(fx.reat(c.f, at, ("at", idx.f.term)), at, idx.f.term)
                if f is not c.f:
                    loc = e.loc[:4] + (f"{e.loc[4]}@at{idx.f.term.id}",)
                    self.heap[loc] = ArrC(c.shape, f)
                    e = Arr(loc, e.path)
            elif isinstance(e, Prim) and e.kind == "interp":
                e = Prim("interp", **dict(e.data, **{q: atpos(fx.reat(e.data[q], at, ("at", idx.f.term)), at, idx.f.term) for q in ("x", "y")}))
        if isinstance(e, Sc) and not moved:
            t = e.f.term
            if t.op != "const":
                return Sc(e.f.w(term=mk("lat", t, idx.f.term)))
        if isinstance(e, Arr) and not e.path and self.heap is not None:
            c = self.heap.get(e.loc)
            if isinstance(c, ArrC) and c.f.term.op == "chunk" and len(c.f.term.args) == 2 and isinstance(idx, Sc):
                # the pieces of a split array differ: say which one this is
                loc = e.loc[:4] + ("chunk@%d" % idx.f.term.id,)
                self.heap[loc] = ArrC(c.shape, c.f.w(term=mk("chunk", *c.f.term.args, idx.f.term), deps=c.f.deps | idx.f.deps))
                return Arr(loc)
        return e

    def _unkf(self, what, vs, node):
        deps, pl, bad, tr = EMPTY, None, EMPTY, EMPTY
        ts = []
        for v in vs:
            f = self.facts(v)
            deps |= f.deps
            pl = fx.join_pl([pl, "MIX" if f.pl is not None else None])
            bad |= f.bad
            tr |= f.trial
            ts.append(f.term)
        return F(mk("call", what, *ts), TOP, "?", deps, pl, None, bad, tr)

    def setattr(self, o, name, v, node):
        for r in self.alts(o):
            if isinstance(r, Ref):
                c = self.c(r.loc)
                if isinstance(c, ObjC):
                    self.touch(r, node, f"attribute {name}")
                    at = dict(c.attrs)
                    if isinstance(o, U) and name in at:
                        at[name] = self.joinV(at[name], v)
                    else:
                        at[name] = v
                    if self.cbs and isinstance(v, Sc):
                        cb = self.cbs[-1]
                        if r.loc in cb["entry"] and r.loc not in cb["fresh"]:
                            at[name] = Sc(v.f.w(trial=v.f.trial | {(cb["site"], node._id, name)}))
                    self.heap[r.loc] = ObjC(c.cls, at)
                elif isinstance(c, ResC):
                    pass
            elif isinstance(r, Arr):
                if name == "shape":
                    pass
                elif name == "flat":
                    self.np.store_all(self, r, v, node)
                else:
                    self.touch(r, node, f"attribute {name}")
            elif isinstance(r, (Mod, Ext, Cls, Fn, Meth)):
                if self.phase != "import":
                    self.ev("gwrite", node, key=name, what=f"attribute {name} of {self.describe(r)}")
                if isinstance(r, Mod):
                    self.heap[("g", r.name, name)] = v
                if isinstance(r, Cls):
                    c = self.c(r.loc)
                    at = dict(c.attrs)
                    at[name] = v
                    self.heap[r.loc] = ObjC(None, at)
                if isinstance(r, Fn):
                    self.heap[("g", "fnattr:" + r.qual, name)] = v

    def describe(self, v):
        if isinstance(v, Mod):
            return f"module {v.name}"
        if isinstance(v, Cls):
            return f"class {v.qual}"
        if isinstance(v, Fn):
            return f"function {v.qual}"
        if isinstance(v, Ext):
            return v.name
        return type(v).__name__

    def touch(self, r, node, how):
        """record a change of the storage behind r"""
        if self.loopidx:
            self.touched.setdefault((r.loc, self.loopidx[-1]), set()).add((node._id, how, len(self.ctrl)))
            for q in self.loopidx[:-1]:
                self.touched.setdefault((r.loc, q), set()).add((node._id, how, None))
        self.stats["stores"] += 1
        own = self.owner.get(r.loc)
        if self.procdepth and r.loc[1] != "shm":
            own = None                 # a worker process changes its own unpickled copy
        if own is not None and self.phase != "import":
            self.ev("mut", node, key=(own, how), owner=own, how=how)
        for cb in self.cbs:
            cb["touched"].add(r.loc)

    def setitem(self, o, slc, v, node):
        if self.openres and isinstance(o, (Arr, Unk)):
            self.risk(node)
        for r in self.alts(o):
            weak = isinstance(o, U)
            if isinstance(r, Arr):
                comps = self.np.parse_index(self, slc)
                if self.heap is None:
                    return
                self.np.store(self, r, comps, v, node, weak=weak)
            elif isinstance(r, Ref):
                c = self.c(r.loc)
                if isinstance(c, ObjC):
                    g = self.getattr_raw(r, "__setitem__")
                    if g is not None:
                        k = self.expr(slc)
                        self.call(g, [k, v], {}, node)
                    continue
                self.touch(r, node, "item assignment")
                if isinstance(slc, ast.Slice):
                    e0 = self.elem_of(c) if isinstance(c, ListC) else None
                    for x in (slc.lower, slc.upper, slc.step):
                        if x is not None:
                            self.expr(x)
                    if isinstance(c, ListC):
                        new = self.items_of(v)
                        full = slc.lower is None and slc.upper is None and slc.step is None
                        lo = tm.num_const(self.expr(slc.lower).f.term) if slc.lower is not None and isinstance(self.expr(slc.lower), Sc) else (0 if slc.lower is None else None)
                        if full and new is not None:
                            self.heap[r.loc] = ListC(new, kind=c.kind)
                        elif c.items is not None and new is not None and lo is not None and slc.step is None and slc.upper is None:
                            self.heap[r.loc] = ListC(c.items[:int(lo)] + new, kind=c.kind)
                        else:
                            e = self.joinV(e0, self.elem_of(ListC(new)) if new is not None else Unk(self.facts(v)))
                            self.heap[r.loc] = ListC(None, e, sym("slicelen", node._id, self.ctx), c.kind)
                    continue
                k = self.expr(slc)
                if self.heap is None:
                    return
                self.py.container_set(self, r, k, v, node, weak)
            elif isinstance(r, Ext):
                k = self.expr(slc)
                if self.phase != "import":
                    self.ev("gwrite", node, what=f"item of {r.name}")
            elif isinstance(r, Unk) and r.f.term is sym("globals") and self.phase != "import":
                self.ev("gwrite", node, what="a module variable through globals()")
            elif isinstance(r, Unk):
                self.expr(slc) if not isinstance(slc, ast.Slice) else None

    def s_AugAssign(self, s):
        op = BINOP[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, t)
            v = self.expr(s.value)
            if self.heap is None:
                return
            r = self.aug(old, op, v, s)
            if r is not None and self.heap is not None:
                self.setname(t.id, r, s)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value)
            old = self.getattr(o, t.attr, t)
            v = self.expr(s.value)
            if self.heap is None:
                return
            r = self.aug(old, op, v, s)
            if r is not None and self.heap is not None:
                self.setattr(o, t.attr, r, s)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value)
            if self.heap is None:
                return
            if all(isinstance(x, Arr) for x in self.alts(o)):
                comps = self.np.parse_index(self, t.slice)
                v = self.expr(s.value)
                if self.heap is None:
                    return
                for r in self.alts(o):
                    old = self.np.index(self, r, comps, t)
                    if self.heap is None:
                        return
                    if isinstance(old, Arr) and old.loc == r.loc:
                        self.aug(old, op, v, s)
                    else:
                        new = self.binop(op, old, v, s)
                        if self.heap is None:
                            return
                        self.np.store(self, r, comps, new, s, weak=isinstance(o, U), aug=True)
            else:
                old = self.subscript(o, t.slice, t)
                v = self.expr(s.value)
                if self.heap is None:
                    return
                r = self.aug(old, op, v, s)
                if r is not None and self.heap is not None:
                    self.setitem(o, t.slice, r, s)

    def aug(self, old, op, v, node):
        """returns the value to rebind, or None when the update was in place"""
        if isinstance(old, U) and any(isinstance(x, (Arr, Ref)) for x in old.vals):
            out = None
            for x in old.vals:
                r = self.aug(x, op, v, node)
                out = self.joinV(out, r if r is not None else x)
            return out
        if isinstance(old, Arr):
            new = self.binop(op, old, v, node)
            if self.heap is None:
                return None
            if self.order is not None:
                new = self.unmix(node, new)
            self.np.store_all(self, old, new, node, aug=True)
            return None
        if isinstance(old, Ref) and isinstance(self.c(old.loc), ListC) and op == "add":
            self.call(Meth(old, "extend"), [v], {}, node)
            return None
        if isinstance(old, Ref) and isinstance(self.c(old.loc), DictC) and op == "bitor":
            self.call(Meth(old, "update"), [v], {}, node)
            return None
        if isinstance(old, Ref) and isinstance(self.c(old.loc), ObjC):
            for nm in ("__i%s__" % {"add": "add", "sub": "sub", "mul": "mul", "div": "truediv"}.get(op, op),):
                g = self.getattr_raw(old, nm)
                if g is not None:
                    return self.call(g, [v], {}, node)
        return self.binop(op, old, v, node)

    # -------------------------------------------------------------- branches
    def s_If(self, s):
        c = self.expr(s.test)
        if self.heap is None:
            return
        self.branch(s.test, c, lambda: self.block(s.body), lambda: self.block(s.orelse), s)

    def branch(self, test, c, then, els, node):
        t, f = self.truth(c)
        self.ev("branch", node, truth=t, f=f)
        self.stats["branches"] += 1
        if t is True:
            then()
            return
        if t is False:
            els()
            return
        h0 = self.heap
        self.ctrl.append(f)
        self.heap = dict(h0)
        self.refine(test, True)
        self.assume(f, True)
        if self.heap is not None:
            then()
        h1 = self.heap
        self.heap = dict(h0)
        self.refine(test, False)
        self.assume(f, False)
        if self.heap is not None:
            els()
        h2 = self.heap
        self.ctrl.pop()
        self.heap = self.join_heaps(h1, h2, f)

    def truth(self, v):
        """(True / False / None, F of the condition)"""
        if isinstance(v, Sc):
            f = v.f
            t = f.term
            if t.op == "const" and not f.bad:
                return bool(t.args[0]), f
            if any(l[0] == "sent" for l in f.bad):
                return None, f                      # a missing response may decide otherwise
            if t.op == "const":
                return bool(t.args[0]), f
            if f.itv == (0, 0):
                return False, f
            if f.itv[0] > 0 or f.itv[1] < 0:
                return True, f
            return (self.hooks["decide"](t) if "decide" in self.hooks else None), f
        if isinstance(v, Tup):
            return bool(v.items), cF(bool(v.items))
        if isinstance(v, (Fn, Ext, Meth, Mod, Cls, Partial)):
            return True, cF(True)
        if isinstance(v, Prim):
            return True, cF(True)
        if isinstance(v, Ref):
            c = self.c(v.loc)
            if isinstance(c, ListC) and c.items is not None:
                return bool(c.items), cF(bool(c.items))
            if isinstance(c, DictC) and c.rest is None and (not c.maybe or set(c.keys) - c.maybe):
                return bool(c.keys), cF(bool(c.keys))
            if isinstance(c, (ListC, DictC)):
                return None, F(sym("nonempty", str(v.loc)), (0, 1), "b", self.facts(v).deps)
            return True, cF(True)
        if isinstance(v, U):
            ts = [self.truth(x) for x in v.vals]
            if all(t[0] is True for t in ts):
                return True, ts[0][1]
            if all(t[0] is False for t in ts):
                return False, ts[0][1]
            f = ts[0][1]
            for _, g in ts[1:]:
                f = self._mix(f, g)
            return None, f.w(term=mk("truth", *[t[1].term for t in ts]))
        if isinstance(v, Arr):
            sh, f = self.rd(v)
            if f.itv == (0, 0):
                return False, f
            return None, f
        return None, self.facts(v)

    def refine(self, test, want):
        """narrow variables using a branch condition"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            self.refine(test.operand, not want)
            return
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) and want or isinstance(test.op, ast.Or) and not want:
                for x in test.values:
                    if self.heap is not None:
                        self.refine(x, want)
            return
        if isinstance(test, ast.Name):
            v = self.peek(test.id)
            if isinstance(v, U):
                keep = [x for x in v.vals if self.truth(x)[0] is not (not want)]
                if keep:
                    self.poke(test.id, keep[0] if len(keep) == 1 else U(keep))
            return
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op = CMPOP[type(test.ops[0])]
            l, r = test.left, test.comparators[0]
            if op in ("is", "isnot") and isinstance(l, ast.Name) and isinstance(r, ast.Constant) and r.value is None:
                isnone = (op == "is") == want
                v = self.peek(l.id)
                if isinstance(v, U):
                    keep = [x for x in v.vals if (isinstance(x, Sc) and x.f.dt == "N") == isnone]
                    if keep:
                        self.poke(l.id, keep[0] if len(keep) == 1 else U(keep))
                elif isinstance(v, (Sc, Unk)) and isnone and v.f.dt != "N":
                    self.poke(l.id, Sc(v.f.w(term=tm.NONE, dt="N")))
                return
            if not want:
                op = {"lt": "ge", "le": "gt", "gt": "le", "ge": "lt", "eq": "ne", "ne": "eq"}.get(op, op)
            for a, b, o in ((l, r, op), (r, l, {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(op, op))):
                if isinstance(a, ast.Name):
                    v = self.peek(a.id)
                    if not isinstance(v, Sc):
                        continue
                    bv = self.peek(b.id) if isinstance(b, ast.Name) else (Sc(cF(b.value)) if isinstance(b, ast.Constant) else None)
                    if not isinstance(bv, Sc):
                        continue
                    lo, hi = v.f.itv
                    bl, bh = bv.f.itv
                    isint = v.f.dt in ("i", "b") and bv.f.dt in ("i", "b")
                    if o == "lt":
                        hi = min(hi, bh - 1 if isint else bh)
                    elif o == "le":
                        hi = min(hi, bh)
                    elif o == "gt":
                        lo = max(lo, bl + 1 if isint else bl)
                    elif o == "ge":
                        lo = max(lo, bl)
                    elif o == "eq" and bv.f.dt not in ("N", "U"):
                        lo, hi = max(lo, bl), min(hi, bh)
                        if tm.is_const(bv.f.term) and v.f.dt == bv.f.dt:
                            self.poke(a.id, Sc(v.f.w(itv=(lo, hi))))
                            if lo > hi:
                                self.heap = None
                                return
                            continue
                    elif o == "eq" and bv.f.dt == "U" and tm.is_const(bv.f.term):
                        self.poke(a.id, Sc(v.f.w(term=bv.f.term, dt="U")))
                        continue
                    elif o == "ne" and bl == bh and isint:
                        if lo == bl:
                            lo += 1
                        if hi == bl:
                            hi -= 1
                    if lo > hi:
                        self.heap = None
                        return
                    if (lo, hi) != v.f.itv:
                        self.poke(a.id, Sc(v.f.w(itv=(lo, hi))))

    def _key(self, name):
        s = self.frame.scope
        if name in s.glob:
            return ("g", s.mod, name)
        while s is not None:
            if name in s.names:
                return ("v", s.fid, name)
            if s.parent is None:
                return ("g", s.mod, name)
            s = s.parent

    def peek(self, name):
        return self.heap.get(self._key(name))

    def poke(self, name, v):
        k = self._key(name)
        if k in self.heap:
            self.heap[k] = v

    # ----------------------------------------------------------------- loops
    def s_For(self, s):
        itv = self.expr(s.iter)
        if self.heap is None:
            return
        it = self.py.iterate(self, itv, s)
        items = it.items
        if items is not None and len(items) <= UNROLL:
            self._unrolled(s, items)
            return
        if items is not None:
            e = None
            for x in items:
                e = self.joinV(e, x)
            it = It(None, lambda i, e=e: self.elem_at(e, i) or e, const(len(items)), it.deps, it.kind)
        self._symloop(s, it)

    def _unrolled(self, s, items):
        lc = LoopC()
        self.frame.loops.append(lc)
        save = self.unroll
        brk = []
        for i, x in enumerate(items):
            if self.heap is None:
                break
            self.unroll = save + ((s._id, i),)
            self.assign(s.target, x, s)
            lc.conts = []
            self.block(s.body)
            for h, f in lc.conts:
                self.heap = self.join_heaps(self.heap, h, f)
        self.unroll = save
        self.frame.loops.pop()
        if self.heap is not None and s.orelse:
            self.block(s.orelse)
        for h, f in lc.breaks:
            self.heap = self.join_heaps(self.heap, h, f)
        self.ev("loop", s, form="unrolled", n=const(len(items)))

    def _symloop(self, s, it):
        n = it.n if it.n is not None else sym("len", s._id, self.ctx)
        idt = sym("it", s._id, self.ctx, self.unroll)
        nf = F(n, TOP, "i", it.deps | self.np.tdeps(n))
        isP = self.np.is_pdim(self, n)
        if self.order is not None and it.kind == "range":
            short = self.np.short_of(self, n)
            if short:
                lab = f"mix:range:{s._id}"
                self.mix.setdefault(lab, (s, self.ctx, "range"))
                self.order.setdefault(lab, [mk("partial")])
                nf = nf.w(deps=nf.deps | {lab})
        def bind(first):
            itvl = (0, 0) if first == "first" else ((1, INF) if first == "rest" else (0, INF))
            idx = Sc(F(const(0) if first == "first" else idt, itvl, "i", nf.deps, "MIX" if isP else None))
            self.assign(s.target, it.elem(idx) if it.elem is not None else Unk(F(sym("elem", s._id, self.ctx), deps=it.deps)), s)
        peel = any(a.op == "sym" and a.args[:2] == ("opt", "max_iteration") for a in tm.subterms(n).values())
        zero = not self.np.nonzero_dim(n)
        self._loop(s, bind, None, s.body, s.orelse, idt, nf, peel, zero, it)

    def s_While(self, s):
        self._loop(s, None, s.test, s.body, s.orelse, sym("it", s._id, self.ctx, self.unroll), F(const(True)), self.sweeping(s), True, None)

    def sweeping(self, s):
        """does the iteration limit take part in this loop?"""
        it = lambda t: any(a.op == "sym" and a.args[:2] == ("opt", "max_iteration") for a in tm.subterms(t).values())      # noqa: E731
        for n in ast.walk(s):
            if isinstance(n, ast.Constant) and n.value == "max_iteration":
                return True
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                for k, v in self.heap.items():
                    if k[0] == "v" and k[-1] == n.id and isinstance(v, Sc) and it(v.f.term):
                        return True
        return False

    def _loop(self, s, bind, test, body, orelse, idt, nf, peel, zero, it):
        self.stats["loops"] += 1
        fr = self.frame
        entry = self.heap
        lid = (s._id, self.ctx, self.unroll)
        outer = list(self.loopidx)
        first = None
        self.pushloop(idt)
        tests = []
        def onepass(h, mode):
            """one abstract execution of test+body from h -> (end heap, breaks, test-exit heap, testF)"""
            lc = LoopC()
            fr.loops.append(lc)
            self.loopfresh[-1].clear()
            self.heap = dict(h)
            if bind is not None:
                bind(mode)
            if self.heap is not None:
                self.block(body)
            for h2, f in lc.conts:
                self.heap = self.join_heaps(self.heap, h2, f)
            texit, tf = decide()
            end = self.heap
            fr.loops.pop()
            return end, lc, texit, tf

        def decide():
            """the test of a while loop in the current state -> (state on leaving, facts of the test); the state goes on when it holds"""
            if test is None or self.heap is None:
                return None, None
            texit, tf = None, None
            c = self.expr(test)
            if self.heap is not None:
                t, tf = self.truth(c)
                tests.append((c, tf, dict(self.heap)))
                if t is not True:
                    keep = self.heap
                    self.heap = dict(keep)
                    self.refine(test, False)
                    texit = self.heap
                    self.heap = keep
                if t is False:
                    self.heap = None
                else:
                    self.refine(test, True)
            return texit, tf
        # a while loop is an if around a loop that tests at the end of its body
        texit0 = None
        if test is not None:
            self.heap = dict(entry)
            texit0, _ = decide()
            start = self.heap
            if start is not None:
                entry = start
        head = entry if test is None else start
        brks0 = []
        texit1 = None
        if peel and head is not None:
            ph = self.phase
            self.phase = ph + "/first"
            end, lc, texit, tf = onepass(entry, "first")
            self.phase = ph
            brks0 = list(lc.breaks)
            texit1 = texit
            first = (entry, end, list(lc.breaks), list(lc.rets))
            if end is None:
                head = None
            else:
                head = dict(end)
                for k, v in end.items():
                    if k[0] == "pc":
                        head[k] = entry.get(k, ())
                    elif v is not None and entry.get(k) is not v:
                        head[k] = self.carried(v, (lid, k))
        mode = "rest" if peel else "any"
        res = None
        base = head
        if head is not None:
            extra = None
            for p in range(MAXPASS):
                tests.clear()
                end, lc, texit, tf = onepass(head, mode)
                cf = F(const(0), deps=nf.deps | (tf.deps if tf is not None else EMPTY), bad=self.cbad(tf) if tf is not None else EMPTY,
                       pl=tf.pl if tf is not None else None)
                for _, f in lc.breaks:
                    if f is not None:
                        cf = cf.w(deps=cf.deps | f.deps, bad=cf.bad | self.cbad(f), pl=fx.join_pl([cf.pl, f.pl]))
                res = (end, lc, texit, cf)
                if end is None:
                    break
                new, changed = self.join_back(head, self.stale(end, head, idt), lid, p, cf, base)
                if not changed:
                    break
                if p == MAXPASS - 1:
                    self.unm("loop did not stabilise", s)
                head = new
        self.poploop()
        outs = []
        info = dict(form="while" if test is not None else "for", n=nf.term, nF=nf, breaks=[], tests=list(tests),
                    iterkind=it.kind if it is not None else None, rets=[], head=None, end=None, entry=entry, first=first, lid=lid, outer=outer, idt=idt,
                    pc=self.pc(entry))
        if res is not None:
            end, lc, texit, cf = res
            info["breaks"] = [(f, h) for h, f in lc.breaks]
            info["head"], info["end"], info["rets"] = head, end, list(lc.rets)
            if test is None:
                if end is not None:
                    x = self.stale(end, head, idt)
                    if not first and not (lc.breaks or lc.conts or lc.rets):
                        x = self.appended(x, entry, end, idt, nf.term)
                        if x is not None and zero:
                            entry = self.appended0(entry, x, idt)
                    outs.append(self.addctl(x, base, cf))
            elif texit is not None:
                outs.append(self.addctl(self.stale(texit, head, idt), base, cf))
            brk = []
            for h, f in lc.breaks:
                brk.append(self.addctl(self.stale(h, head, idt), base, cf))
        else:
            brk = []
        if peel:
            for h, f in brks0:
                brk.append(h)
        if zero and test is None and entry is not None:
            outs.append(entry)
        outs += [h for h in (texit0, texit1) if h is not None]
        self.ev("loop", s, **info)
        self.heap = None
        for h in outs:
            self.heap = self.join_heaps(self.heap, h)
        if orelse and self.heap is not None:
            self.block(orelse)
        if peel and res is not None and test is None and res[0] is None and not outs:
            pass
        for h in brk:
            self.heap = self.join_heaps(self.heap, h, None)

    def appended(self, h, entry, end, idt, n):
        """lists that were empty and received exactly one element in every iteration: element k belongs to iteration k"""
        out = h
        if self.mix is None and not self.listidx:
            return out
        for (loc, q), how in self.touched.items():
            if q is not idt or len(how) != 1:
                continue
            (nid, what, depth), = how
            c, c0 = h.get(loc), entry.get(loc)
            if what != ".append" or depth != len(self.ctrl) or not isinstance(c, ListC) or c.items is not None or c.kind != "list" \
                    or not isinstance(c0, ListC) or c0.items is None or c0.items or c.elem is None:
                continue
            if out is h:
                out = dict(h)
            e = c.elem
            if isinstance(e, Arr) and not e.path and isinstance(end.get(e.loc), ArrC):
                nl = e.loc[:4] + ("of@%d" % idt.id,)
                out[nl] = end[e.loc]
                e = Arr(nl)
            out[loc] = ListC(None, e, n, c.kind, idt)
        return out

    def appended0(self, entry, x, idt):
        out = entry
        for k, c in x.items():
            if isinstance(c, ListC) and c.idx is idt and isinstance(entry.get(k), ListC) and entry[k].items is not None:
                if out is entry:
                    out = dict(entry)
                out[k] = c
                if isinstance(c.elem, Arr) and c.elem.loc not in out:
                    out[c.elem.loc] = x[c.elem.loc]
        return out

    def addctl(self, h, base, cf):
        """values changed by a loop depend on what decides its trip count"""
        if not cf.deps and not cf.bad and cf.pl is None:
            return h
        out = dict(h)
        for k, v in h.items():
            b = base.get(k)
            if v is b or k[0] == "pc":
                continue
            if k[0] == "h":
                if isinstance(v, ArrC) and b is not None and not (isinstance(b, ArrC) and b.same(v)):
                    out[k] = ArrC(v.shape, self._ctlF(v.f, cf))
            elif isinstance(v, Sc) and b is not None:
                out[k] = Sc(self._ctlF(v.f, cf))
        return out

    def _ctlF(self, f, cf):
        return f.w(deps=f.deps | cf.deps, bad=f.bad | cf.bad, pl=fx.join_pl([f.pl, cf.pl]))

    def join_back(self, head, back, lid, p, cf, base):
        """new loop head from the old one and the state flowing back"""
        out = dict(head)
        changed = False
        for k, b in back.items():
            a = head.get(k)
            if a is b:
                continue
            if k[0] == "pc":
                out[k] = tuple(x for x in (a or ()) if x in b)
                continue
            if a is None:
                out[k] = self.carried(b, (lid, k))
                changed = True
                continue
            phi = (lid, k)
            if k[0] == "h":
                if isinstance(a, ArrC) and isinstance(b, ArrC):
                    if a.same(b):
                        continue
                    n = self.joinC(a, b, None, phi, p >= 1, None)
                    if isinstance(n, ArrC):
                        n = ArrC(n.shape, self._ctlF(n.f, cf))
                    if not n.same(a):
                        out[k] = n
                        changed = True
                else:
                    n = self.joinC(a, b, None, phi, p >= 1, None)
                    if not n.same(a):
                        out[k] = n
                        changed = True
            else:
                if vsame(a, b):
                    continue
                n = self.joinV(a, b, None, phi, p >= 1, None)
                if isinstance(n, Sc):
                    n = Sc(self._ctlF(n.f, cf))
                if not vsame(n, a):
                    out[k] = n
                    changed = True
        return out, changed

    def carried(self, v, phi):
        """a value of the previous iteration: symbols made by the loop body mean other values in this one"""
        if isinstance(v, ArrC):
            f = self.carriedF(v.f, phi)
            return v if f is v.f else ArrC(v.shape, f)
        if isinstance(v, Sc):
            f = self.carriedF(v.f, phi)
            return v if f is v.f else Sc(f)
        if isinstance(v, Tup):
            return Tup([self.carried(x, phi + (i,)) for i, x in enumerate(v.items)])
        if isinstance(v, ListC) and v.items is not None:
            return ListC([self.carried(x, phi + (i,)) for i, x in enumerate(v.items)], kind=v.kind)
        if isinstance(v, DictC):
            return DictC({k: self.carried(x, phi + (k,)) for k, x in v.keys.items()}, v.maybe, v.rest, v.restkey)
        if isinstance(v, ObjC):
            return ObjC(v.cls, {k: self.carried(x, phi + (k,)) for k, x in v.attrs.items()})
        return v

    def carriedF(self, f, phi):
        t, miss = f.term, f.miss
        if madeinloop(t):
            t = sym("phi", *phi)
        if miss:
            nm = {}
            for q, (x, itv) in miss.items():
                if x is f.term:
                    continue
                if x is not SENT and madeinloop(x):
                    x = mk("phiS", SENT, t, const(str(q))) if has_sent(x) else sym("phitw", t, str(q))
                nm[q] = (x, itv)
            miss = nm
        if t is f.term and miss == f.miss:
            return f
        return f.w(term=t, miss=miss)

    def stale(self, h, head, idt):
        """end of an iteration: facts tied to this iteration's position lose it"""
        out = None
        for k, v in h.items():
            hv = head.get(k)
            if v is hv or k[0] == "pc":
                continue
            if k[0] == "h":
                if isinstance(v, ArrC):
                    f = self.staleF(v.f, hv.f if isinstance(hv, ArrC) else None, idt)
                    if f is not v.f:
                        out = out or dict(h)
                        out[k] = ArrC(v.shape, f)
                elif isinstance(v, ListC):
                    n = self.staleList(v, idt)
                    if n is not v:
                        out = out or dict(h)
                        out[k] = n
            elif isinstance(v, Sc):
                f = self.staleF(v.f, hv.f if isinstance(hv, Sc) else None, idt)
                if f is not v.f:
                    out = out or dict(h)
                    out[k] = Sc(f)
            elif isinstance(v, (Arr, U)):
                n = self.staleview(v, idt)
                if n is not v:
                    out = out or dict(h)
                    out[k] = n
        return out if out is not None else h

    def staleview(self, v, idt):
        """a view taken at this iteration's position is, in the next one, the
        view of an earlier position"""
        if isinstance(v, U):
            vs = [self.staleview(x, idt) for x in v.vals]
            return U(vs) if any(a is not b for a, b in zip(vs, v.vals)) else v
        if not isinstance(v, Arr) or not v.path:
            return v
        prev = sym("prev", tm.show(idt))
        hit = []

        def swap(x):
            if isinstance(x, tm.T):
                if tm.contains(x, lambda u: u is idt):
                    hit.append(1)
                    return tm.replace(x, {idt: prev})
                return x
            if isinstance(x, tuple):
                return tuple(swap(y) for y in x)
            return x
        path = swap(v.path)
        return Arr(v.loc, path) if hit else v

    def staleList(self, c, idt):
        return c

    def staleF(self, f, headf, idt):
        pl, miss, bad = f.pl, f.miss, f.bad
        if pl is not None and pl != "MIX" and pl[0] == "at" and tm.contains(pl[1], lambda u: u is idt):
            pl = "MIX"
            if self.order is not None:
                if headf is not None and (gathered(f.term, headf.term) or headf.term.op == "const"):
                    pl = None                      # a constant before the loop: the next pass tells
                else:
                    lab = "mix:carried:" + str(idt.args[1])
                    self.mix.setdefault(lab, (self.curnode(), self.ctx, "carried"))
                    self.order.setdefault(lab, [mk("carried")])
                    f = f.w(deps=f.deps | {lab}, pl=None)
                    pl = None
        if miss:
            nm = None
            for s, (t, ti) in miss.items():
                if any(isinstance(x, tuple) and x[0] == "at" and tm.contains(x[1], lambda u: u is idt) for x in s[1:]):
                    nm = dict(miss) if nm is None else nm
                    del nm[s]
                    if headf is not None and t is headf.term:
                        continue                        # the iteration left the value alone
                    if headf is not None and headf.term is f.term:
                        continue
                    if tm.is_const(t) and headf is not None and not ofloop(headf.term, idt):
                        continue                        # the next pass sees how it combines with what was there
                    alts = t.args if t.op == "join" and headf is not None and headf.term in t.args else (t,)
                    for t in alts:
                        if len(alts) > 1 and (t is headf.term or tm.is_const(t)):
                            continue                    # what was there before this or the first iteration
                        if has_sent(t):
                            bad = bad | {("sent", "a loop carries the missing-response placeholder")}
                        elif headf is not None:
                            d = mk("sub", t, headf.term)
                            if not tm.contains(d, lambda u: u is headf.term):
                                bad = bad | {("offset", "loop", d)}
                            else:
                                q = mk("div", t, headf.term)
                                if tm.pconst(q) is not None:
                                    bad = bad | {("scale", "loop", q)}
                                else:
                                    bad = bad | {("contrib", f"a loop accumulates {tm.show(t)[:60]} for missing responses")}
            if nm is not None:
                miss = nm
        if pl is f.pl and miss is f.miss and bad is f.bad:
            return f
        return f.w(pl=pl, miss=miss, bad=bad)

    def s_Break(self, s):
        f = self.curctl()
        self.frame.loops[-1].breaks.append((self.heap, f))
        self.heap = None

    def s_Continue(self, s):
        self.frame.loops[-1].conts.append((self.heap, self.curctl()))
        self.heap = None

    def curctl(self):
        return self.ctrl[-1] if self.ctrl else None

    # ------------------------------------------------------------- try / with
    def guard(self):
        self.serial += 1
        self.guards.append(self.serial)
        return self.serial

    def risk(self, node):
        """something that may raise happens while a resource is open"""
        if self.heap is None:
            return
        for loc in self.openres:
            c = self.heap.get(loc)
            if isinstance(c, ResC) and c.state != "closed":
                self.reslog.append(("risk", loc, node, tuple(self.guards), self.procdepth))

    def finished(self, body, g):
        """run the exit part of a with or try statement"""
        self.fins.append(g)
        body()
        self.fins.pop()

    def over_returns(self, rets, body):
        for i, (h, v) in enumerate(rets):
            keep, self.heap = self.heap, h
            body()
            rets[i] = (self.heap if self.heap is not None else h, v)
            self.heap = keep

    def s_Try(self, s):
        h0 = dict(self.heap)
        self.tries.append([])
        depth = len(self.guards)
        g = self.guard()
        nr = len(self.frame.rets)
        self.block(s.body)
        raised = self.tries.pop()
        bodyend = self.heap
        if not s.finalbody:
            del self.guards[depth:]
        if self.heap is not None and s.orelse:
            self.block(s.orelse)
        ends = [self.heap]
        if s.handlers:
            hin = None
            whats = [w for _, w in raised]
            for h, w in raised:
                hin = self.join_heaps(hin, h)
            hin = self.join_heaps(hin, h0)
            if bodyend is not None:
                hin = self.join_heaps(hin, bodyend)
            for hd in s.handlers:
                self.heap = dict(hin)
                if hd.type is not None:
                    self.expr(hd.type)
                if hd.name:
                    self.setname(hd.name, Unk(F(sym("exc", hd._id))), hd)
                self.ev("handler", hd, raised=tuple(whats))
                every = hd.type is None or isinstance(hd.type, ast.Name) and hd.type.id in ("Exception", "BaseException")
                if every:
                    self.finished(lambda: self.block(hd.body), g)
                else:
                    self.block(hd.body)
                ends.append(self.heap)
        else:
            for h, w in raised:
                if self.tries:
                    self.tries[-1].append((h, w))
        del self.guards[depth:]
        out = None
        for h in ends:
            out = self.join_heaps(out, h)
        self.heap = out
        if s.finalbody:
            fr = self.frame
            mine, fr.rets[nr:] = fr.rets[nr:], []
            self.over_returns(mine, lambda: self.finished(lambda: self.block(s.finalbody), g))
            if self.heap is not None:
                self.finished(lambda: self.block(s.finalbody), g)
            elif raised or mine:
                self.heap = dict(h0)
                if not mine:
                    self.finished(lambda: self.block(s.finalbody), g)
                self.heap = None
            fr.rets[nr:nr] = mine

    s_TryStar = s_Try

    def s_With(self, s):
        self.with_items(s, 0)

    def with_items(self, s, i):
        if i == len(s.items):
            self.block(s.body)
            return
        it = s.items[i]
        node = it.context_expr
        cm = self.expr(node)
        if self.heap is None:
            return
        fr = self.frame
        nr = len(fr.rets)
        depth = len(self.guards)
        g = self.guard()
        if isinstance(cm, Prim) and cm.kind == "cm":
            self.with_generator(s, i, cm, nr)
            del self.guards[depth:]
            return
        v = self.py.enter(self, cm, node)
        if it.optional_vars is not None and self.heap is not None:
            self.assign(it.optional_vars, v, s)
        self.with_items(s, i + 1)
        del self.guards[depth:]
        mine, fr.rets[nr:] = fr.rets[nr:], []
        leave = lambda: self.finished(lambda: self.py.exit(self, cm, node), g)   # noqa: E731
        self.over_returns(mine, leave)
        fr.rets[nr:nr] = mine
        if self.heap is not None:
            leave()

    def with_generator(self, s, i, cm, nr):
        """a with statement over a generator based context manager: the body runs at its yield"""
        fr = self.frame
        inner = (list(self.frames), self.ctx, self.ctrl)
        fell, got = [], []
        node = s.items[i].context_expr

        def body(v):
            save = (self.frames, self.ctx, self.ctrl)
            self.frames, self.ctx, self.ctrl = list(inner[0]), inner[1], inner[2]
            if s.items[i].optional_vars is not None:
                self.assign(s.items[i].optional_vars, v, s)
            self.with_items(s, i + 1)
            fell.append(self.heap is not None)
            for h, x in fr.rets[nr:]:
                self.heap = self.join_heaps(self.heap, h)
                got.append(x)
            del fr.rets[nr:]
            self.frames, self.ctx, self.ctrl = save
        self.cmbody = body
        self.call(cm.data["fn"], cm.data["args"], cm.data["kw"], node)
        self.cmbody = None
        if got and self.heap is not None:
            out = None
            for x in got:
                out = self.joinV(out, x)
            fr.rets.append((self.heap, out))
            if not any(fell):
                self.heap = None

    def s_Match(self, s):
        self.expr(s.subject)
        h0 = self.heap
        out = h0
        for c in s.cases:
            self.heap = dict(h0)
            self.block(c.body)
            out = self.join_heaps(out, self.heap)
        self.heap = out

    # ------------------------------------------------------------ expressions
    def expr(self, e):
        self.steps += 1
        if self.heap is None:
            return Unk(F(sym("dead")))
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unm("expression " + type(e).__name__, e)
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.expr(c)
            return Unk(F(sym("expr", e._id, self.ctx)))
        if not isinstance(e, MIXABLE):
            return m(e)
        if self.codes is not None:
            return self.scale(e, m(e))
        if self.mix is None:
            return m(e)
        return self.unmix(e, m(e))

    def scale(self, e, v):
        """code mode: marks values that depend on which numbers name the response categories"""
        if self.heap is None or self.phase != "run":
            return v
        if isinstance(v, Tup):
            return Tup([self.scale(e, x) for x in v.items])
        if isinstance(v, (Sc, Unk)):
            f = v.f
        elif isinstance(v, Arr) and isinstance(self.heap.get(v.loc), ArrC):
            f = self.rd(v)[1]
        else:
            return v
        b = self.codes.get(f.term)
        if not isinstance(b, self.codes.Bad):
            return v
        lab = self.codeuse(e, b.why)
        if isinstance(v, Arr):
            c = self.heap[v.loc]
            self.heap[v.loc] = ArrC(c.shape, c.f.w(deps=c.f.deps | {lab}))
            return v
        return type(v)(f.w(deps=f.deps | {lab}))

    def codeuse(self, e, why):
        lab = f"code:{why}:{e._id}"
        self.codebad.setdefault(lab, (e, self.ctx, why))
        return lab

    def codesize(self, f, node, what):
        """code mode: a position or a size"""
        if self.codes is not None and f is not None and self.phase == "run" and node is not None and hasattr(node, "_id") and self.codes(f.term) != 0:
            return self.codeuse(node, what)
        return None

    def unmix(self, e, v, depth=0):
        """mix mode: a value that depends on several respondents is marked where it arises and then treated
        as a plain number, so that later operations that mix respondents are seen as well"""
        if self.heap is None or depth > 3:
            return v
        if isinstance(v, Tup):
            return Tup([self.unmix(e, x, depth + 1) for x in v.items])
        if isinstance(v, (Sc, Unk)):
            f = v.f
        elif isinstance(v, Arr) and not v.path and isinstance(self.heap.get(v.loc), ArrC) and (
                self.order is not None or not isinstance(e, (ast.Subscript, ast.Attribute))):
            f = self.heap[v.loc].f
        elif self.order is not None and isinstance(v, Arr) and v.path and isinstance(self.heap.get(v.loc), ArrC) and isinstance(e, ast.Subscript) \
                and self.heap[v.loc].f.pl != "MIX":
            sh, f = self.rd(v)
            if f.pl == "MIX":                      # part of the respondents: from here on a value of its own
                v = self.arr(e, sh, f, "mixpart")
        else:
            return v
        if f.pl != "MIX" or (isinstance(v, Sc) and self.np.is_pdim(self, f.term)):
            return v
        if isinstance(v, Sc) and self.any_count(f.term):
            return Sc(f.w(pl=None))
        if isinstance(e, ast.Call):
            op = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else "call"
        elif isinstance(e, ast.Attribute):
            op = e.attr
        elif isinstance(e, (ast.BinOp, ast.UnaryOp, ast.AugAssign)):
            op = type(e.op).__name__
        else:
            op = type(e).__name__
        lab = f"mix:{op}:{e._id}"
        self.mix.setdefault(lab, (e, self.ctx, op))
        if self.order is not None:
            ts = self.order.setdefault(lab, [])
            if f.term not in ts:
                ts.append(f.term)
        g = f.w(pl=None, deps=f.deps | {lab})
        if isinstance(v, Arr):
            c = self.heap[v.loc]
            self.heap[v.loc] = ArrC(c.shape, g)
            return v
        return type(v)(g)

    def any_count(self, t):
        """a condition on the size of the dataset that is the same for every number of respondents from one on"""
        if t.op not in ("eq", "ne", "lt", "le", "gt", "ge", "not", "bool", "isempty"):
            return False
        from . import pointwise
        dims, todo = [], list(t.args)
        while todo:
            u = todo.pop()
            if not isinstance(u, tm.T) or tm.is_const(u):
                continue
            if u.op in ("seldim", "count") and self.np.is_pdim(self, u) or u.op == "sym" and (u.args[:1] == ("dim",) or self.np.is_pdim(self, u)):
                dims.append(u)
            elif u.op in ("mul", "add", "eq", "ne", "lt", "le", "gt", "ge", "not", "bool"):
                todo += u.args
            else:
                return False
        if not dims:
            return False
        got = set()
        try:
            for n in (1, 2, 3, 7, 40, 1000, 10 ** 6):
                got.add(bool(pointwise.num(t, pointwise.Rnd(5), {u: float(n) for u in dims})))
        except pointwise.Undecided:
            return False
        return len(got) == 1

    def e_Constant(self, e):
        return Sc(cF(e.value))

    def e_Name(self, e):
        return self.lookup(e.id, e)

    def e_Tuple(self, e):
        return Tup(self._elts(e.elts))

    def _elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.expr(x.value)
                it = self.items_of(self.py.iterate(self, v, x)) if not isinstance(v, (Tup,)) else list(v.items)
                if it is None:
                    out.append(Unk(self.facts(v)))
                else:
                    out.extend(it)
            else:
                out.append(self.expr(x))
        return out

    def e_List(self, e):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.expr(x.value)
                it = self.items_of(v)
                if it is None:
                    i2 = self.py.iterate(self, v, x)
                    el = i2.elem(Sc(F(sym("k"), (0, INF), "i"))) if i2.elem is not None else None
                    for y in e.elts:
                        if y is not x:
                            el = self.joinV(el, self.expr(y.value if isinstance(y, ast.Starred) else y))
                    return self.list_(e, None, el, sym("len", e._id, self.ctx))
                items.extend(it)
            else:
                items.append(self.expr(x))
        if self.heap is None:
            return Unk(F(sym("dead")))
        return self.list_(e, items)

    def e_Set(self, e):
        return self.list_(e, self._elts(e.elts), kind="set")

    def e_Dict(self, e):
        keys, rest, maybe, rk = {}, None, set(), None
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.expr(v)
                if self.heap is None:
                    return Unk(F(sym("dead")))
                for r in self.alts(o):
                    c = self.c(r.loc) if isinstance(r, Ref) else None
                    if isinstance(c, DictC):
                        for kk, vv in c.keys.items():
                            if kk in c.maybe or isinstance(o, U):
                                if kk in keys:
                                    keys[kk] = self.joinV(keys[kk], vv)
                                else:
                                    keys[kk] = vv
                                    maybe.add(kk)
                            else:
                                keys[kk] = vv
                                maybe.discard(kk)
                        rest = self.joinV(rest, c.rest)
                        rk = self.joinV(rk, c.restkey)
                        if c.rest is not None:
                            for kk in keys:
                                keys[kk] = self.joinV(keys[kk], c.rest)
                    elif not (isinstance(r, Sc) and r.f.dt == "N"):
                        rest = self.joinV(rest, Unk(self.facts(r)))
                continue
            kv = self.expr(k)
            vv = self.expr(v)
            if self.heap is None:
                return Unk(F(sym("dead")))
            if isinstance(kv, Sc) and tm.is_const(kv.f.term):
                keys[kv.f.term.args[0]] = vv
                maybe.discard(kv.f.term.args[0])
            else:
                rest = self.joinV(rest, vv)
                rk = self.joinV(rk, kv)
        return Ref(self.alloc(e, DictC(keys, maybe, rest, rk), "d"))

    def e_JoinedStr(self, e):
        deps = EMPTY
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                x = self.expr(v.value)
                if self.heap is None:
                    return x
                f = self.facts(x)
                deps |= f.deps
                parts.append(f.term)
            else:
                parts.append(const(v.value))
        if all(tm.is_const(p) for p in parts):
            return Sc(cF("".join(str(p.args[0]) for p in parts)))
        return Sc(F(mk("fstr", *parts), TOP, "U", deps))

    def e_FormattedValue(self, e):
        return self.expr(e.value)

    def e_Starred(self, e):
        return self.expr(e.value)

    def e_NamedExpr(self, e):
        v = self.expr(e.value)
        if self.heap is not None:
            # walrus inside a comprehension binds in the enclosing function
            fr = self.frame
            s = fr.scope
            while s.fid[0] == "comp" and s.parent is not None:
                s = s.parent
            self.heap[("v", s.fid, e.target.id) if s.fid[0] != "mod" else ("g", s.mod, e.target.id)] = v
        return v

    def e_IfExp(self, e):
        c = self.expr(e.test)
        if self.heap is None:
            return c
        t, f = self.truth(c)
        if t is not None:
            return self.expr(e.body if t else e.orelse)
        h0 = self.heap
        self.ctrl.append(f)
        self.heap = dict(h0)
        self.refine(e.test, True)
        a = self.expr(e.body) if self.heap is not None else None
        h1 = self.heap
        self.heap = dict(h0)
        self.refine(e.test, False)
        b = self.expr(e.orelse) if self.heap is not None else None
        h2 = self.heap
        self.ctrl.pop()
        self.heap = self.join_heaps(h1, h2, f)
        if h1 is None:
            return b if b is not None else Unk(F(sym("dead")))
        if h2 is None:
            return a
        return self.joinV(a, b, f)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        return self._boolop(e.values, isand)

    def _boolop(self, vals, isand):
        v = self.expr(vals[0])
        if len(vals) == 1 or self.heap is None:
            return v
        t, f = self.truth(v)
        if t is not None:
            if t is isand:
                return self._boolop(vals[1:], isand)
            return v
        h0 = self.heap
        self.ctrl.append(f)
        self.heap = dict(h0)
        self.refine(vals[0], isand)
        w = self._boolop(vals[1:], isand) if self.heap is not None else None
        h1 = self.heap
        self.ctrl.pop()
        self.heap = self.join_heaps(h1, h0, f)
        if h1 is None or w is None:
            return v
        wt, wf = self.truth(w)
        if isinstance(v, Sc) and isinstance(w, Sc) and f.dt == "b" and wf.dt == "b":
            op = "and" if isand else "or"
            return Sc(fx.elementwise(op, [f, wf], [(), ()])[1].w(dt="b"))
        return self.joinV(v, w, f)

    def e_UnaryOp(self, e):
        v = self.expr(e.operand)
        if self.heap is None:
            return v
        if isinstance(e.op, ast.Not):
            t, f = self.truth(v)
            if t is not None:
                return Sc(f.w(term=const(not t), itv=(int(not t),) * 2, dt="b", miss={}))
            return Sc(fx.elementwise("not", [f], [()])[1].w(dt="b"))
        if isinstance(v, Ref) and isinstance(self.c(v.loc), ObjC):
            g = self.getattr_raw(v, {"USub": "__neg__", "Invert": "__invert__", "UAdd": "__pos__"}[type(e.op).__name__])
            if g is not None:
                return self.call(g, [], {}, e)
        op = {ast.USub: "neg", ast.UAdd: "pos", ast.Invert: "invert"}[type(e.op)]
        if isinstance(v, Sc) and tm.num_const(v.f.term) is not None and not isinstance(v.f.term.args[0], bool) and op != "invert":
            return Sc(cF(-v.f.term.args[0] if op == "neg" else v.f.term.args[0]).w(deps=v.f.deps, pl=v.f.pl))
        return self.np.ew(self, op, [v], e)

    def e_BinOp(self, e):
        a = self.expr(e.left)
        b = self.expr(e.right)
        if self.heap is None:
            return a
        return self.binop(BINOP[type(e.op)], a, b, e)

    def binop(self, op, a, b, node):
        if isinstance(a, U) and not all(isinstance(x, (Sc, Arr)) for x in a.vals):
            r = None
            for x in a.vals:
                if isinstance(x, Sc) and x.f.dt == "N":
                    continue
                r = self.joinV(r, self.binop(op, x, b, node))
            return r if r is not None else Unk(F(sym("dead")))
        if isinstance(b, U) and not all(isinstance(x, (Sc, Arr)) for x in b.vals):
            r = None
            for x in b.vals:
                if isinstance(x, Sc) and x.f.dt == "N":
                    continue
                r = self.joinV(r, self.binop(op, a, x, node))
            return r if r is not None else Unk(F(sym("dead")))
        if op == "matmul":
            return self.np.matmul(self, a, b, node)
        seq = self.py.seq_binop(self, op, a, b, node)
        if seq is not None:
            return seq
        if isinstance(a, Sc) and a.f.dt == "U" or isinstance(b, Sc) and b.f.dt == "U":
            if isinstance(a, Sc) and isinstance(b, Sc) and tm.is_const(a.f.term) and tm.is_const(b.f.term):
                try:
                    x, y = a.f.term.args[0], b.f.term.args[0]
                    r = x + y if op == "add" else x * y if op == "mul" else x % y if op == "mod" else None
                    if r is not None:
                        return Sc(cF(r))
                except TypeError:
                    pass
            f = self._unkf("str", [a, b], node)
            return Sc(f.w(dt="U"))
        for x, y, nm in ((a, b, "__%s__"), (b, a, "__r%s__")):
            if isinstance(x, Ref) and isinstance(self.c(x.loc), ObjC):
                g = self.getattr_raw(x, nm % {"div": "truediv", "bitand": "and", "bitor": "or", "bitxor": "xor"}.get(op, op))
                if g is not None:
                    return self.call(g, [y], {}, node)
        return self.np.ew(self, op, [a, b], node)

    def e_Compare(self, e):
        l = self.expr(e.left)
        res = None
        for o, c in zip(e.ops, e.comparators):
            r = self.expr(c)
            if self.heap is None:
                return r
            v = self.compare(CMPOP[type(o)], l, r, e)
            if res is None:
                res = v
            else:
                t, f = self.truth(res)
                if t is False:
                    return res
                if t is True:
                    res = v
                elif isinstance(res, Sc) and isinstance(v, Sc):
                    res = Sc(fx.elementwise("and", [res.f, v.f], [(), ()])[1])
            l = r
        return res

    def compare(self, op, a, b, node):
        if op in ("is", "isnot"):
            r = self.py.is_same(self, a, b)
            if r is None:
                f = self._unkf("is", [a, b], node).w(itv=(0, 1), dt="b")
                f = f.w(term=mk("is", *sorted((self.facts(a).term, self.facts(b).term), key=lambda t: t.id)))
                if op == "isnot":
                    f = f.w(term=mk("not", f.term))
                return Sc(f)
            return Sc(cF(r if op == "is" else not r))
        if op in ("in", "notin"):
            v = self.py.contains(self, a, b, node)
            return v if op == "in" else Sc(fx.elementwise("not", [v.f], [()])[1].w(dt="b"))
        if isinstance(a, U) or isinstance(b, U):
            if not all(isinstance(x, (Sc, Arr)) for x in self.alts(a)) or not all(isinstance(x, (Sc, Arr)) for x in self.alts(b)):
                r = None
                for x in self.alts(a):
                    for y in self.alts(b):
                        r = self.joinV(r, self.compare(op, x, y, node))
                return r
        if op in ("eq", "ne"):
            r = self.py.known_eq(self, a, b)
            if r is not None:
                return Sc(cF(r if op == "eq" else not r))
        for x, y, nm in ((a, b, "__%s__"), (b, a, "__%s__")):
            if isinstance(x, Ref) and isinstance(self.c(x.loc), ObjC):
                g = self.getattr_raw(x, nm % op)
                if g is not None:
                    return self.call(g, [y], {}, node)
        return self.np.ew(self, op, [a, b], node)

    def e_Attribute(self, e):
        o = self.expr(e.value)
        if self.heap is None:
            return o
        return self.getattr(o, e.attr, e)

    def getattr(self, o, name, node):
        if isinstance(o, U):
            r = None
            for x in o.vals:
                if isinstance(x, Sc) and x.f.dt == "N" and len(o.vals) > 1:
                    continue
                v = self.getattr(x, name, node)
                r = self.joinV(r, v)
            return r
        if isinstance(o, Mod):
            v = self.modattr(o.name, name)
            if v is None:
                self.ev("badimport", node, name=f"{o.name}.{name}")
                return Unk(F(sym("attr", o.name, name)))
            return v
        if isinstance(o, Ext):
            return self.py.extattr(self, o, name)
        if isinstance(o, Cls):
            v = self.cls_lookup(o, name)
            if v is None:
                if name == "__name__":
                    return Sc(cF(o.node.name))
                return Unk(F(sym("clsattr", o.qual, name)))
            if isinstance(v, Prim) and v.kind == "staticmethod":
                return v.data["fn"]
            if isinstance(v, Prim) and v.kind == "classmethod":
                return v.data["fn"].bind(o)
            return v
        if isinstance(o, Ref):
            c = self.c(o.loc)
            if isinstance(c, ObjC):
                v = self.getattr_raw(o, name, node)
                if v is not None:
                    return v
                if name == "__class__" and c.cls is not None:
                    return c.cls
                if name == "__dict__":
                    return self.dict_(node, dict(c.attrs))
                return Unk(F(sym("attr", str(o.loc), name)))
            if isinstance(c, ResC):
                return self.py.res_attr(self, o, c, name, node)
            return Meth(o, name)
        if isinstance(o, Fn):
            v = self.heap.get(("g", "fnattr:" + o.qual, name))
            if v is not None:
                return v
            if name == "__dict__":
                loc = ("h", "fndict", o.qual)
                if loc not in self.heap:
                    pre = "fnattr:" + o.qual
                    self.heap[loc] = DictC({k[2]: x for k, x in self.heap.items() if k[0] == "g" and k[1] == pre})
                    if self.phase != "import":
                        self.owner[loc] = ("global", "attributes of " + o.qual)
                return Ref(loc)
            if name == "__name__":
                return Sc(cF(getattr(o.node, "name", "<lambda>")))
            return Unk(F(sym("fnattr", o.qual, name)))
        if isinstance(o, (Arr, Sc, Unk, Tup, Prim, It, Partial, Meth)):
            return self.np.attr(self, o, name, node)
        return Unk(F(sym("attr", name)))

    def cls_lookup(self, cls, name):
        c = self.c(cls.loc)
        if isinstance(c, ObjC) and name in c.attrs:
            return c.attrs[name]
        for b in cls.bases:
            if isinstance(b, Cls):
                v = self.cls_lookup(b, name)
                if v is not None:
                    return v
        return None

    def getattr_raw(self, o, name, node=None):
        c = self.c(o.loc)
        if name in c.attrs:
            return c.attrs[name]
        if c.cls is None:
            return None
        v = self.cls_lookup(c.cls, name)
        if isinstance(v, Fn):
            return v.bind(o)
        if isinstance(v, Prim):
            if v.kind == "staticmethod":
                return v.data["fn"]
            if v.kind == "classmethod":
                return v.data["fn"].bind(c.cls)
            if v.kind == "property":
                return self.call(v.data["fn"].bind(o), [], {}, node) if node is not None else None
            if v.kind == "memo":
                return Partial(v, [o], {})
        return v

    def e_Subscript(self, e):
        o = self.expr(e.value)
        if self.heap is None:
            return o
        return self.subscript(o, e.slice, e)

    def subscript(self, o, slc, node):
        if isinstance(o, U):
            if all(isinstance(x, Arr) for x in o.vals):
                comps = self.np.parse_index(self, slc)
                r = None
                for x in o.vals:
                    r = self.joinV(r, self.np.index(self, x, comps, node))
                return r
            r = None
            for x in o.vals:
                if isinstance(x, Sc) and x.f.dt == "N":
                    continue
                r = self.joinV(r, self.subscript(x, slc, node))
            return r if r is not None else Unk(F(sym("dead")))
        if isinstance(o, Arr) or isinstance(o, Sc) and o.f.dt not in ("U",) or isinstance(o, Prim) and o.kind == "ma":
            comps = self.np.parse_index(self, slc)
            if self.heap is None:
                return o
            return self.np.index(self, o, comps, node)
        if isinstance(o, (Tup, It)) or isinstance(o, Ref) or isinstance(o, Sc):
            if isinstance(slc, ast.Slice):
                return self.py.seq_slice(self, o, slc, node)
            k = self.expr(slc)
            if self.heap is None:
                return k
            return self.py.getitem(self, o, k, node)
        if isinstance(o, Prim):
            return self.py.prim_getitem(self, o, slc, node)
        if isinstance(o, Ext):
            return self.py.ext_getitem(self, o, slc, node)
        fs = [o]
        for x in ast.walk(slc):
            if isinstance(x, ast.Name):
                v = self.peek(x.id)
                if v is not None:
                    fs.append(v)
        f = self._unkf("item", fs, node)
        return Unk(f.w(term=mk("call", "item", *[self.facts(x).term for x in fs], const(ast.dump(slc)[:200]))))

    def e_Slice(self, e):
        return Prim("slice", lo=self.expr(e.lower) if e.lower else Sc(cF(None)), hi=self.expr(e.upper) if e.upper else Sc(cF(None)),
                    step=self.expr(e.step) if e.step else Sc(cF(None)))

    def e_Lambda(self, e):
        return self.mkfn(e, "<lambda>")

    def e_Yield(self, e):
        v = self.expr(e.value) if e.value is not None else Sc(cF(None))
        if self.heap is None:
            return v
        fr = self.frame
        if fr.cm is not None:
            fr.cm(v)
            return Sc(cF(None))
        y = fr.yields
        sl = bool(self.loopidx) and self.loopidx[len(self.loopidx) - 1] is not None and len(self.loopidx) > y["depth"]
        if sl:
            y["sym"] = True
        y["items"].append((e._id, self.unroll, v)) if not sl else y["elems"].__setitem__((e._id, self.unroll), v)
        return Sc(cF(None))

    def e_YieldFrom(self, e):
        v = self.expr(e.value)
        if self.heap is None:
            return v
        it = self.py.iterate(self, v, e)
        y = self.frame.yields
        if it.items is not None:
            for x in it.items:
                y["items"].append((e._id, self.unroll, x))
        else:
            y["sym"] = True
            if it.elem is not None:
                y["elems"][(e._id, self.unroll)] = it.elem(Sc(F(sym("k"), (0, INF), "i")))
        return Sc(cF(None))

    def e_Await(self, e):
        return self.expr(e.value)

    # ---------------------------------------------------------- comprehension
    def e_ListComp(self, e):
        return self.comp(e, e.elt, "list")

    def e_SetComp(self, e):
        return self.comp(e, e.elt, "set")

    def e_GeneratorExp(self, e):
        return self.comp(e, e.elt, "gen")

    def e_DictComp(self, e):
        return self.comp(e, (e.key, e.value), "dict")

    def comp(self, e, elt, kind):
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        fid = ("comp", self.ctx, e._id)
        parent = self.frame.scope
        sc = Scope(fid, frozenset(names), parent, parent.mod)
        fr = Frame(sc, self.frame.fn)
        fr.yields = self.frame.yields
        first = self.expr(e.generators[0].iter)
        if self.heap is None:
            return first
        self.frames.append(fr)
        acc = {"items": [], "elem": None, "n": None, "sym": False, "cond": None, "keys": {}, "rest": None, "rk": None, "maybe": False}
        exact = [True]

        def emit():
            if kind == "dict":
                k, v = self.expr(elt[0]), self.expr(elt[1])
                if self.heap is None:
                    return
                if exact[0] and isinstance(k, Sc) and tm.is_const(k.f.term):
                    acc["keys"][k.f.term.args[0]] = v
                else:
                    acc["rest"] = self.joinV(acc["rest"], v)
                    acc["rk"] = self.joinV(acc["rk"], k)
                return
            v = self.expr(elt)
            if self.heap is None:
                return
            if exact[0]:
                acc["items"].append(v)
            else:
                acc["elem"] = self.joinV(acc["elem"], v)

        def gen(i, itval):
            g = e.generators[i]
            it = self.py.iterate(self, itval, g.iter)

            def body():
                conds = g.ifs
                def rest(j):
                    if j < len(conds):
                        c = self.expr(conds[j])
                        if self.heap is None:
                            return
                        t, f = self.truth(c)
                        if t is True:
                            rest(j + 1)
                        elif t is None:
                            ex = exact[0]
                            exact[0] = False
                            h0 = self.heap
                            self.ctrl.append(f)
                            self.heap = dict(h0)
                            self.refine(conds[j], True)
                            if self.heap is not None:
                                rest(j + 1)
                            self.ctrl.pop()
                            self.heap = self.join_heaps(self.heap, h0, f)
                            acc["sym"] = True
                            acc["cond"] = f if acc["cond"] is None else self._mix(acc["cond"], f)
                            exact[0] = ex
                        return
                    if i + 1 < len(e.generators):
                        nx = self.expr(e.generators[i + 1].iter)
                        if self.heap is not None:
                            gen(i + 1, nx)
                    else:
                        emit()
                rest(0)
            if it.items is not None and len(it.items) <= 64:
                save = self.unroll
                for j, x in enumerate(it.items):
                    if self.heap is None:
                        break
                    self.unroll = save + ((g.target._id, j),)
                    self.assign(g.target, x, g.target)
                    body()
                self.unroll = save
                return
            n = it.n if it.n is not None else sym("len", g.iter._id, self.ctx)
            acc["sym"] = True
            acc["n"] = n if acc["n"] is None else mk("mul", acc["n"], n)
            ex = exact[0]
            exact[0] = False
            idt = sym("it", g.target._id, self.ctx, self.unroll)
            acc["multi"] = acc.get("idt") is not None and acc["idt"] is not idt or len(e.generators) > 1
            acc["idt"] = idt
            idx = Sc(F(idt, (0, INF), "i", it.deps | self.np.tdeps(n), "MIX" if self.np.is_pdim(self, n) else None))
            h0 = self.heap
            self.pushloop(idt)
            for p in range(3):
                self.loopfresh[-1].clear()
                if it.items is not None:
                    x = None
                    for y in it.items:
                        x = self.joinV(x, y)
                else:
                    x = it.elem(idx) if it.elem is not None else Unk(F(sym("elem", g.iter._id, self.ctx), deps=it.deps))
                if acc["elem"] is not None and p:
                    acc["elem"] = None
                self.assign(g.target, x, g.target)
                body()
                if self.heap is None:
                    break
                self.ev("drain", g.target, key=(), lid=(g.target._id, self.ctx, self.unroll), idt=idt, n=n, end=self.heap, owner=e)
                acc["end"] = self.heap
                new, changed = self.join_back(h0, self.stale(self.heap, h0, idt), (g.target._id, self.ctx, self.unroll), p,
                                              F(const(0), deps=it.deps), h0)
                self.heap = new
                h0 = new
                if not changed:
                    break
            self.poploop()
            exact[0] = ex
        gen(0, first)
        self.frames.pop()
        if self.heap is None:
            return Unk(F(sym("dead")))
        for nm in names:
            self.heap.pop(("v", fid, nm), None) if not self._captures(e) else None
        if kind == "dict":
            return Ref(self.alloc(e, DictC(acc["keys"], EMPTY, acc["rest"], acc["rk"]), "d"))
        if acc["sym"]:
            el = acc["elem"]
            for x in acc["items"]:
                el = self.joinV(el, x)
            if acc["cond"] is not None and isinstance(el, Sc):
                el = self._infl(el, acc["cond"])
            at = acc.get("idt") if acc["cond"] is None and not acc["items"] and not acc.get("multi") else None
            if at is not None and isinstance(el, Arr) and not el.path and isinstance(acc["end"].get(el.loc), ArrC):
                nl = el.loc[:4] + (f"{el.loc[4]}@of{at.id}",)
                self.heap[nl] = acc["end"][el.loc]
                el = Arr(nl)
            n = acc["n"] if acc["cond"] is None and not acc["items"] else mk("filtered", acc["n"] or const(0), sym("cond", e._id, self.ctx))
            if kind == "gen":
                return It(None, (lambda i, el=el: self.elem_at(el, i, at)) if el is not None else None, n, self.facts(el).deps if el is not None else EMPTY, "gen")
            return self.list_(e, None, el, n, "set" if kind == "set" else "list", idx=at)
        if kind == "gen":
            return It(acc["items"], kind="gen")
        return self.list_(e, acc["items"], kind="set" if kind == "set" else "list")

    def _captures(self, e):
        r = getattr(e, "_capt", None)
        if r is None:
            r = e._capt = any(isinstance(n, ast.Lambda) for n in ast.walk(e))
        return r

    # ------------------------------------------------------------------ calls
    def e_Call(self, e):
        fn = self.expr(e.func)
        if self.heap is None:
            return fn
        args, kw, extra = [], {}, None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value)
                if self.heap is None:
                    return v
                it = self.items_of(v)
                if it is None:
                    i2 = self.py.iterate(self, v, a)
                    it = i2.items
                if it is None:
                    args.append(Prim("star", it=i2))
                else:
                    args.extend(it)
            else:
                args.append(self.expr(a))
            if self.heap is None:
                return Unk(F(sym("dead")))
        for k in e.keywords:
            v = self.expr(k.value)
            if self.heap is None:
                return v
            if k.arg is None:
                for r in self.alts(v):
                    c = self.c(r.loc) if isinstance(r, Ref) else None
                    if isinstance(c, DictC):
                        for kk, vv in c.keys.items():
                            kw[kk] = self.joinV(kw[kk], vv) if isinstance(v, U) and kk in kw else vv
            else:
                kw[k.arg] = v
        return self.call(fn, args, kw, e)

    def call(self, fn, args, kw, node, decorator=False):
        self.stats["calls"] += 1
        if self.openres and not self.py.releases(self, fn):
            self.risk(node)
        if self.heap is None:
            return Unk(F(sym("dead")))
        if isinstance(fn, U):
            h0 = self.heap
            out, hout = None, None
            for x in fn.vals:
                if isinstance(x, Sc) and x.f.dt == "N":
                    continue
                self.heap = dict(h0)
                v = self.call(x, args, kw, node)
                if self.heap is not None:
                    out = self.joinV(out, v)
                    hout = self.join_heaps(hout, self.heap)
            self.heap = hout
            return out if out is not None else Unk(F(sym("dead")))
        if isinstance(fn, Fn):
            return self.call_fn(fn, args, kw, node)
        if isinstance(fn, Partial):
            k2 = dict(fn.kw)
            k2.update(kw)
            return self.call(fn.fn, list(fn.args) + list(args), k2, node)
        if isinstance(fn, Cls):
            return self.instantiate(fn, args, kw, node)
        if isinstance(fn, Ext):
            return self.py.call_ext(self, fn.name, args, kw, node, decorator)
        if isinstance(fn, Meth):
            return self.py.call_meth(self, fn.recv, fn.name, args, kw, node)
        if isinstance(fn, Prim):
            return self.py.call_prim(self, fn, args, kw, node)
        if isinstance(fn, Ref):
            c = self.c(fn.loc)
            if isinstance(c, ObjC):
                g = self.getattr_raw(fn, "__call__")
                if g is not None:
                    return self.call(g, args, kw, node)
        if isinstance(fn, Unk):
            # an unknown callee: may call back functions it was given
            self.unm("call of an unknown value", node)
        return Unk(self._unkf("unknown", [fn] + list(args) + list(kw.values()), node))

    def instantiate(self, cls, args, kw, node):
        o = Ref(self.alloc(node, ObjC(cls, {}), "obj:" + cls.qual))
        init = self.cls_lookup(cls, "__init__")
        if isinstance(init, Fn):
            self.call_fn(init.bind(o), args, kw, node)
        elif any(isinstance(b, Ext) and b.name not in ("builtins.object",) for b in cls.bases):
            self.heap[o.loc] = ObjC(cls, {"args": Tup(args)})
        return o

    def bind(self, fn, args, kw, node):
        """parameter name -> value, or None when the call must fail"""
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if fn.selfv is not None:
            args = [fn.selfv] + args
        i = 0
        flat = []
        for v in args:
            if isinstance(v, Prim) and v.kind == "star":
                it = v.data["it"]
                left = len(pos) - len(flat)
                for j in range(max(left, 0)):
                    if pos[len(flat)] in kw:
                        break
                    flat.append(it.elem(Sc(cF(j))) if it.elem is not None else Unk(F(sym("star", j), deps=it.deps)))
            else:
                flat.append(v)
        for i, v in enumerate(flat):
            if i < len(pos):
                out[pos[i]] = v
        if len(flat) > len(pos):
            if a.vararg is None:
                return None
            out[a.vararg.arg] = Tup(flat[len(pos):])
        elif a.vararg is not None:
            out[a.vararg.arg] = Tup([])
        rest = {}
        for k, v in kw.items():
            if k in pos or any(x.arg == k for x in a.kwonlyargs):
                if k in out:
                    return None
                out[k] = v
            elif a.kwarg is not None:
                rest[k] = v
            else:
                return None
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.dict_(node, rest, "kw")
        nd = len(fn.defs)
        for i, n in enumerate(pos):
            if n not in out:
                j = i - (len(pos) - nd)
                if j < 0:
                    return None
                out[n] = fn.defs[j]
        for x in a.kwonlyargs:
            if x.arg not in out:
                if x.arg not in fn.kwdefs:
                    return None
                out[x.arg] = fn.kwdefs[x.arg]
        return out

    def depth_of(self, node):
        n, c = 0, self.ctx
        d = 0
        while c:
            p, site = self.ctxinfo[c]
            d += 1
            c = p
        for fr in self.frames:
            if fr.fn is not None and fr.fn.node is node:
                n += 1
        return n, d

    def call_fn(self, fn, args, kw, node, owner_params=None):
        rec, depth = self.depth_of(fn.node)
        if rec >= 3 or depth > 40:
            self.unm("recursion", node)
            return Unk(self._unkf("rec:" + fn.qual, list(args), node))
        b = self.bind(fn, args, kw, node)
        if b is None:
            self.ev("badcall", node, fn=fn.qual)
            self.raise_(node, "TypeError: arguments do not fit " + fn.qual, explicit=False)
            return Unk(F(sym("dead")))
        if self.phase != "import":
            self.stats["functions"].add(fn.node._id)
        loc, glob, nonl, isgen = locals_of(fn.node)
        save = self.ctx
        self.ctx = self.newctx(node._id if hasattr(node, "_id") else str(node))
        fid = ("fn", self.ctx, fn.node._id)
        sc = Scope(fid, loc, fn.fid if fn.fid is not None else None, fn.mod, glob, nonl)
        if fn.fid is None:
            sc.parent = Scope(("mod", fn.mod), EMPTY, None, fn.mod)
        for n in loc:
            self.heap.pop(("v", fid, n), None)
        for k, v in b.items():
            self.heap[("v", fid, k)] = v
        fr = Frame(sc, fn)
        fr.cm, self.cmbody = self.cmbody, None
        if isgen:
            fr.yields = {"items": [], "elems": {}, "sym": False, "depth": len(self.loopidx)}
        self.frames.append(fr)
        ctrl, self.ctrl = self.ctrl, []
        self.ev("enter", fn.node, key=node._id if hasattr(node, "_id") else str(node), args={k: self.snap(v) for k, v in b.items()}, call=node, fn=fn)
        if isinstance(fn.node, ast.Lambda):
            v = self.expr(fn.node.body)
            if self.heap is not None:
                fr.rets.append((self.heap, v))
        else:
            self.block(fn.node.body)
            if self.heap is not None:
                fr.rets.append((self.heap, Sc(cF(None))))
        self.frames.pop()
        self.ctrl = ctrl
        self.heap = None
        out = None
        # returns are recorded in program order; the conditions that separate
        # them were applied to the merged values when each branch joined
        for i, (h, v) in enumerate(fr.rets):
            if out is None:
                out, self.heap = v, h
            else:
                cf = self.retctl(fr, i)
                out = self.joinV(out, v, cf)
                self.heap = self.join_heaps(self.heap, h, cf)
        if self.heap is not None and self.hooks:
            hk = self.hooks.get(getattr(fn.node, "name", None))
            if hk is not None and isinstance(getattr(fn.node, "_parent", None), ast.Module):
                out = hk(self, out)
        if self.heap is not None:
            self.ev("leave", fn.node, key=node._id if hasattr(node, "_id") else str(node), ret=self.snap(out), call=node, fn=fn)
            if not self._has_closure(fn.node):
                for n in loc:
                    self.heap.pop(("v", fid, n), None)
        self.ctx = save
        if self.heap is None:
            return Unk(F(sym("dead")))
        if isgen:
            y = fr.yields
            if not y["sym"]:
                return It([v for _, _, v in y["items"]], kind="gen")
            el = None
            for v in list(y["elems"].values()) + [v for _, _, v in y["items"]]:
                el = self.joinV(el, v)
            return It(None, (lambda i, el=el: self.elem_at(el, i)) if el is not None else None, sym("genlen", node._id, self.ctx), self.facts(el).deps if el is not None else EMPTY, "gen")
        return out

    def retctl(self, fr, i):
        r = getattr(fr.fn.node, "_retif", None)
        fs = None
        # the conditions of the function's branches that contain a return
        if r is None:
            r = []
            for n in ast.walk(fr.fn.node):
                if isinstance(n, (ast.If, ast.While, ast.For)) and any(isinstance(x, ast.Return) for x in ast.walk(n)):
                    r.append(n)
            fr.fn.node._retif = r
        for n in r:
            for e in self.events.values():
                if e.kind == "branch" and e.node is n and e.ctx == self.ctx and e.d["truth"] is None:
                    fs = e.d["f"] if fs is None else self._mix(fs, e.d["f"]).w(term=mk("and", fs.term, e.d["f"].term))
        return fs

    def _has_closure(self, node):
        r = getattr(node, "_clos", None)
        if r is None:
            r = node._clos = any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for b in ast.iter_child_nodes(node) for n in ast.walk(b)
                                 if n is not node)
        return r

    def snap(self, v):
        """value plus the facts it has right now (for later inspection)"""
        if isinstance(v, Arr):
            sh, f = self.rd(v)
            return (v, sh, f)
        if isinstance(v, (Sc, Unk)):
            return (v, () if isinstance(v, Sc) else None, v.f)
        return (v, None, None)
