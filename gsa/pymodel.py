"""Model of the Python language's built-ins and of the non-numpy libraries:
iteration, containers, functools/itertools, generators of random numbers,
optimisers and other callback takers, processes and shared memory."""
import ast
from . import terms as tm
from .terms import mk, const, sym
from .values import (F, cF, V, Sc, Arr, Tup, Ref, Fn, Ext, Meth, Mod, Cls, Partial, Prim, It, U, Unk,
                     ArrC, ListC, DictC, ObjC, RngC, ResC, vsame, TOP, INF, EMPTY)
from . import facts as fx
from . import npmodel as np_
from .npmodel import A, isnone, constof, boolarg

NONE = Sc(cF(None))
DEAD = Unk(F(sym("dead")))

EXCEPTIONS = {"BaseException", "Exception", "ValueError", "TypeError", "KeyError", "IndexError", "AssertionError", "RuntimeError",
              "NotImplementedError", "AttributeError", "ArithmeticError", "ZeroDivisionError", "OverflowError", "StopIteration",
              "OSError", "IOError", "ImportError", "NameError", "LookupError", "Warning", "UserWarning", "RuntimeWarning",
              "DeprecationWarning", "FloatingPointError", "TimeoutError", "KeyboardInterrupt", "FutureWarning"}
NAMES = EXCEPTIONS | {
    "range", "len", "zip", "enumerate", "map", "filter", "list", "tuple", "dict", "set", "frozenset", "int", "float", "bool", "str",
    "abs", "min", "max", "sum", "any", "all", "sorted", "reversed", "isinstance", "issubclass", "type", "callable", "hasattr",
    "getattr", "setattr", "print", "repr", "round", "pow", "divmod", "iter", "next", "slice", "super", "object", "id", "hash",
    "open", "input", "staticmethod", "classmethod", "property", "vars", "complex", "bytes", "globals", "locals", "eval", "exec",
    "format", "chr", "ord", "memoryview", "delattr", "bytearray"}


def builtin(name):
    if name in NAMES:
        return Ext("builtins." + name)
    if name == "NotImplemented":
        return Unk(F(sym("NotImplemented")))
    if name == "__debug__":
        return Sc(cF(True))
    if name == "Ellipsis":
        return Ext("builtins.Ellipsis")
    return Unk(F(sym("undefined", name)))


ALIAS = {"scipy.optimize.optimize": "scipy.optimize", "scipy.stats._mvn": "scipy.stats.mvn", "numpy.core": "numpy",
         "scipy.stats._continuous_distns": "scipy.stats", "scipy.stats.distributions": "scipy.stats", "numpy.matlib": "numpy",
         "scipy.special._ufuncs": "scipy.special", "multiprocess": "multiprocessing", "collections.abc.Callable": "typing.Callable",
         "scipy.interpolate._cubic": "scipy.interpolate", "scipy.optimize._optimize": "scipy.optimize", "numpy.lib": "numpy"}


def canon(name):
    for k, v in ALIAS.items():
        if name == k or name.startswith(k + "."):
            return v + name[len(k):]
    return name


CONSTS = {"numpy.pi": 3.141592653589793, "math.pi": 3.141592653589793, "numpy.e": 2.718281828459045, "math.e": 2.718281828459045,
          "numpy.inf": INF, "math.inf": INF, "numpy.Inf": INF, "numpy.infty": INF, "numpy.nan": float("nan"), "math.nan": float("nan"),
          "numpy.NaN": float("nan"), "numpy.newaxis": None, "math.tau": 6.283185307179586, "numpy.euler_gamma": 0.5772156649015329,
          "numpy.True_": True, "numpy.False_": False, "numpy.NAN": float("nan"), "numpy.PINF": INF, "numpy.NINF": -INF}


def extattr(I, ext, name):
    full = canon(ext.name + "." + name)
    if full in CONSTS:
        return Sc(cF(CONSTS[full]))
    if full.startswith("sys.") and name in ("float_info", "maxsize"):
        return Unk(F(sym("ext", full)))
    if full == "os.environ":
        return Ext(full)
    return Ext(full)


# ------------------------------------------------------------------ iteration
KIDX = Sc(F(sym("k"), (0, INF), "i"))


def iterate(I, v, node):
    if isinstance(v, It):
        if isinstance(v.kind, tuple) and v.kind[0] == "results" and not (v.kind[2] is node):
            collected(I, v.kind[1], v.kind[2], node)
        return v
    if isinstance(v, Tup):
        return It(list(v.items))
    if isinstance(v, Ref):
        c = I.c(v.loc)
        if isinstance(c, ListC):
            if c.items is not None:
                return It(list(c.items))
            if c.kind == "iter" or True:
                return It(None, (lambda i, c=c: I.elem_at(c.elem, i, c.idx)) if c.elem is not None else None, c.n,
                          I.facts(c.elem).deps if c.elem is not None else EMPTY)
        if isinstance(c, DictC):
            return dict_iter(I, v, c, "keys", node)
        if isinstance(c, ObjC):
            g = I.getattr_raw(v, "__iter__", node)
            if g is not None:
                r = I.call(g, [], {}, node)
                if r is not v:
                    return iterate(I, r, node)
            g = I.getattr_raw(v, "__next__", node)
            if g is not None:
                return It(None, lambda i: I.call(g, [], {}, node), None)
            g = I.getattr_raw(v, "__getitem__", node)
            if g is not None:
                return It(None, lambda i: I.call(g, [i], {}, node), None)
        return It(None, None, None, I.facts(v).deps)
    if isinstance(v, Arr):
        sh, f = I.rd(v)
        if sh is None:
            u = Unk(F(mk("el", f.term), f.itv, f.dt, f.deps, "MIX" if f.pl else None, None, f.bad, f.trial))
            return It(None, lambda i: Unk(u.f.w(term=mk("el", f.term, i.f.term))), mk("dim0", f.term), f.deps)
        if len(sh) == 0:
            return It([])
        n = tm.num_const(sh[0])
        if n is not None and 0 <= n <= 16:
            return It([I.np.index(I, v, [("i", Sc(cF(int(k))))], node) for k in range(int(n))])
        return It(None, lambda i: I.np.index(I, v, [("i", Sc(i.f.w(itv=(max(i.f.itv[0], 0), I.np.dim_itv(sh[0])[1] - 1))))], node),
                  sh[0], I.np.tdeps(sh[0]))
    if isinstance(v, Sc):
        it = I.items_of(v)
        if it is not None:
            return It(it)
        if v.f.dt == "N":
            I.raise_(node, "TypeError: None is not iterable", explicit=False)
            return It([])
        return It(None, lambda i: Unk(F(mk("el", v.f.term, i.f.term), deps=v.f.deps)), None, v.f.deps)
    if isinstance(v, U):
        its = [iterate(I, x, node) for x in v.vals if not (isinstance(x, Sc) and x.f.dt == "N")]
        if len(its) == 1:
            return its[0]
        items = None
        if its and all(t.items is not None for t in its) and len({len(t.items) for t in its}) == 1:
            items = []
            for xs in zip(*[t.items for t in its]):
                r = None
                for x in xs:
                    r = I.joinV(r, x)
                items.append(r)
            return It(items)

        def el(i):
            r = None
            for t in its:
                x = elem(I, t, i)
                r = I.joinV(r, x)
            return r
        return It(None, el, None, frozenset().union(*[t.deps for t in its]) if its else EMPTY)
    if isinstance(v, Prim) and v.kind in ("flatiter", "ma"):
        a = v.data.get("arr")
        if a is not None:
            return iterate(I, a, node)
        return iterate(I, Arr(I.alloc(node, ArrC(v.data["shape"], v.data["f"]), "maiter")), node)
    f = I.facts(v)
    return It(None, lambda i: Unk(F(mk("el", f.term, i.f.term), TOP, "?", f.deps, "MIX" if f.pl else None, None, f.bad, f.trial)), None, f.deps)


def elem(I, it, i):
    """element of any It at a position"""
    if it.items is not None:
        k = tm.num_const(i.f.term)
        if k is not None and 0 <= k < len(it.items):
            return it.items[int(k)]
        r = None
        for x in it.items:
            r = I.joinV(r, x)
        return I.elem_at(r, i) if r is not None else Unk(F(sym("emptyitem")))
    if it.elem is None:
        return Unk(F(sym("item"), deps=it.deps))
    r = it.elem(i)
    return r if r is not None else Unk(F(sym("emptyitem")))


def dict_iter(I, ref, c, what, node):
    def pair(k, v):
        return v if what == "values" else k if what == "keys" else Tup([k, v])
    if c.rest is None and not c.maybe:
        return It([pair(Sc(cF(k)), v) for k, v in c.keys.items()])
    el = None
    for k, v in c.keys.items():
        el = I.joinV(el, pair(Sc(cF(k)), v))
    if c.rest is not None:
        el = I.joinV(el, pair(c.restkey if c.restkey is not None else Unk(F(sym("key"))), c.rest))
    if el is None:
        return It([])
    return It(None, lambda i: I.elem_at(el, i) or el, sym("dictlen", str(ref.loc)), I.facts(el).deps)


def drain(I, it, node):
    """run a lazy iterable to its end: (elem, n), effects joined in the heap"""
    if it.elem is None:
        return None, it.n
    idt = sym("it", node._id, I.ctx, I.unroll, "drain")
    idx = Sc(F(idt, (0, INF), "i", it.deps | (I.np.tdeps(it.n) if it.n is not None else EMPTY),
               "MIX" if it.n is not None and I.np.is_pdim(I, it.n) else None))
    h0 = I.heap
    el = None
    I.pushloop(idt)
    for p in range(6):
        I.loopfresh[-1].clear()
        I.heap = dict(h0)
        el = it.elem(idx)
        if I.heap is None:
            break
        I.ev("drain", node, key=(), lid=(node._id, I.ctx, I.unroll, "drain"), idt=idt, n=it.n, end=I.heap)
        new, changed = I.join_back(h0, I.stale(I.heap, h0, idt), (node._id, I.ctx, I.unroll, "drain"), p, F(const(0), deps=it.deps), h0)
        I.heap = new
        h0 = new
        if not changed:
            break
    I.poploop()
    if I.heap is None:
        I.heap = h0
    return el, it.n


def mklist(I, v, node, kind="list"):
    it = iterate(I, v, node)
    if I.heap is None:
        return DEAD
    if it.items is not None:
        return I.list_(node, list(it.items), kind=kind)
    el, n = drain(I, it, node)
    return I.list_(node, None, el, n if n is not None else sym("len", node._id, I.ctx), kind)


def rdlist(I, v, node):
    """any iterable as an array value"""
    if isinstance(v, (Arr, Sc)):
        return v
    if isinstance(v, It) or isinstance(v, Ref):
        it = iterate(I, v, node)
        if it.items is None:
            el, n = drain(I, it, node)
            if el is None:
                return Unk(F(sym("empty")))
            s, f = I.rd(el)
            if s is None or n is None:
                return Unk(f)
            return I.arr(node, (n,) + s, fx.shift(f, 1), "itarr")
        v = Tup(it.items)
    s, f = I.rd(v)
    if s is None:
        return Unk(f)
    return I.arr(node, s, f, "itarr")


# ------------------------------------------------------------------- builtins
FUNCS = {}


def reg(*names):
    def g(f):
        for n in names:
            FUNCS[n] = f
        return f
    return g


def asint(I, v):
    return v if isinstance(v, Sc) else Sc(I.facts(v))


@reg("builtins.range")
def b_range(I, args, kw, node):
    a = [asint(I, x) for x in args]
    if len(a) == 1:
        lo, hi, st = Sc(cF(0)), a[0], Sc(cF(1))
    else:
        lo, hi = a[0], a[1]
        st = a[2] if len(a) > 2 else Sc(cF(1))
    for x in a:
        np_.need_int(I, x.f, node, code=False)
    if I.codes is not None:
        np_.sizeby(I, hi.f.w(term=mk("sub", hi.f.term, lo.f.term)), node)
    cs = [tm.num_const(x.f.term) for x in (lo, hi, st)]
    if None not in cs:
        n = len(range(*[int(c) for c in cs]))
        if n <= 16:
            return It([Sc(cF(k)) for k in range(*[int(c) for c in cs])], kind="range")
        ln = const(n)
    else:
        d = mk("sub", hi.f.term, lo.f.term)
        ln = d if st.f.term is tm.ONE else mk("floordiv", mk("add", d, mk("sub", st.f.term, const(1))), st.f.term) if cs[2] is not None and cs[2] > 0 \
            else mk("rangelen", lo.f.term, hi.f.term, st.f.term)
        if cs[2] == -1:
            ln = mk("sub", lo.f.term, hi.f.term)
        nn = tm.num_const(ln)
        if nn is not None and 0 <= nn <= 16 and cs[2] in (1, -1):
            out = []
            for k in range(int(nn)):
                out.append(Sc(fx.elementwise("add", [lo.f, cF(k * int(cs[2]))], [(), ()])[1]))
            return It(out, kind="range")
    deps = lo.f.deps | hi.f.deps | st.f.deps
    llo, lhi = lo.f.itv
    if cs[2] is not None and cs[2] > 0:
        itv = (llo, max(hi.f.itv[1] - 1, llo))
    else:
        itv = (min(hi.f.itv[0] + 1, lhi), lhi)
    plain = lo.f.term is tm.ZERO and st.f.term is tm.ONE

    def el(i):
        if plain:
            return Sc(i.f.w(itv=(max(itv[0], i.f.itv[0]), min(itv[1], i.f.itv[1])) if i.f.itv[0] <= itv[1] else itv, dt="i", deps=i.f.deps | deps))
        t = mk("add", lo.f.term, mk("mul", i.f.term, st.f.term))
        return Sc(i.f.w(term=t, itv=itv, dt="i", deps=i.f.deps | deps))
    return It(None, el, ln, deps, "range")


@reg("builtins.len")
def b_len(I, args, kw, node):
    v = args[0]
    if isinstance(v, U):
        r = None
        for x in v.vals:
            if isinstance(x, Sc) and x.f.dt == "N":
                continue
            r = I.joinV(r, b_len(I, [x], {}, node))
        return r if r is not None else DEAD
    if isinstance(v, Arr) or np_.isma(v):
        sh, f = I.rd(v)
        if sh is None:
            return Sc(F(mk("len", f.term), (0, INF), "i", EMPTY, "MIX" if f.pl is not None else None))
        if not sh:
            I.raise_(node, "TypeError: len() of unsized object", explicit=False)
            return DEAD
        return I.np.dimval(I, sh[0])
    if isinstance(v, Tup):
        return Sc(cF(len(v.items)))
    if isinstance(v, Ref):
        c = I.c(v.loc)
        if isinstance(c, ListC):
            if c.items is not None and c.kind != "set":
                return Sc(cF(len(c.items)))
            if c.items is not None:
                return Sc(F(sym("setlen", str(v.loc)), (min(1, len(c.items)), len(c.items)), "i", I.facts(v).deps))
            if c.n is not None:
                return Sc(F(c.n, I.np.dim_itv(c.n) if c.kind == "list" else (0, INF), "i", I.facts(c.elem).deps if c.elem is not None and False else I.np.tdeps(c.n)))
        if isinstance(c, DictC) and c.rest is None and not c.maybe:
            return Sc(cF(len(c.keys)))
        if isinstance(c, ObjC):
            g = I.getattr_raw(v, "__len__", node)
            if g is not None:
                return I.call(g, [], {}, node)
    if isinstance(v, Sc) and v.f.dt == "U" and tm.is_const(v.f.term):
        return Sc(cF(len(v.f.term.args[0])))
    f = I.facts(v)
    return Sc(F(mk("len", f.term), (0, INF), "i", f.deps, f.pl and "MIX"))


@reg("builtins.zip")
def b_zip(I, args, kw, node):
    flat = []
    for a in args:
        if isinstance(a, Prim) and a.kind == "star":
            # zip(*rows): transposes
            it = a.data["it"]
            return It(None, lambda i: Tup([I.item_at(elem(I, it, KIDX), i, node)]), None, it.deps)
        flat.append(a)
    its = [iterate(I, a, node) for a in flat]
    if not its:
        return It([])
    ex = [len(t.items) for t in its if t.items is not None]
    deps = frozenset().union(*[t.deps for t in its])
    if ex and (all(t.items is not None or t.n is None for t in its) or min(ex) <= 16):
        n = min(ex)
        return It([Tup([elem(I, t, Sc(cF(k))) for t in its]) for k in range(n)], kind="zip")
    n = next((t.n for t in its if t.n is not None), None)
    ns = {t.n for t in its if t.n is not None}
    if len(ns) > 1:
        n = mk("min", *sorted(ns, key=lambda q: q.id)) if len(ns) == 2 else n
    return It(None, lambda i: Tup([elem(I, t, i) for t in its]), n, deps, "zip")


@reg("builtins.enumerate")
def b_enumerate(I, args, kw, node):
    it = iterate(I, args[0], node)
    st = A(args, kw, 1, "start") or Sc(cF(0))
    def num(i):
        return i if constof(st) == 0 else Sc(fx.elementwise("add", [i.f, st.f], [(), ()])[1].w(dt="i"))
    if it.items is not None:
        return It([Tup([num(Sc(cF(k))), x]) for k, x in enumerate(it.items)], kind="enumerate")
    return It(None, lambda i: Tup([num(i), elem(I, it, i)]), it.n, it.deps, "enumerate")


@reg("builtins.map")
def b_map(I, args, kw, node):
    fn = args[0]
    its = [iterate(I, a, node) for a in args[1:]]
    return mapped(I, lambda xs: I.call(fn, xs, {}, node), its, node)


def mapped(I, call, its, node):
    z = its[0] if len(its) == 1 else None
    ex = [len(t.items) for t in its if t.items is not None]
    deps = frozenset().union(*[t.deps for t in its]) if its else EMPTY
    if ex and (all(t.items is not None or t.n is None for t in its) or min(ex) <= 16):
        out = []
        save = I.unroll
        for k in range(min(ex)):
            if I.heap is None:
                break
            I.unroll = save + ((node._id, k),)
            out.append(call([elem(I, t, Sc(cF(k))) for t in its]))
        I.unroll = save
        return It(out, kind="map")
    n = next((t.n for t in its if t.n is not None), None)
    return It(None, lambda i: call([elem(I, t, i) for t in its]), n, deps, "map")


@reg("itertools.starmap")
def i_starmap(I, args, kw, node):
    it = iterate(I, args[1], node)
    fn = args[0]

    def spread(x):
        xs = I.items_of(x)
        return xs if xs is not None else [Prim("star", it=iterate(I, x, node))]
    return mapped(I, lambda xs: I.call(fn, spread(xs[0]), {}, node), [it], node)


@reg("builtins.filter", "itertools.filterfalse", "itertools.takewhile", "itertools.dropwhile")
def b_filter(I, args, kw, node):
    it = iterate(I, args[1], node)
    e = elem(I, it, KIDX)
    if not isnone(args[0]):
        def el(i):
            x = elem(I, it, i)
            c = I.call(args[0], [x], {}, node)
            return I._infl(x, I.facts(c)) if isinstance(x, Sc) else x
        return It(None, el, sym("filtered", node._id, I.ctx), it.deps)
    return It(None, lambda i: elem(I, it, i), sym("filtered", node._id, I.ctx), it.deps)


@reg("builtins.list")
def b_list(I, args, kw, node):
    if not args:
        return I.list_(node, [])
    return mklist(I, args[0], node)


@reg("builtins.set", "builtins.frozenset")
def b_set(I, args, kw, node):
    if not args:
        return I.list_(node, [], kind="set")
    return mklist(I, args[0], node, "set")


@reg("builtins.tuple")
def b_tuple(I, args, kw, node):
    if not args:
        return Tup([])
    it = iterate(I, args[0], node)
    if I.heap is None:
        return DEAD
    if it.items is not None:
        return Tup(it.items)
    el, n = drain(I, it, node)
    return I.list_(node, None, el, n, "tuple")


@reg("builtins.iter")
def b_iter(I, args, kw, node):
    return iterate(I, args[0], node)


@reg("builtins.next")
def b_next(I, args, kw, node):
    v = args[0]
    if isinstance(v, Ref) and isinstance(I.c(v.loc), ObjC):
        g = I.getattr_raw(v, "__next__", node)
        if g is not None:
            return I.call(g, [], {}, node)
    if I.phase != "import" and any(h is v for k, h in I.heap.items() if k[0] == "g"):
        I.ev("gwrite", node, key="next", what="the position of a module-level iterator")
    it = iterate(I, v, node)
    return elem(I, it, Sc(F(sym("nextidx", node._id, I.ctx), (0, INF), "i"))) if it.items is None or len(it.items) != 1 else it.items[0]


@reg("builtins.dict", "collections.OrderedDict", "collections.defaultdict")
def b_dict(I, args, kw, node):
    keys, rest, maybe, rk = {}, None, set(), None
    a = [x for x in args if not isinstance(x, (Fn, Ext))]
    if a:
        for r in I.alts(a[0]):
            c = I.c(r.loc) if isinstance(r, Ref) else None
            if isinstance(c, DictC):
                keys.update(c.keys)
                maybe |= set(c.maybe)
                rest, rk = I.joinV(rest, c.rest), I.joinV(rk, c.restkey)
            else:
                it = iterate(I, r, node)
                if it.items is not None:
                    for x in it.items:
                        p = I.items_of(x)
                        if p and len(p) == 2 and isinstance(p[0], Sc) and tm.is_const(p[0].f.term):
                            keys[p[0].f.term.args[0]] = p[1]
                        else:
                            rest = I.joinV(rest, p[1] if p else Unk(I.facts(x)))
                elif it.elem is not None:
                    x, n = drain(I, it, node)
                    p = I.items_of(x)
                    rest = I.joinV(rest, p[1] if p and len(p) == 2 else Unk(I.facts(x)))
                    rk = I.joinV(rk, p[0] if p and len(p) == 2 else Unk(I.facts(x)))
    for k, v in kw.items():
        keys[k] = v
        maybe.discard(k)
    return Ref(I.alloc(node, DictC(keys, maybe, rest, rk), "d"))


def conv(code, name):
    def g(I, args, kw, node):
        if not args:
            return Sc(cF({"i": 0, "f": 0.0, "b": False, "U": "", "c": 0j}[code]))
        v = args[0]
        if isinstance(v, U):
            v = np_.strip_none(I, v)
        if code == "b":
            t, f = I.truth(v)
            if t is not None:
                return Sc(cF(t))
            return Sc(f.w(term=mk("bool", f.term), itv=(0, 1), dt="b"))
        sh, f = I.rd(v)
        c = f.term
        if tm.is_const(c):
            x = c.args[0]
            try:
                y = {"i": int, "f": float, "U": str}.get(code, lambda q: q)(x)
                if code in "if" and not isinstance(x, str) or code in "ifU" and isinstance(x, (str, int)):
                    return Sc(cF(y).w(deps=f.deps, pl=f.pl))
            except (TypeError, ValueError, OverflowError):
                pass
        if code == "U":
            return Sc(F(mk("str", f.term), TOP, "U", f.deps, "MIX" if f.pl is not None else None, None, f.bad, f.trial))
        lo, hi = f.itv
        if code == "i" and f.dt not in ("i", "b", "inh:dataset"):
            t = mk("trunc", f.term) if f.dt != "i" else f.term
            miss = {s: (mk("trunc", w[0]), (fl(w[1][0]), fl(w[1][1]))) for s, w in f.miss.items()}
            I.ev("cast", node, vdt=f.dt, cdt="i", explicit=True) if False else None
            return Sc(F(t, (fl(lo), fl(hi)), "i", f.deps, f.pl, miss, f.bad, f.trial))
        return Sc(f.w(dt=code, props=EMPTY))
    return g


def fl(x):
    import math
    return x if x in (INF, -INF) or x != x else float(math.trunc(x))


for _n, _c in (("int", "i"), ("float", "f"), ("bool", "b"), ("str", "U"), ("complex", "c"), ("repr", "U"), ("format", "U")):
    FUNCS["builtins." + _n] = conv(_c, _n)


def toarr(I, v, node):
    return v if isinstance(v, (Arr, Sc)) or np_.isma(v) else rdlist(I, v, node)


@reg("builtins.abs")
def b_abs(I, args, kw, node):
    return np_.FUNCS["numpy.abs"](I, [toarr(I, args[0], node)], {}, node)


def minmax(op, red):
    def g(I, args, kw, node):
        if kw.get("key") is not None and isinstance(kw["key"], Fn):
            vs = args if len(args) > 1 else [elem(I, iterate(I, args[0], node), KIDX)]
            for v in vs:
                I.call(kw["key"], [v], {}, node)
            return Unk(I._unkf(red, vs, node))
        if len(args) > 1:
            r = args[0]
            cs = [constof(a) for a in args]
            if all(isinstance(c, (int, float)) for c in cs):
                return Sc(cF((max if red == "max" else min)(cs)))
            for x in args[1:]:
                r = np_.FUNCS["numpy." + op](I, [r, x], {}, node)
                if isinstance(r, Sc):
                    pass
            return r
        v = args[0]
        it = I.items_of(v)
        if it is not None and it and all(isinstance(x, Sc) for x in it):
            return g(I, it, {}, node) if len(it) > 1 else it[0]
        a = toarr(I, v, node)
        sh, f = I.rd(a)
        if isinstance(a, Arr) and sh is not None:
            return np_.FUNCS["numpy." + red](I, [a], {}, node)
        lo, hi = f.itv
        return Sc(F(mk(red, f.term), f.itv, f.dt, f.deps, "MIX" if f.pl is not None else None, None, f.bad, f.trial))
    return g


FUNCS["builtins.max"] = minmax("maximum", "max")
FUNCS["builtins.min"] = minmax("minimum", "min")


@reg("builtins.sum", "math.fsum")
def b_sum(I, args, kw, node):
    start = A(args, kw, 1, "start")
    it = I.items_of(args[0])
    if it is not None:
        r = start
        for x in it:
            r = x if r is None else I.binop("add", r, x, node)
        return r if r is not None else Sc(cF(0))
    a = toarr(I, args[0], node)
    if isinstance(a, Arr):
        r = np_.FUNCS["numpy.sum"](I, [a, Sc(cF(0))], {}, node)
    else:
        f = I.facts(a)
        r = Unk(I._unkf("sum", [a], node))
    if start is not None and not (constof(start) == 0):
        r = I.binop("add", start, r, node)
    return r


def anyall(name):
    def g(I, args, kw, node):
        it = I.items_of(args[0])
        if it is not None:
            unk = []
            for x in it:
                t, f = I.truth(x)
                if t is None:
                    unk.append(f)
                elif t is (name == "any"):
                    return Sc(cF(t))
            if not unk:
                return Sc(cF(name == "all"))
            f = unk[0].w(dt="b")
            for u in unk[1:]:
                f = fx.elementwise("and" if name == "all" else "or", [f, u.w(dt="b")], [(), ()])[1]
            return Sc(f.w(dt="b"))
        a = toarr(I, args[0], node)
        if isinstance(a, Arr):
            return np_.FUNCS["numpy." + name](I, [a], {}, node)
        return Sc(I._unkf(name, [a], node).w(dt="b", itv=(0, 1)))
    return g


FUNCS["builtins.any"] = anyall("any")
FUNCS["builtins.all"] = anyall("all")


@reg("builtins.sorted", "builtins.reversed")
def b_sorted(I, args, kw, node):
    it = iterate(I, args[0], node)
    if isinstance(kw.get("key"), Fn):
        I.call(kw["key"], [elem(I, it, KIDX)], {}, node)
    rev = isinstance(node, ast.Call) and I.facts is not None and getattr(node.func, "id", "") == "reversed"
    I.ev("reorder", node, key=(), of=args[0])
    if it.items is not None:
        if rev:
            return It(list(reversed(it.items)))
        if all(isinstance(x, Sc) and tm.is_const(x.f.term) for x in it.items):
            try:
                xs = sorted(it.items, key=lambda x: x.f.term.args[0])
                if constof(kw.get("reverse")) is True:
                    xs.reverse()
                return I.list_(node, xs)
            except TypeError:
                pass
        e = None
        for x in it.items:
            e = I.joinV(e, x)
        if isinstance(e, Sc):
            e = Sc(e.f.w(term=mk("sorted", e.f.term), pl="MIX" if e.f.pl is not None else None))
        return I.list_(node, None, e, const(len(it.items)))
    if rev:
        n = it.n
        return It(None, lambda i: elem(I, it, Sc(i.f.w(term=mk("sub", mk("sub", n, const(1)), i.f.term)) if n is not None else i.f)), n, it.deps)
    el, n = drain(I, it, node)
    if isinstance(el, Sc):
        el = Sc(el.f.w(term=mk("sorted", el.f.term), pl="MIX" if el.f.pl is not None else None))
    return I.list_(node, None, el, n)


@reg("builtins.print", "warnings.warn", "logging.info", "logging.warning", "logging.debug", "warnings.simplefilter", "warnings.filterwarnings",
     "warnings.resetwarnings", "gc.collect")
def b_print(I, args, kw, node):
    if isinstance(node, ast.Call):
        nm = ast.unparse(node.func)
        if nm.endswith(("simplefilter", "filterwarnings")) and I.phase != "import":
            I.ev("gwrite", node, key="warnings", what="the process-wide warning filters") if not I_in_catch(I) else None
    return NONE


def I_in_catch(I):
    return any(isinstance(c, ResC) and c.kind == "catch_warnings" and c.state == "open" for c in I.heap.values())


def fold(name, f):
    def g(I, args, kw, node):
        cs = [constof(a) for a in args]
        if all(isinstance(c, (int, float)) for c in cs) and cs:
            try:
                return Sc(cF(f(*cs)))
            except (ValueError, OverflowError, ZeroDivisionError, TypeError):
                pass
        return np_.fn(I, name, [np_.strip_none(I, a) for a in args], node)
    return g


FUNCS["builtins.round"] = lambda I, args, kw, node: (Sc(cF(round(*[constof(a) for a in args]))) if all(isinstance(constof(a), (int, float)) for a in args)
                                                    else np_.FUNCS["numpy.round"](I, args[:1], {}, node))
FUNCS["builtins.pow"] = lambda I, args, kw, node: I.binop("pow", args[0], args[1], node)
FUNCS["builtins.divmod"] = lambda I, args, kw, node: Tup([I.binop("floordiv", args[0], args[1], node), I.binop("mod", args[0], args[1], node)])
FUNCS["builtins.slice"] = lambda I, args, kw, node: (Prim("slice", lo=NONE, hi=args[0], step=NONE) if len(args) == 1 else
                                                    Prim("slice", lo=args[0], hi=args[1], step=args[2] if len(args) > 2 else NONE))
import math as _m
for _n in ("sqrt", "exp", "log", "sin", "cos", "tan", "log1p", "expm1", "log2", "log10", "floor", "ceil", "trunc", "tanh", "sinh", "cosh"):
    FUNCS["math." + _n] = (lambda nm: lambda I, args, kw, node: np_.FUNCS["numpy." + nm](I, args[:1], {}, node) if len(args) == 1 else
                           I.binop("div", np_.FUNCS["numpy.log"](I, args[:1], {}, node), np_.FUNCS["numpy.log"](I, args[1:2], {}, node), node))(_n)
for _a, _b in (("isnan", "isnan"), ("isinf", "isinf"), ("isfinite", "isfinite"), ("fabs", "abs"), ("pow", "power"), ("atan2", "arctan2"),
               ("acos", "arccos"), ("asin", "arcsin"), ("atan", "arctan"), ("hypot", "hypot"), ("prod", "prod"), ("isclose", "isclose")):
    FUNCS["math." + _a] = np_.FUNCS["numpy." + _b]
FUNCS["math.factorial"] = fold("factorial", _m.factorial)
FUNCS["math.comb"] = fold("comb", _m.comb)
FUNCS["math.gamma"] = np_.FUNCS["scipy.special.gamma"]
FUNCS["math.lgamma"] = np_.FUNCS["scipy.special.gammaln"]
FUNCS["math.erf"] = np_.FUNCS["scipy.special.erf"]
for _n, _o in (("add", "add"), ("sub", "sub"), ("mul", "mul"), ("truediv", "div"), ("pow", "pow"), ("floordiv", "floordiv"), ("mod", "mod"), ("matmul", "matmul")):
    FUNCS["operator." + _n] = (lambda o: lambda I, args, kw, node: I.binop(o, args[0], args[1], node))(_o)
for _n in ("lt", "le", "gt", "ge", "eq", "ne"):
    FUNCS["operator." + _n] = (lambda o: lambda I, args, kw, node: I.compare(o, args[0], args[1], node))(_n)
FUNCS["operator.neg"] = lambda I, args, kw, node: I.np.ew(I, "neg", args[:1], node)
FUNCS["operator.getitem"] = lambda I, args, kw, node: getitem(I, args[0], args[1], node)
FUNCS["operator.itemgetter"] = lambda I, args, kw, node: Prim("itemgetter", key=args[0] if len(args) == 1 else Tup(args))
FUNCS["operator.attrgetter"] = lambda I, args, kw, node: Prim("attrgetter", key=args[0])


# --------------------------------------------------------------- type queries
def kind_of(I, v):
    """python kind of a value: a name from the lattice below, or None when unknown"""
    if isinstance(v, Sc):
        dt = v.f.dt
        native = tm.is_const(v.f.term) or (v.f.term.op == "sym" and v.f.term.args and v.f.term.args[0] == "opt")
        if dt == "N":
            return "none"
        if dt == "U":
            return "str"
        if dt == "b" and native:
            return "bool"
        if dt == "i" and native:
            return "int"
        if dt == "f" and native:
            return "float"
        return None
    if isinstance(v, Arr) or np_.isma(v):
        return "ndarray"
    if isinstance(v, Tup):
        return "tuple"
    if isinstance(v, Ref):
        c = I.c(v.loc)
        if isinstance(c, ListC):
            return {"list": "list", "set": "set", "tuple": "tuple"}.get(c.kind, "list")
        if isinstance(c, DictC):
            return "dict"
        if isinstance(c, ObjC):
            return "object"
        if isinstance(c, RngC):
            return "rng:" + c.kind
        return "object"
    if isinstance(v, (Fn, Meth, Partial)):
        return "function"
    if isinstance(v, Prim):
        return {"usercall": "function", "usermodel": "function", "memo": "function", "interp": "function", "rv": "object",
                "vectorize": "function", "slice": "slice"}.get(v.kind, "prim")
    if isinstance(v, Ext):
        return "ext"
    if isinstance(v, Cls):
        return "class"
    if isinstance(v, It):
        return "iterator"
    return None


SUPERS = {"int": {"int", "Integral", "Number", "Real", "Rational", "Complex", "Hashable"}, "bool": {"bool", "int", "Integral", "Number", "Real", "Hashable"},
          "float": {"float", "Number", "Real", "Complex", "Hashable"}, "str": {"str", "Sequence", "Iterable", "Sized", "Collection", "Container", "Hashable"},
          "none": {"NoneType", "Hashable"},
          "tuple": {"tuple", "Sequence", "Iterable", "Sized", "Collection", "Container", "Hashable"},
          "list": {"list", "Sequence", "MutableSequence", "Iterable", "Sized", "Collection", "Container"},
          "set": {"set", "Set", "Iterable", "Sized", "Collection", "Container"},
          "dict": {"dict", "Mapping", "MutableMapping", "Iterable", "Sized", "Collection", "Container"},
          "ndarray": {"ndarray", "Iterable", "Sized", "Collection", "Container"},
          "function": {"Callable", "FunctionType", "Hashable"}, "slice": {"slice"}, "iterator": {"Iterable", "Iterator"}}


def isinst(I, v, t, node):
    """True / False / None"""
    ts = I.items_of(t)
    if ts is not None:
        rs = [isinst(I, v, x, node) for x in ts]
        if any(r is True for r in rs):
            return True
        return False if all(r is False for r in rs) else None
    if isinstance(v, U):
        rs = [isinst(I, x, t, node) for x in v.vals]
        return True if all(r is True for r in rs) else False if all(r is False for r in rs) else None
    k = kind_of(I, v)
    if k is None:
        if isinstance(v, Sc) and isinstance(t, Ext):
            n = t.name.split(".")[-1]
            if n in ("dict", "list", "tuple", "str", "set", "ndarray", "Callable", "Sequence", "Mapping", "Generator", "RandomState", "SeedSequence"):
                return False if v.f.dt in ("i", "b", "f", "c") else None
            if v.f.dt in ("f",) and n in ("bool", "int", "Integral"):
                return False
        return None
    if isinstance(t, Ext):
        n = t.name.split(".")[-1]
        if n == "object":
            return True
        if k.startswith("rng:"):
            return n in (k[4:],)
        if k in ("prim", "ext", "object", "class"):
            if n in ("int", "float", "bool", "str", "list", "tuple", "dict", "ndarray", "set"):
                return False
            return (k in ("ext", "class")) if n == "Callable" else None
        return n in SUPERS.get(k, {k})
    if isinstance(t, Cls):
        if isinstance(v, Ref) and isinstance(I.c(v.loc), ObjC) and isinstance(I.c(v.loc).cls, Cls):
            return issub(I.c(v.loc).cls, t)
        return False if k in SUPERS else None
    return None


def issub(c, t):
    if c.node is t.node:
        return True
    return any(issub(b, t) for b in c.bases if isinstance(b, Cls))


def tri(I, r, what, vs, node):
    if r is None:
        return Sc(I._unkf(what, vs, node).w(dt="b", itv=(0, 1)))
    return Sc(cF(r))


@reg("builtins.isinstance")
def b_isinstance(I, args, kw, node):
    return tri(I, isinst(I, args[0], args[1], node), "isinstance", args, node)


@reg("builtins.issubclass")
def b_issubclass(I, args, kw, node):
    a, b = args[0], args[1]
    if isinstance(a, Cls) and isinstance(b, Cls):
        return Sc(cF(issub(a, b)))
    return tri(I, None, "issubclass", args, node)


@reg("builtins.callable")
def b_callable(I, args, kw, node):
    v = args[0]
    if isinstance(v, U):
        rs = [constof(b_callable(I, [x], {}, node)) for x in v.vals]
        return tri(I, rs[0] if all(r is rs[0] for r in rs) and rs[0] is not None else None, "callable", args, node)
    if isinstance(v, (Fn, Ext, Meth, Partial, Cls)):
        return Sc(cF(True))
    if isinstance(v, Prim):
        return Sc(cF(kind_of(I, v) == "function"))
    if isinstance(v, Ref):
        c = I.c(v.loc)
        return Sc(cF(isinstance(c, ObjC) and I.getattr_raw(v, "__call__") is not None))
    if isinstance(v, (Sc, Arr, Tup, It)):
        return Sc(cF(False))
    return tri(I, None, "callable", args, node)


@reg("builtins.type")
def b_type(I, args, kw, node):
    v = args[0]
    k = kind_of(I, v)
    if k in SUPERS:
        return Ext({"none": "types.NoneType", "ndarray": "numpy.ndarray", "function": "types.FunctionType"}.get(k, "builtins." + k))
    if isinstance(v, Ref) and isinstance(I.c(v.loc), ObjC) and isinstance(I.c(v.loc).cls, Cls):
        return I.c(v.loc).cls
    f = I.facts(v)
    return Unk(F(mk("typeof", f.term, const(f.dt)), TOP, "?", EMPTY))


@reg("builtins.hasattr")
def b_hasattr(I, args, kw, node):
    v, n = args[0], constof(args[1])
    k = kind_of(I, v)
    if isinstance(v, Sc) and n in ("__len__", "__iter__", "__getitem__", "shape"):
        return Sc(cF(False)) if k in ("int", "float", "bool", "none") else tri(I, None, "hasattr", args, node)
    if isinstance(v, Arr) and n in np_.METHODS or isinstance(v, Arr) and n in ("shape", "dtype", "__len__", "__iter__", "T", "ndim"):
        return Sc(cF(True))
    if n == "__call__":
        return b_callable(I, [v], {}, node)
    if isinstance(v, Ref) and isinstance(I.c(v.loc), ObjC):
        return Sc(cF(I.getattr_raw(v, n) is not None))
    if isinstance(v, Ref) and isinstance(I.c(v.loc), (ListC, DictC)) and n in ("__len__", "__iter__"):
        return Sc(cF(True))
    if isinstance(v, Tup) and n in ("__len__", "__iter__", "__getitem__"):
        return Sc(cF(True))
    return tri(I, None, "hasattr", args, node)


@reg("builtins.getattr")
def b_getattr(I, args, kw, node):
    n = constof(args[1])
    if isinstance(n, str):
        if len(args) > 2 and isinstance(args[0], Ref) and isinstance(I.c(args[0].loc), ObjC) and I.getattr_raw(args[0], n) is None:
            return args[2]
        return I.getattr(args[0], n, node)
    return Unk(I._unkf("getattr", args, node))


@reg("builtins.setattr")
def b_setattr(I, args, kw, node):
    n = constof(args[1])
    if isinstance(n, str):
        I.setattr(args[0], n, args[2], node)
    return NONE


@reg("builtins.vars")
def b_vars(I, args, kw, node):
    return I.getattr(args[0], "__dict__", node) if args else Unk(F(sym("vars")))


@reg("builtins.super")
def b_super(I, args, kw, node):
    return Prim("super", selfv=args[1] if len(args) > 1 else selfof(I), cls=clsof(I))


def selfof(I):
    for fr in reversed(I.frames):
        if fr.fn is not None and fr.fn.selfv is not None:
            return fr.fn.selfv
    return Unk(F(sym("self")))


def clsof(I):
    for fr in reversed(I.frames):
        if fr.fn is not None and fr.fn.selfv is not None:
            s = fr.fn.selfv
            c = I.c(s.loc) if isinstance(s, Ref) else None
            if isinstance(c, ObjC) and isinstance(c.cls, Cls):
                # class whose body holds this function
                def find(k):
                    o = I.c(k.loc)
                    if any(isinstance(x, Fn) and x.node is fr.fn.node for x in o.attrs.values()):
                        return k
                    for b in k.bases:
                        if isinstance(b, Cls):
                            r = find(b)
                            if r is not None:
                                return r
                return find(c.cls)
    return None


@reg("builtins.globals", "builtins.locals")
def b_globals(I, args, kw, node):
    I.unm("globals()/locals()", node)
    return Unk(F(sym("globals")))


@reg("builtins.id", "builtins.hash")
def b_id(I, args, kw, node):
    v = args[0]
    f = I.facts(v)
    nm = ast.unparse(node.func) if isinstance(node, ast.Call) else "id"
    if nm == "hash" and isinstance(v, Sc) and f.dt in ("i", "b", "f"):
        return Sc(F(mk("hash", f.term), TOP, "i", f.deps, "MIX" if f.pl is not None else None, None, f.bad, f.trial))
    # the address changes between processes; equal addresses do not mean equal contents
    return Sc(F(mk("identity", const(str(getattr(v, "loc", "?"))), f.term if not isinstance(v, (Arr, Ref)) else const(0)), TOP, "i", frozenset(["addr"]), None))


@reg("builtins.open", "builtins.input", "builtins.eval", "builtins.exec", "os.system", "subprocess.run", "os.getenv", "os.environ.get",
     "numpy.load", "numpy.save", "pickle.load", "pickle.dump")
def b_io(I, args, kw, node):
    nm = ast.unparse(node.func) if isinstance(node, ast.Call) else "io"
    I.ev("io", node, key=nm, what=nm)
    return Unk(F(mk("io", const(nm), const(node._id)), deps=frozenset(["io"])))


# ----------------------------------------------------- functools / itertools
@reg("functools.partial")
def f_partial(I, args, kw, node):
    return Partial(args[0], args[1:], kw)


@reg("functools.reduce")
def f_reduce(I, args, kw, node):
    it = iterate(I, args[1], node)
    acc = args[2] if len(args) > 2 else None
    if it.items is not None and len(it.items) <= 16:
        for x in it.items:
            acc = x if acc is None else I.call(args[0], [acc, x], {}, node)
        return acc if acc is not None else DEAD
    e, n = drain(I, it, node)
    r = I.call(args[0], [acc if acc is not None else e, e], {}, node)
    fr = I.facts(r)
    sh = I.rd(r)[0]
    return Unk(I._unkf("reduce", [r] + ([acc] if acc is not None else []), node)) if sh is None else \
        I.arr(node, sh, F(mk("fold", fr.term), TOP, fr.dt, fr.deps, fr.pl, None, fr.bad | frozenset(("contrib", "a fold over missing responses") for _ in fr.miss), fr.trial), "fold")


@reg("functools.lru_cache", "functools.cache")
def f_cache(I, args, kw, node):
    if args and isinstance(args[0], (Fn, Partial, Meth)):
        return Prim("memo", fn=args[0])
    return Ext("functools.cache")


@reg("functools.wraps", "functools.update_wrapper")
def f_wraps(I, args, kw, node):
    return Prim("identity") if len(args) == 1 else args[0]


@reg("functools.cached_property")
def f_cprop(I, args, kw, node):
    return Prim("property", fn=args[0])


FUNCS["builtins.staticmethod"] = lambda I, args, kw, node: Prim("staticmethod", fn=args[0])
FUNCS["builtins.classmethod"] = lambda I, args, kw, node: Prim("classmethod", fn=args[0])
FUNCS["builtins.property"] = lambda I, args, kw, node: Prim("property", fn=args[0])
FUNCS["dataclasses.dataclass"] = lambda I, args, kw, node: args[0] if args else Prim("identity")
FUNCS["copy.copy"] = lambda I, args, kw, node: copyv(I, args[0], node, False)
FUNCS["copy.deepcopy"] = lambda I, args, kw, node: copyv(I, args[0], node, True)


def copyv(I, v, node, deep, depth=0):
    if isinstance(v, Arr):
        sh, f = I.rd(v)
        return I.arr(node, sh, f, "copy%d" % depth) if sh != () else Arr(I.alloc(node, ArrC(sh, f), "copy%d" % depth))
    if isinstance(v, U):
        return U([copyv(I, x, node, deep, depth) for x in v.vals])
    if isinstance(v, Tup) and deep:
        return Tup([copyv(I, x, node, deep, (depth * 17 + i + 1) % 9973) for i, x in enumerate(v.items)])
    if isinstance(v, Ref) and depth < 9000:
        c = I.c(v.loc)
        def sub(x, i):
            return copyv(I, x, node, True, (depth * 17 + i + 1) % 9973) if deep else x
        if isinstance(c, ListC):
            n = ListC([sub(x, i) for i, x in enumerate(c.items)] if c.items is not None else None,
                      sub(c.elem, 0) if c.elem is not None else None, c.n, c.kind)
        elif isinstance(c, DictC):
            n = DictC({k: sub(x, i) for i, (k, x) in enumerate(c.keys.items())}, c.maybe, sub(c.rest, 99) if c.rest is not None else None, c.restkey)
        elif isinstance(c, ObjC):
            n = ObjC(c.cls, {k: sub(x, i) for i, (k, x) in enumerate(c.attrs.items())})
        elif isinstance(c, RngC):
            n = RngC(c.kind, c.f, c.draws)
            I.ev("rngcopy", node, key=v.loc, loc=v.loc)
        else:
            return v
        return Ref(I.alloc(node, n, "copy%d" % depth))
    return v


@reg("itertools.repeat")
def i_repeat(I, args, kw, node):
    n = A(args, kw, 1, "times")
    if n is not None:
        c = tm.num_const(I.facts(n).term)
        if c is not None and c <= 16:
            return It([args[0]] * int(c))
        return It(None, lambda i: args[0], I.facts(n).term, I.facts(n).deps)
    return It(None, lambda i: args[0], None, EMPTY, "repeat")


@reg("itertools.count")
def i_count(I, args, kw, node):
    st = A(args, kw, 0, "start") or Sc(cF(0))
    sp = A(args, kw, 1, "step") or Sc(cF(1))
    return It(None, lambda i: I.binop("add", st, I.binop("mul", i, sp, node), node), None, EMPTY, "count")


@reg("itertools.cycle")
def i_cycle(I, args, kw, node):
    it = iterate(I, args[0], node)
    return It(None, lambda i: elem(I, it, i), None, it.deps)


@reg("itertools.chain")
def i_chain(I, args, kw, node):
    return chain_its(I, [iterate(I, a, node) for a in args if not (isinstance(a, Prim) and a.kind == "star")] +
                     [chain_nested(I, a.data["it"], node) for a in args if isinstance(a, Prim) and a.kind == "star"], node)


def chain_its(I, its, node):
    if all(t.items is not None for t in its):
        return It([x for t in its for x in t.items])
    n = None
    if all(t.items is not None or t.n is not None for t in its):
        n = const(0)
        for t in its:
            n = mk("add", n, const(len(t.items)) if t.items is not None else t.n)

    def el(i):
        r = None
        for t in its:
            r = I.joinV(r, elem(I, t, i))
        return r
    return It(None, el, n, frozenset().union(*[t.deps for t in its]))


def chain_nested(I, it, node):
    if it.items is not None:
        return chain_its(I, [iterate(I, x, node) for x in it.items], node)
    return It(None, lambda i: elem(I, iterate(I, elem(I, it, Sc(i.f.w(term=mk("pidx", i.f.term, const(0))))), node),
                                   Sc(i.f.w(term=mk("pidx", i.f.term, const(1))))), None, it.deps)


@reg("itertools.chain.from_iterable")
def i_chainf(I, args, kw, node):
    return chain_nested(I, iterate(I, args[0], node), node)


@reg("itertools.islice")
def i_islice(I, args, kw, node):
    it = iterate(I, args[0], node)
    cs = [constof(a) for a in args[1:]]
    if it.items is not None and all(c is None or isinstance(c, int) for c in cs) and all(isinstance(a, Sc) and tm.is_const(a.f.term) for a in args[1:]):
        return It(it.items[slice(*cs)])
    if len(args) == 2:
        f = I.facts(args[1])
        c = tm.num_const(f.term)
        if c is not None and c <= 16:
            return It([elem(I, it, Sc(cF(k))) for k in range(int(c))])
        return It(None, lambda i: elem(I, it, i), f.term if it.n is None else mk("min", f.term, it.n), it.deps | f.deps)
    return It(None, lambda i: elem(I, it, i), None, it.deps)


@reg("itertools.product")
def i_product(I, args, kw, node):
    if len(args) == 1 and isinstance(args[0], Prim) and args[0].kind == "star" and args[0].data["it"].elem is not None and args[0].data["it"].n is not None:
        rep = args[0].data["it"]
        t = iterate(I, rep.elem(Sc(cF(0))), node)
        n = t.n if t.n is not None else const(len(t.items)) if t.items is not None else None

        def els(i):
            e = elem(I, t, Sc(i.f.w(term=mk("pidx", i.f.term, sym("k")))))
            return Ref(I.alloc(node, ListC(None, e, rep.n, "tuple"), "prod"))
        return It(None, els, None if n is None else mk("pow", n, rep.n), t.deps | rep.deps)
    its = [iterate(I, a, node) for a in args]
    rep = kw.get("repeat")
    if rep is not None:
        r = tm.num_const(I.facts(rep).term)
        if r is not None and r <= 6:
            its = its * int(r)
        else:
            t = its[0]
            n = mk("pow", t.n if t.n is not None else const(len(t.items or ())), I.facts(rep).term)
            rf = I.facts(rep)

            def elr(i):
                e = elem(I, t, Sc(i.f.w(term=mk("pidx", i.f.term, sym("k")))))
                return Ref(I.alloc(node, ListC(None, e, rf.term, "tuple"), "prod"))
            return It(None, elr, n, t.deps | rf.deps)
    tot = 1
    for t in its:
        tot = tot * len(t.items) if t.items is not None and tot is not None else None
    if tot is not None and tot <= 64:
        import itertools
        return It([Tup(x) for x in itertools.product(*[t.items for t in its])])
    n = None
    if all(t.items is not None or t.n is not None for t in its):
        n = const(1)
        for t in its:
            n = mk("mul", n, const(len(t.items)) if t.items is not None else t.n)
    return It(None, lambda i: Tup([elem(I, t, Sc(i.f.w(term=mk("pidx", i.f.term, const(j))))) for j, t in enumerate(its)]), n,
              frozenset().union(*[t.deps for t in its]) if its else EMPTY)


@reg("itertools.combinations", "itertools.permutations", "itertools.combinations_with_replacement")
def i_comb(I, args, kw, node):
    it = iterate(I, args[0], node)
    r = tm.num_const(I.facts(args[1]).term) if len(args) > 1 else None
    nm = ast.unparse(node.func).split(".")[-1] if isinstance(node, ast.Call) else "combinations"
    if it.items is not None and r is not None and len(it.items) <= 6 and nm in ("combinations", "permutations"):
        import itertools
        return It([Tup(x) for x in getattr(itertools, nm)(it.items, int(r))])
    k = int(r) if r is not None and r <= 6 else 2
    n = mk("comb", it.n if it.n is not None else const(len(it.items or ())), const(k)) if nm == "combinations" else None
    return It(None, lambda i: Tup([elem(I, it, Sc(i.f.w(term=mk("pidx", i.f.term, const(j))))) for j in range(k)]), n, it.deps)


@reg("itertools.accumulate")
def i_accum(I, args, kw, node):
    a = toarr(I, args[0], node)
    if isinstance(a, Arr) and len(args) == 1:
        return iterate(I, np_.FUNCS["numpy.cumsum"](I, [a, Sc(cF(0))], {}, node), node)
    f = I._unkf("accumulate", [a], node)
    return It(None, lambda i: Unk(f), None, f.deps)


@reg("itertools.zip_longest")
def i_zipl(I, args, kw, node):
    return b_zip(I, args, kw, node)


@reg("itertools.tee")
def i_tee(I, args, kw, node):
    return Tup([iterate(I, args[0], node)] * 2)


# ------------------------------------------------------------- generic calls
def call_ext(I, name, args, kw, node, decorator=False):
    name = canon(name)
    if any(isinstance(v, Prim) and v.kind == "star" for v in args) and name not in FUNCS:
        out = []
        for v in args:
            if isinstance(v, Prim) and v.kind == "star":
                it = v.data["it"]
                out.append(Unk(I.facts(elem(I, it, KIDX))))
                if name.startswith("numpy.linspace"):
                    out[-1:] = [elem(I, it, Sc(cF(0))), elem(I, it, Sc(cF(1)))]
                elif name in ("numpy.einsum",):
                    out[-1:] = [Unk(I.facts(elem(I, it, KIDX)))]
            else:
                out.append(v)
        args = out
    if name.startswith("builtins.") and name[9:] in EXCEPTIONS:
        return Prim("exc", name=name[9:])
    f = FUNCS.get(name) or np_.FUNCS.get(name)
    if f is not None:
        return f(I, args, kw, node)
    if name.startswith("scipy.stats."):
        r = stats_call(I, name[12:], args, kw, node)
        if r is not None:
            return r
    if name.startswith("numpy.random."):
        r = rng_ctor(I, name[13:], args, kw, node)
        if r is not None:
            return r
    if decorator:
        I.unm("decorator " + name, node)
        return args[0]
    if name.startswith("random.") or name in ("os.urandom", "time.time", "time.perf_counter", "time.time_ns", "time.monotonic", "uuid.uuid4", "uuid.uuid1",
                                              "secrets.token_bytes", "secrets.randbits", "os.getpid", "datetime.datetime.now",
                                              "threading.get_ident", "multiprocessing.current_process"):
        I.ev("rng", node, key=name, what=f"{name}", kind_="ambient")
        if name == "random.seed" and I.phase != "import":
            I.ev("gwrite", node, key=name, what="the global random generator (random.seed)")
        return Unk(F(mk("ambient", const(name), const(node._id)), deps=frozenset(["globalrng"])))
    return unknown_call(I, name, args, kw, node)


def unknown_call(I, name, args, kw, node):
    I.unm("call of " + name, node)
    I.ev("extcall", node, key=name, name=name, args=args, kw=kw)
    vs = list(args) + list(kw.values())
    f = I._unkf(name, vs, node)
    for v in vs:
        for x in I.alts(v):
            if isinstance(x, (Fn, Partial)) or isinstance(x, Ref) and isinstance(I.c(x.loc), ObjC) and I.getattr_raw(x, "__call__") is not None:
                keep = I.heap
                n = nparams(x)
                I.call(x, [Unk(F(sym("cbarg", node._id, i), deps=f.deps)) for i in range(n)], {}, node)
                I.heap = I.join_heaps(keep, I.heap)
    return Unk(f)


def nparams(x):
    if isinstance(x, Partial):
        return max(nparams(x.fn) - len(x.args) - len([k for k in x.kw]), 0)
    if isinstance(x, Fn):
        a = x.node.args
        return max(len(a.posonlyargs + a.args) - len(x.defs) - (1 if x.selfv is not None else 0), 0)
    return 1


def call_prim(I, p, args, kw, node):
    k = p.kind
    if k in ("identity",):
        return args[0] if args else NONE
    if k == "cmfn":
        return Prim("cm", fn=p.data["fn"], args=list(args), kw=dict(kw))
    if k == "memo":
        I.ev("memocall", node, key=id(p.data["fn"].node) if isinstance(p.data["fn"], Fn) else 0, fn=p.data["fn"], args=[I.snap(a) for a in args])
        r = I.call(p.data["fn"], args, kw, node)
        if I.heap is None:
            return r
        q = getattr(p.data["fn"], "qual", "?")
        own_deep(I, r, ("memo", q))
        return r
    if k == "staticmethod":
        return I.call(p.data["fn"], args, kw, node)
    if k == "itemgetter":
        return getitem(I, args[0], p.data["key"], node)
    if k == "attrgetter":
        return I.getattr(args[0], constof(p.data["key"]), node)
    if k == "usercall":
        return usercall(I, p, args, kw, node)
    if k == "usermodel":
        I.ev("modelcall", node, key=(), args=[I.snap(a) for a in args], kw={a: I.snap(b) for a, b in kw.items()}, pc=tuple(I.heap.get(('pc',), ())), rawargs=args, rawkw=kw)
        fs = [I.facts(a) for a in args] + [I.facts(b) for b in kw.values()]
        deps = frozenset(["irt_model"]).union(*[f.deps for f in fs])
        t = mk("usermodel", *[f.term for f in fs])
        d1 = I.np.rd_dim(args[0]) if False else sym("dim", "irt", 0)
        def arr(nm, tag):
            sh = (sym("dim", "irt", 0),) + ((sym("dim", "irt", 1),) if tag == "mD" and p.data.get("thresholds") else ())
            return Arr(I.alloc(node, ArrC(sh, F(mk("get", t, const(nm)), TOP, "f", deps)), tag))
        return I.dict_(node, {"Difficulty": arr("Difficulty", "mD"), "Discrimination": arr("Discrimination", "mA")}, "um")
    if k == "vectorize":
        fn = p.data["fn"]
        shs = [I.rd(a) for a in args]
        r = I.call(fn, [Sc(f.w()) for _, f in shs], {}, node)
        if I.heap is None:
            return r
        rf = I.facts(r)
        res = np_.ew(I, "fn", args, node, name="vectorized")
        return np_.patch(I, res, term=rf.term if not any(s for s, _ in shs) else mk("vec", rf.term), itv=rf.itv, dt=rf.dt, deps=rf.deps, trial=rf.trial, bad=rf.bad)
    if k == "interp":
        xs = [args[0], Sc(p.data["x"]), Sc(p.data["y"])]
        I.ev("interpcall", node, key=(p.data["x"].term, p.data["y"].term, I.facts(args[0]).term), x=p.data["x"], y=p.data["y"], at=I.facts(args[0]), table=p.data["node"])
        r = np_.ew(I, "fn", xs, node, name="interp")
        return np_.patch(I, r, dt="f", itv=p.data["itv"])
    if k == "exc":
        return p
    if k == "dtype":
        return np_.METHODS["astype"](I, [args[0], p], {}, node) if args and isinstance(args[0], Arr) else (Sc(I.facts(args[0]).w(dt=p.data["code"])) if args else NONE)
    if k == "rv":
        return p
    I.unm("call of a " + k, node)
    return Unk(I._unkf("call " + k, list(args) + list(kw.values()), node))


def own_deep(I, v, owner, depth=0):
    if depth > 4:
        return
    for x in I.alts(v):
        if isinstance(x, (Arr, Ref)):
            I.owner[x.loc] = owner
        if isinstance(x, Tup):
            for y in x.items:
                own_deep(I, y, owner, depth + 1)
        if isinstance(x, Ref):
            c = I.c(x.loc)
            vs = []
            if isinstance(c, ListC):
                vs = c.items if c.items is not None else [c.elem]
            elif isinstance(c, DictC):
                vs = list(c.keys.values()) + [c.rest]
            elif isinstance(c, ObjC):
                vs = [y for y in c.attrs.values() if y is not x]
            for y in vs:
                if y is not None and I.owner.get(getattr(y, "loc", None)) != owner:
                    own_deep(I, y, owner, depth + 1)


def usercall(I, p, args, kw, node):
    """a callable supplied by the caller, applied elementwise"""
    lab = p.data["label"]
    I.ev("usercall", node, key=lab, label=lab, args=[I.snap(a) for a in args])
    a = args[0] if args else NONE
    r = np_.ew(I, "fn", [a], node, name="user:" + lab)
    f = I.facts(r)
    return np_.patch(I, r, deps=f.deps | p.data["deps"], itv=p.data.get("itv", TOP), dt="f")


def prim_attr(I, o, name, node):
    k = o.kind
    if k == "super":
        s, c = o.data["selfv"], o.data["cls"]
        if c is not None:
            for b in c.bases:
                if isinstance(b, Cls):
                    v = I.cls_lookup(b, name)
                    if isinstance(v, Fn):
                        return v.bind(s)
                    if v is not None:
                        return v
        return Prim("identity") if name == "__init__" else Unk(F(sym("super", name)))
    if k == "rv":
        return Meth(o, name)
    if k == "optresult":
        if name in o.data:
            return o.data[name]
        return Unk(F(mk("optattr", const(name), o.data["f"].term), TOP, "?", o.data["f"].deps, o.data["f"].pl and "MIX", None, o.data["f"].bad, o.data["f"].trial))
    if k == "flags":
        return Unk(F(sym("flags", name)))
    if k == "memo":
        if name in ("cache_clear", "cache_info"):
            return Prim("identity")
        return I.getattr(o.data["fn"], name, node)
    if k == "property" and name == "setter":
        return Prim("identity")
    if k == "shmbuf":
        return Meth(o, name)
    if k == "slice":
        return {"start": o.data["lo"], "stop": o.data["hi"], "step": o.data["step"]}.get(name, NONE)
    if k in ("errstate", "exc", "vectorize", "usercall", "usermodel", "interp"):
        return Meth(o, name)
    if k == "interp" and name in ("x", "y"):
        return Unk(o.data[name])
    return Meth(o, name)


def prim_getitem(I, o, slc, node):
    if o.kind == "optresult" and isinstance(slc, ast.Constant) and isinstance(slc.value, str):
        return prim_attr(I, o, slc.value, node)
    if o.kind == "optresult" and isinstance(slc, ast.Constant):
        return list(o.data.values())[slc.value] if isinstance(slc.value, int) and slc.value < len(o.data) else Unk(o.data["f"])
    I.expr(slc) if not isinstance(slc, ast.Slice) else None
    return Unk(I._unkf("item", [o], node))


def ext_getitem(I, o, slc, node):
    if o.name in ("numpy.c_", "numpy.r_"):
        return np_.np_c_(I, slc, node, o.name[-2])
    if o.name in ("numpy.s_", "numpy.index_exp"):
        return I.expr(slc)
    if o.name in ("numpy.mgrid", "numpy.ogrid"):
        vs = [x for x in ([slc] if not isinstance(slc, ast.Tuple) else slc.elts)]
        return Unk(F(mk("mgrid", const(ast.unparse(slc)))))
    if o.name == "os.environ":
        I.ev("io", node, key="environ", what="os.environ")
    return Unk(F(sym("extitem", o.name)))


def exc_name(I, v):
    if isinstance(v, Prim) and v.kind == "exc":
        return v.data["name"]
    if isinstance(v, Ext):
        return v.name.split(".")[-1]
    if isinstance(v, Cls):
        return v.node.name
    if isinstance(v, Ref) and isinstance(I.c(v.loc), ObjC):
        c = I.c(v.loc).cls
        return c.node.name if c is not None else "exception"
    return "exception"


# ------------------------------------------------------------- containers
def container_set(I, ref, key, v, node, weak):
    c = I.c(ref.loc)
    if isinstance(c, DictC):
        if isinstance(key, Sc) and tm.is_const(key.f.term):
            k = key.f.term.args[0]
            n = dict(c.keys)
            n[k] = I.joinV(n[k], v) if weak and k in n else v
            I.heap[ref.loc] = DictC(n, c.maybe - {k} if not weak else (c.maybe | {k} if k not in c.keys else c.maybe), c.rest, c.restkey)
        else:
            n = {k: I.joinV(x, v) for k, x in c.keys.items()}
            I.heap[ref.loc] = DictC(n, c.maybe, I.joinV(c.rest, v), I.joinV(c.restkey, key))
            own = I.owner.get(ref.loc)
            if own is not None:
                I.ev("dictstore", node, key=own, owner=own, keyv=key, v=I.snap(v), kf=I.facts(key), vf=I.facts(v),
                     comps=[I.facts(x) for x in flatkey(I, key)], vfs=[I.facts(x) for y in flatkey(I, v) for x in [y] + captured_by(I, y)])
                if own[0] in ("global", "memo", "default", "class"):
                    own_deep(I, v, ("memo", own[1]))
        return
    if isinstance(c, ListC):
        k = tm.num_const(key.f.term) if isinstance(key, Sc) else None
        if c.items is not None and k is not None and -len(c.items) <= k < len(c.items):
            items = list(c.items)
            items[int(k)] = I.joinV(items[int(k)], v) if weak else v
            I.heap[ref.loc] = ListC(items, kind=c.kind)
        elif c.items is not None and k is None:
            I.heap[ref.loc] = ListC([I.joinV(x, v) for x in c.items], kind=c.kind)
        else:
            I.heap[ref.loc] = ListC(None, I.joinV(I.elem_of(c), v), c.n if c.items is None else const(len(c.items)), c.kind)


def captured_by(I, v, depth=0):
    """values of the enclosing calls' variables that a function reads"""
    if not isinstance(v, Fn) or depth > 2:
        return []
    out = []
    names = sorted({n.id for n in ast.walk(v.node) if isinstance(n, ast.Name)})
    s = v.fid
    seen = set()
    while s is not None and s.parent is not s:
        for n in names:
            if n not in seen and n in s.names and s.fid[0] == "fn":
                x = I.heap.get(("v", s.fid, n))
                if x is not None:
                    seen.add(n)
                    for y in flatkey(I, x):
                        out += captured_by(I, y, depth + 1) if isinstance(y, Fn) else [y]
        s = s.parent
    return out


def flatkey(I, v, d=0):
    it = I.items_of(v) if d < 5 else None
    if it is None:
        return [v]
    out = []
    for x in it:
        out += flatkey(I, x, d + 1)
    return out


def picked(I, ref, key):
    """one generator out of a sequence of them, chosen by position"""
    loc = ref.loc[:4] + ("pick@%d" % key.f.term.id,)
    if loc not in I.heap:
        g = I.c(ref.loc)
        I.heap[loc] = RngC(g.kind, g.f.w(term=mk("pick", g.f.term, key.f.term), deps=g.f.deps | key.f.deps))
    return Ref(loc)


def getitem(I, o, key, node):
    if isinstance(o, U):
        r = None
        for x in o.vals:
            if not (isinstance(x, Sc) and x.f.dt == "N"):
                r = I.joinV(r, getitem(I, x, key, node))
        return r if r is not None else DEAD
    if isinstance(o, Arr):
        return I.np.index(I, o, [I.np.comp_of(I, key, True)] if not isinstance(key, Tup) else [I.np.comp_of(I, x) for x in key.items], node)
    if isinstance(o, Ref):
        c = I.c(o.loc)
        if isinstance(c, DictC):
            if isinstance(key, Sc) and tm.is_const(key.f.term):
                k = key.f.term.args[0]
                if k in c.keys:
                    if k in c.maybe:
                        I.may_raise(node, "KeyError")
                    return c.keys[k]
                if c.rest is not None:
                    I.may_raise(node, "KeyError")
                    return c.rest
                I.ev("keyerror", node, key=k, k=k, loc=o.loc)
                I.raise_(node, f"KeyError: {k!r}", explicit=False)
                return DEAD
            I.may_raise(node, "KeyError")
            r = c.rest
            for x in c.keys.values():
                r = I.joinV(r, x)
            if r is None:
                I.raise_(node, "KeyError", explicit=False)
                return DEAD
            return I._infl(r, I.facts(key)) if isinstance(r, Sc) else r
        if isinstance(c, ObjC):
            g = I.getattr_raw(o, "__getitem__", node)
            if g is not None:
                return I.call(g, [key], {}, node)
            return Unk(I._unkf("item", [o, key], node))
        if isinstance(c, ListC):
            if isinstance(key, Prim) and key.kind == "slice":
                return slice_seq(I, o, key, node)
            if c.items is None and isinstance(c.elem, Ref) and isinstance(I.c(c.elem.loc), RngC) and isinstance(key, Sc):
                return picked(I, c.elem, key)
            return I.item_at(o, key if isinstance(key, Sc) else Sc(I.facts(key)), node)
    if isinstance(o, Tup) and isinstance(key, Prim) and key.kind == "slice":
        return slice_seq(I, o, key, node)
    if isinstance(o, Sc) and o.f.dt == "U":
        if tm.is_const(o.f.term) and isinstance(constof(key), int):
            try:
                return Sc(cF(o.f.term.args[0][constof(key)]))
            except IndexError:
                return DEAD
        return Sc(F(mk("call", "chr", o.f.term, I.facts(key).term), TOP, "U", o.f.deps))
    return I.item_at(o, key if isinstance(key, Sc) else Sc(I.facts(key)), node)


def seq_slice(I, o, slc, node):
    return slice_seq(I, o, I.e_Slice(slc), node)


def slice_seq(I, o, p, node):
    lo, hi, st = p.data["lo"], p.data["hi"], p.data["step"]
    if isinstance(o, Sc):
        if tm.is_const(o.f.term) and all(isnone(x) or isinstance(constof(x), int) for x in (lo, hi, st)):
            return Sc(cF(o.f.term.args[0][slice(constof(lo), constof(hi), constof(st))]))
        return Sc(F(mk("call", "substr", o.f.term, *[I.facts(x).term for x in (lo, hi, st)]), TOP, "U", o.f.deps))
    items = I.items_of(o)
    cs = [constof(x) for x in (lo, hi, st)]
    if not (isnone(lo) and isnone(hi) and isnone(st)):
        I.ev("seqslice", node, key=(), of=o)
    if items is not None and all(isnone(x) or isinstance(constof(x), int) for x in (lo, hi, st)):
        r = items[slice(*cs)]
        if isinstance(o, Tup):
            return Tup(r)
        if isinstance(o, It):
            return It(r)
        return I.list_(node, r, kind=I.c(o.loc).kind if isinstance(I.c(o.loc), ListC) else "list", tag="sl")
    it = iterate(I, o, node)
    e = elem(I, it, KIDX)
    n0 = it.n if it.n is not None else (const(len(it.items)) if it.items is not None else None)
    n = I.np.slice_dim(n0, lo if not isnone(lo) else None, hi if not isnone(hi) else None, st if not isnone(st) else None) if False else \
        mk("slen", n0 or const(0), *[I.facts(x).term for x in (lo, hi, st)])
    if isnone(lo) and isnone(hi):
        n = n0
    if isinstance(e, Sc):
        e = Sc(e.f.w(term=mk("lat", e.f.term, sym("sl", node._id))))
    return I.list_(node, None, e, n, "tuple" if isinstance(o, Tup) else "list", tag="sl")


def seq_binop(I, op, a, b, node):
    ka, kb = seqkind(I, a), seqkind(I, b)
    if op == "add" and ka and kb:
        x, y = I.items_of(a), I.items_of(b)
        if x is not None and y is not None:
            if ka == "tuple" and isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(x + y)
            return I.list_(node, x + y, kind=ka, tag="cat")
        t = chain_its(I, [iterate(I, a, node), iterate(I, b, node)], node)
        return I.list_(node, None, elem(I, t, KIDX), t.n, ka, tag="cat")
    if op == "mul" and (ka and isinstance(b, Sc) or kb and isinstance(a, Sc)):
        s, n, k = (a, b, ka) if ka else (b, a, kb)
        items = I.items_of(s)
        c = tm.num_const(n.f.term)
        if items is not None and c is not None and c * len(items) <= 64:
            r = items * int(c)
            return Tup(r) if isinstance(s, Tup) else I.list_(node, r, kind=k, tag="rep")
        it = iterate(I, s, node)
        if isinstance(s, It) and (items is not None or it.n is not None):
            # position k holds element k mod length
            n0 = const(len(items)) if items is not None else it.n

            def at(i):
                if len(items or ()) == 1:
                    return items[0]
                return elem(I, it, Sc(F(mk("mod", i.f.term, n0), (0, INF), "i", i.f.deps)))
            return It(None, at, mk("mul", n0, n.f.term), it.deps | n.f.deps)
        e = elem(I, it, KIDX)
        n0 = const(len(items)) if items is not None else it.n
        return I.list_(node, None, e, mk("mul", n0, n.f.term) if n0 is not None else None, k, tag="rep")
    if op in ("bitor",) and isinstance(a, Ref) and isinstance(b, Ref) and isinstance(I.c(a.loc), DictC) and isinstance(I.c(b.loc), DictC):
        r = b_dict(I, [a], {}, node)
        call_meth(I, r, "update", [b], {}, node)
        return r
    if op in ("bitor", "bitand", "sub", "bitxor") and ka == "set" and kb == "set":
        x, y = I.items_of(a), I.items_of(b)
        cx, cy = consts(x), consts(y)
        if cx is not None and cy is not None:
            r = {"bitor": cx | cy, "bitand": cx & cy, "sub": cx - cy, "bitxor": cx ^ cy}[op]
            return I.list_(node, [Sc(cF(k)) for k in sorted(r, key=str)], kind="set", tag="setop")
        e = I.joinV(elem(I, iterate(I, a, node), KIDX), elem(I, iterate(I, b, node), KIDX))
        return I.list_(node, None, e, None, "set", tag="setop")
    return None


def consts(items):
    if items is None or not all(isinstance(x, Sc) and tm.is_const(x.f.term) for x in items):
        return None
    return {x.f.term.args[0] for x in items}


def seqkind(I, v):
    if isinstance(v, Tup):
        return "tuple"
    if isinstance(v, Ref) and isinstance(I.c(v.loc), ListC):
        return I.c(v.loc).kind
    if isinstance(v, It) and v.kind == "it":
        return "list"
    return None


def is_same(I, a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(y, Sc) and y.f.dt == "N":
            if isinstance(x, Sc):
                if x.f.dt == "N":
                    return True
                return False if x.f.dt not in ("?",) else None
            if isinstance(x, U):
                rs = [is_same(I, z, y) for z in x.vals]
                return rs[0] if all(r is rs[0] for r in rs) else None
            if isinstance(x, Unk):
                return None
            return False
    if isinstance(a, Sc) and isinstance(b, Sc):
        if tm.is_const(a.f.term) and tm.is_const(b.f.term) and a.f.dt == b.f.dt and a.f.dt in ("b", "N"):
            return a.f.term is b.f.term
        if a.f.dt != b.f.dt and tm.is_const(b.f.term) and b.f.dt == "b" and kind_of(I, a) in ("int", "float", "str"):
            return False
        # `x is True` on a native boolean behaves like ==
        if b.f.dt == "b" and tm.is_const(b.f.term) and a.f.dt == "b" and kind_of(I, a) == "bool":
            return known_eq(I, a, b)
        return None
    if isinstance(a, (Ext, Cls)) and isinstance(b, (Ext, Cls)):
        return a == b if isinstance(a, Ext) and isinstance(b, Ext) else (a.node is b.node if type(a) is type(b) else False)
    if isinstance(a, Fn) and isinstance(b, Fn):
        return a.node is b.node
    if isinstance(a, (Arr, Ref)) and isinstance(b, (Arr, Ref)):
        if type(a) is not type(b):
            return False
        return True if a == b else None
    if isinstance(a, (Arr, Ref, Fn, Ext, Cls, Tup)) and isinstance(b, Sc) or isinstance(b, (Arr, Ref, Fn, Ext, Cls, Tup)) and isinstance(a, Sc):
        return False
    return None


def known_eq(I, a, b):
    if isinstance(a, Sc) and isinstance(b, Sc):
        x, y = a.f.term, b.f.term
        if tm.is_const(x) and tm.is_const(y):
            p, q = x.args[0], y.args[0]
            try:
                return bool(p == q)
            except Exception:
                return None
        sa, sb = a.f.dt in ("U", "N"), b.f.dt in ("U", "N")
        if a.f.dt != b.f.dt and (sa or sb) and "?" not in (a.f.dt, b.f.dt):
            return False
        return None
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return False
        rs = [known_eq(I, x, y) if not (isinstance(x, Sc) and isinstance(y, Sc) and tm.same(x.f.term, y.f.term)) else True for x, y in zip(a.items, b.items)]
        if all(r is True for r in rs):
            return True
        return False if any(r is False for r in rs) else None
    if isinstance(a, (Ext, Cls)) or isinstance(b, (Ext, Cls)):
        return is_same(I, a, b)
    if isinstance(a, (Ref, Tup, Fn, Prim)) and isinstance(b, Sc) or isinstance(b, (Ref, Tup, Fn, Prim)) and isinstance(a, Sc):
        if isinstance(a, Ref) and isinstance(I.c(a.loc), ObjC) or isinstance(b, Ref) and isinstance(I.c(b.loc), ObjC):
            return None
        if isinstance(a, Prim) and a.kind == "ma" or isinstance(b, Prim) and b.kind == "ma":
            return None
        s = a if isinstance(a, Sc) else b
        o = b if isinstance(a, Sc) else a
        return False if kind_of(I, s) is not None or s.f.dt in ("U", "N", "i", "f", "b") and not isinstance(o, (Ref,)) else None
    return None


def contains(I, a, b, node):
    """b contains a?  (a in b)"""
    if isinstance(b, U):
        f = None
        for x in b.vals:
            g = contains(I, a, x, node).f
            f = g if f is None else (f if f.same(g) else I._mix(f, g).w(dt="b", itv=(0, 1)))
        return Sc(f)
    items = None
    if isinstance(b, Ref) and isinstance(I.c(b.loc), DictC):
        c = I.c(b.loc)
        k = constof(a)
        if isinstance(a, Sc) and tm.is_const(a.f.term):
            if k in c.keys and k not in c.maybe:
                return Sc(cF(True))
            if k not in c.keys and c.rest is None:
                return Sc(cF(False))
        return Sc(F(mk("in", I.facts(a).term, const(str(b.loc))), (0, 1), "b", I.facts(a).deps | frozenset(["has:" + str(k)] if False else [])))
    if isinstance(b, Ref) and isinstance(I.c(b.loc), ObjC):
        g = I.getattr_raw(b, "__contains__", node)
        if g is not None:
            return Sc(I.facts(I.call(g, [a], {}, node)))
    if not isinstance(b, (Arr, Sc)):
        items = I.items_of(b)
    if items is not None:
        rs = [known_eq(I, a, x) for x in items]
        if any(r is True for r in rs):
            return Sc(cF(True))
        if all(r is False for r in rs):
            return Sc(cF(False))
        if isinstance(a, Sc) and all(isinstance(x, Sc) for x in items):
            f = None
            for x, r in zip(items, rs):
                if r is False:
                    continue
                g = fx.elementwise("eq", [a.f, x.f], [(), ()])[1].w(dt="b", itv=(0, 1))
                f = g if f is None else fx.elementwise("or", [f, g], [(), ()])[1].w(dt="b", itv=(0, 1))
            return Sc(f)
    if isinstance(a, Sc) and isinstance(b, Sc) and tm.is_const(a.f.term) and tm.is_const(b.f.term) and isinstance(constof(b), str):
        return Sc(cF(constof(a) in constof(b)))
    if isinstance(b, Arr) and isinstance(a, Sc):
        e = I.np.ew(I, "eq", [b, a], node)
        return Sc(I.facts(np_.FUNCS["numpy.any"](I, [e], {}, node)))
    return Sc(I._unkf("in", [a, b], node).w(dt="b", itv=(0, 1)))


# ---------------------------------------------------------------- methods
def call_meth(I, recv, name, args, kw, node):
    if isinstance(recv, U):
        h0, out, hout = I.heap, None, None
        for x in recv.vals:
            if isinstance(x, Sc) and x.f.dt == "N":
                continue
            I.heap = dict(h0)
            v = call_meth(I, x, name, args, kw, node)
            if I.heap is not None:
                out = I.joinV(out, v)
                hout = I.join_heaps(hout, I.heap)
        I.heap = hout
        return out if out is not None else DEAD
    if isinstance(recv, Ref):
        c = I.c(recv.loc)
        if isinstance(c, ListC):
            return list_meth(I, recv, c, name, args, kw, node)
        if isinstance(c, DictC):
            return dict_meth(I, recv, c, name, args, kw, node)
        if isinstance(c, RngC):
            return rng_meth(I, recv, c, name, args, kw, node)
        if isinstance(c, ResC):
            return res_meth(I, recv, c, name, args, kw, node)
    if isinstance(recv, Sc) and recv.f.dt == "U":
        return str_meth(I, recv, name, args, kw, node)
    if isinstance(recv, (Arr, Sc)) or np_.isma(recv):
        m = np_.METHODS.get(name)
        if m is not None:
            return m(I, [recv] + list(args), kw, node)
        if isinstance(recv, Sc) and name in ("is_integer", "bit_length"):
            return Sc(I._unkf(name, [recv], node).w(dt="b" if name == "is_integer" else "i", itv=(0, 1) if name == "is_integer" else (0, INF)))
        if name == "__getitem__":
            return getitem(I, recv, args[0], node)
        I.unm("array method " + name, node)
        return Unk(I._unkf("." + name, [recv] + list(args) + list(kw.values()), node))
    if isinstance(recv, Tup):
        if name == "index":
            return Sc(I._unkf("index", [recv] + list(args), node).w(dt="i", itv=(0, len(recv.items))))
        if name == "count":
            return Sc(I._unkf("count", [recv] + list(args), node).w(dt="i", itv=(0, len(recv.items))))
    if isinstance(recv, Prim):
        return prim_meth(I, recv, name, args, kw, node)
    if isinstance(recv, It):
        if name == "__next__":
            return b_next(I, [recv], {}, node)
        if name == "__iter__":
            return recv
        if name == "close":
            return NONE
    if isinstance(recv, Unk) and name in np_.METHODS and not kw.get("where"):
        a = np_.METHODS.get(name)
        if name in ("sum", "mean", "max", "min", "prod", "std", "var", "any", "all", "astype", "copy", "clip", "cumsum", "dot"):
            try:
                return a(I, [recv] + list(args), kw, node)
            except Exception:
                pass
    I.unm(f"method .{name} of {type(recv).__name__}", node)
    return unknown_call(I, "." + name, [recv] + list(args), kw, node) if isinstance(recv, Unk) else \
        Unk(I._unkf("." + name, [recv] + list(args) + list(kw.values()), node))


def list_meth(I, r, c, name, args, kw, node):
    if name in ("append", "add", "appendleft"):
        I.touch(r, node, "." + name)
        if c.items is not None and len(c.items) < 40:
            it = list(c.items)
            if c.kind == "set" and any(known_eq(I, x, args[0]) is True for x in it):
                return NONE
            it.insert(0 if name == "appendleft" else len(it), args[0])
            # inside a symbolic loop the number of appends is not known: join_back widens it
            I.heap[r.loc] = ListC(it, kind=c.kind)
            if I.loopidx and appended_in_loop(I, r):
                I.heap[r.loc] = ListC(None, I.elem_of(ListC(it)), listlen(I, c, args), c.kind)
        else:
            I.heap[r.loc] = ListC(None, I.joinV(I.elem_of(c), args[0]), listlen(I, c, args), c.kind)
        return NONE
    if name in ("extend", "update") or name == "__iadd__":
        I.touch(r, node, "." + name)
        its = [iterate(I, a, node) for a in args]
        for it in its:
            if c.items is not None and it.items is not None and len(c.items) + len(it.items) < 64 and not (I.loopidx and appended_in_loop(I, r)):
                c = ListC(list(c.items) + list(it.items), kind=c.kind)
            else:
                e, n = (drain(I, it, node) if it.items is None else (I.elem_of(ListC(it.items)), const(len(it.items))))
                n0 = const(len(c.items)) if c.items is not None else c.n
                same = I.loopidx and appended_in_loop(I, r)
                c = ListC(None, I.joinV(I.elem_of(c), e), (mk("add", n0, n) if n0 is not None and n is not None and not same else
                                                          sym("len", node._id, I.ctx)), c.kind)
            I.heap[r.loc] = c
        return NONE
    if name in ("insert",):
        I.touch(r, node, ".insert")
        k = constof(args[0])
        if c.items is not None and isinstance(k, int):
            it = list(c.items)
            it.insert(k, args[1])
            I.heap[r.loc] = ListC(it, kind=c.kind)
        else:
            I.heap[r.loc] = ListC(None, I.joinV(I.elem_of(c), args[1]), listlen(I, c, args), c.kind)
        return NONE
    if name in ("pop", "popleft"):
        I.touch(r, node, ".pop")
        k = constof(args[0]) if args else (-1 if name == "pop" else 0)
        if c.items is not None and isinstance(k, int) and -len(c.items) <= k < len(c.items):
            it = list(c.items)
            v = it.pop(k)
            I.heap[r.loc] = ListC(it, kind=c.kind)
            return v
        e = I.elem_of(c)
        I.heap[r.loc] = ListC(None, e, mk("sub", c.n, const(1)) if c.n is not None else None, c.kind)
        return e if e is not None else DEAD
    if name in ("clear", "remove", "discard", "sort", "reverse"):
        I.touch(r, node, "." + name)
        if name != "clear":
            I.ev("reorder", node, key=(), of=r)
        if name == "clear":
            I.heap[r.loc] = ListC([], kind=c.kind)
        elif name == "reverse" and c.items is not None:
            I.heap[r.loc] = ListC(list(reversed(c.items)), kind=c.kind)
        else:
            I.heap[r.loc] = ListC(None, I.elem_of(c), sym("len", node._id, I.ctx) if name in ("remove", "discard") else
                                  (const(len(c.items)) if c.items is not None else c.n), c.kind)
        return NONE
    if name == "copy":
        return I.list_(node, list(c.items) if c.items is not None else None, c.elem, c.n, c.kind, tag="cp")
    if name in ("index", "count"):
        return Sc(I._unkf(name, [r] + list(args), node).w(dt="i", itv=(0, INF)))
    if name in ("union", "intersection", "difference", "symmetric_difference"):
        if args:
            b = args[0]
            if seqkind(I, b) != "set":
                b = mklist(I, b, node, "set")
            x = seq_binop(I, {"union": "bitor", "intersection": "bitand", "difference": "sub", "symmetric_difference": "bitxor"}[name], r, b, node)
            if x is not None:
                return x
        return I.list_(node, None, I.elem_of(c), None, "set", tag="setop")
    if name in ("issubset", "issuperset", "isdisjoint"):
        x = consts(c.items)
        y = consts(I.items_of(args[0])) if args else None
        if x is not None and y is not None:
            return Sc(cF(getattr(x, name)(y)))
        return Sc(I._unkf(name, [r] + list(args), node).w(dt="b", itv=(0, 1)))
    if name == "__len__":
        return b_len(I, [r], {}, node)
    if name == "__getitem__":
        return getitem(I, r, args[0], node)
    if name == "__iter__":
        return iterate(I, r, node)
    I.unm("list method " + name, node)
    return Unk(I._unkf("." + name, [r] + list(args), node))


def appended_in_loop(I, r):
    """the list exists since before the current iteration of the innermost symbolic loop"""
    return bool(I.loopfresh) and r.loc not in I.loopfresh[-1]


def listlen(I, c, args):
    n0 = const(len(c.items)) if c.items is not None else c.n
    if I.loopidx and c.items is None:
        return sym("applen", str(I.loopidx[-1].args[1:]))
    return mk("add", n0, const(1)) if n0 is not None else None


def dict_meth(I, r, c, name, args, kw, node):
    if name == "get" or name == "setdefault" or name == "pop":
        k = args[0]
        d = args[1] if len(args) > 1 else (kw.get("default") or NONE)
        if isinstance(k, Sc) and tm.is_const(k.f.term):
            kk = k.f.term.args[0]
            has = kk in c.keys and kk not in c.maybe
            may = kk in c.keys or c.rest is not None
            v = c.keys.get(kk, c.rest)
            out = v if has else (I.joinV(v, d) if may else d)
            if not has and not may and name == "pop" and len(args) == 1:
                I.raise_(node, "KeyError", explicit=False)
                return DEAD
            if name == "setdefault" and not has:
                container_set(I, r, k, out, node, False)
                I.touch(r, node, ".setdefault")
            if name == "pop":
                I.touch(r, node, ".pop")
                n = dict(c.keys)
                n.pop(kk, None)
                I.heap[r.loc] = DictC(n, c.maybe - {kk}, c.rest, c.restkey)
            return out
        v = d if name != "pop" or len(args) > 1 else None
        for x in c.keys.values():
            v = I.joinV(v, x)
        v = I.joinV(v, c.rest)
        if name != "get":
            I.touch(r, node, "." + name)
            if name == "setdefault":
                container_set(I, r, k, d, node, True)
        return v if v is not None else DEAD
    if name == "update":
        I.touch(r, node, ".update")
        for a in list(args):
            for x in I.alts(a):
                o = I.c(x.loc) if isinstance(x, Ref) else None
                if isinstance(o, DictC):
                    n, maybe = dict(c.keys), set(c.maybe)
                    for kk, vv in o.keys.items():
                        if kk in o.maybe or isinstance(a, U):
                            if kk in n:
                                n[kk] = I.joinV(n[kk], vv)
                            else:
                                n[kk] = vv
                                maybe.add(kk)
                        else:
                            n[kk] = vv
                            maybe.discard(kk)
                    if o.rest is not None:
                        n = {kk: I.joinV(vv, o.rest) if kk not in o.keys or kk in o.maybe else vv for kk, vv in n.items()}
                    c = DictC(n, maybe, I.joinV(c.rest, o.rest), I.joinV(c.restkey, o.restkey))
                elif isinstance(x, Sc) and x.f.dt == "N":
                    continue
                else:
                    it = iterate(I, x, node)
                    if it.items is not None:
                        n = dict(c.keys)
                        rest = c.rest
                        for y in it.items:
                            p = I.items_of(y)
                            if p and len(p) == 2 and isinstance(p[0], Sc) and tm.is_const(p[0].f.term):
                                n[p[0].f.term.args[0]] = p[1]
                            else:
                                rest = I.joinV(rest, p[1] if p and len(p) == 2 else Unk(I.facts(y)))
                        c = DictC(n, c.maybe, rest, c.restkey)
                    else:
                        c = DictC({k: I.joinV(v, Unk(I.facts(x))) for k, v in c.keys.items()}, c.maybe, I.joinV(c.rest, Unk(I.facts(x))), c.restkey)
        if kw:
            n = dict(c.keys)
            n.update(kw)
            c = DictC(n, c.maybe - set(kw), c.rest, c.restkey)
        I.heap[r.loc] = c
        return NONE
    if name in ("items", "keys", "values"):
        return dict_iter(I, r, c, name, node)
    if name == "copy":
        return Ref(I.alloc(node, DictC(c.keys, c.maybe, c.rest, c.restkey), "cp"))
    if name in ("clear", "popitem"):
        I.touch(r, node, "." + name)
        if name == "clear":
            I.heap[r.loc] = DictC({})
            return NONE
        return Unk(I._unkf("popitem", [r], node))
    if name == "fromkeys":
        return Unk(I._unkf("fromkeys", args, node))
    if name in ("__getitem__",):
        return getitem(I, r, args[0], node)
    if name == "__contains__":
        return contains(I, args[0], r, node)
    if name == "__len__":
        return b_len(I, [r], {}, node)
    I.unm("dict method " + name, node)
    return Unk(I._unkf("." + name, [r] + list(args), node))


def str_meth(I, s, name, args, kw, node):
    cs = [constof(a) for a in args]
    if tm.is_const(s.f.term):
        if name == "join":
            it = I.items_of(args[0])
            xs = consts2(it)
            if xs is not None and all(isinstance(x, str) for x in xs):
                return Sc(cF(constof(s).join(xs)))
        elif name != "format" and all(isinstance(c, (str, int)) for c in cs):
            try:
                r = getattr(constof(s), name)(*cs)
                if isinstance(r, (list, tuple)):
                    vs = [Sc(cF(x)) for x in r]
                    return I.list_(node, vs) if isinstance(r, list) else Tup(vs)
                return Sc(cF(r))
            except Exception:
                pass
    f = I._unkf("str." + name, [s] + list(args) + list(kw.values()), node)
    if name in ("startswith", "endswith", "isdigit", "isalpha", "islower", "isupper"):
        return Sc(f.w(dt="b", itv=(0, 1)))
    if name in ("split", "rsplit", "splitlines"):
        return I.list_(node, None, Sc(f.w(dt="U")), None)
    if name in ("find", "index", "count"):
        return Sc(f.w(dt="i"))
    return Sc(f.w(dt="U"))


def consts2(items):
    if items is None or not all(isinstance(x, Sc) and tm.is_const(x.f.term) for x in items):
        return None
    return [x.f.term.args[0] for x in items]


from .pylibs import *          # noqa  (scipy, random generators, processes)
from . import pylibs as _libs
_libs.setup(globals())
