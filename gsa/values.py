"""Abstract values, element facts and heap contents of the interpreter."""
from . import terms as tm
from .terms import mk, const, sym

INF = float("inf")
TOP = (-INF, INF)
EMPTY = frozenset()


class F:
    """Facts about every element of a number / array.

    term  value number                     itv   interval of the valid elements
    dt    storage type                     deps  influence labels
    pl    which respondent an element belongs to: None, ('ax', k), ('at', term), 'MIX'
    miss  {source: (term, itv)}: what the element is when the source cell is missing
          source = (root, item selector, person selector)
    bad   labels (kind, text) of lost-inertness findings that flow into the value
    trial labels (site, store node, path key) of optimiser trial points
    props abstract shape-of-data facts (e.g. 'nonasc')
    """
    __slots__ = ("term", "itv", "dt", "deps", "pl", "miss", "bad", "trial", "props")

    def __init__(self, term, itv=TOP, dt="?", deps=EMPTY, pl=None, miss=None, bad=EMPTY, trial=EMPTY, props=EMPTY):
        self.term, self.itv, self.dt, self.deps = term, itv, dt, deps
        self.pl, self.miss, self.bad, self.trial, self.props = pl, (miss or {}), bad, trial, props

    def w(self, **kw):
        n = F(self.term, self.itv, self.dt, self.deps, self.pl, self.miss, self.bad, self.trial, self.props)
        for k, v in kw.items():
            setattr(n, k, v)
        return n

    def same(self, o):
        return (self is o or (self.term is o.term and self.itv == o.itv and self.dt == o.dt and self.deps == o.deps
                and self.pl == o.pl and self.bad == o.bad and self.trial == o.trial and self.props == o.props
                and self.miss == o.miss))

    def __repr__(self):
        return f"F({tm.show(self.term)[:60]} {self.itv} {self.dt} pl={self.pl} miss={ {k: tm.show(v[0])[:40] for k, v in self.miss.items()} } deps={sorted(self.deps)} bad={sorted(map(str, self.bad))} tr={len(self.trial)} {set(self.props) or ''})"


def cF(v):
    """facts of a literal"""
    if isinstance(v, bool):
        return F(const(v), (int(v), int(v)), "b")
    if isinstance(v, int):
        t = const(v)
        return F(t, (v, v), "i")
    if isinstance(v, float):
        return F(const(v), TOP if v != v else (v, v), "f")
    if isinstance(v, str):
        return F(const(v), TOP, "U")
    if v is None:
        return F(tm.NONE, TOP, "N")
    if isinstance(v, complex):
        return F(const(repr(v)), TOP, "c")
    return F(const(v), TOP, "?")


# ------------------------------------------------------------------- values
class V:
    __slots__ = ()


class Sc(V):
    """a scalar (python or numpy number, bool, str, None)"""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return f"Sc({self.f})"


class Arr(V):
    """reference to array storage, seen through a path of basic-view steps"""
    __slots__ = ("loc", "path")

    def __init__(self, loc, path=()):
        self.loc, self.path = loc, path

    def __eq__(self, o):
        return isinstance(o, Arr) and self.loc == o.loc and self.path == o.path

    def __hash__(self):
        return hash((self.loc, self.path))

    def __repr__(self):
        return f"Arr({self.loc}{self.path or ''})"


class Tup(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f"Tup{self.items}"


class Ref(V):
    """reference to a list / dict / set / object / generator in the heap"""
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc

    def __eq__(self, o):
        return isinstance(o, Ref) and self.loc == o.loc

    def __hash__(self):
        return hash(self.loc)

    def __repr__(self):
        return f"Ref({self.loc})"


class Fn(V):
    __slots__ = ("node", "mod", "fid", "selfv", "defs", "kwdefs", "qual", "cls")

    def __init__(self, node, mod, fid, selfv=None, defs=(), kwdefs=None, qual="", cls=None):
        self.node, self.mod, self.fid, self.selfv, self.defs, self.kwdefs, self.qual, self.cls = \
            node, mod, fid, selfv, tuple(defs), kwdefs or {}, qual, cls

    def bind(self, s):
        return Fn(self.node, self.mod, self.fid, s, self.defs, self.kwdefs, self.qual, self.cls)

    def __repr__(self):
        return f"Fn({self.qual})"


class Ext(V):
    """something outside the analysed package, by dotted name"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and self.name == o.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"Ext({self.name})"


class Meth(V):
    """method of a non-user-class value"""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def __repr__(self):
        return f"Meth({self.recv}.{self.name})"


class Mod(V):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"Mod({self.name})"


class Cls(V):
    __slots__ = ("node", "mod", "loc", "qual", "bases")

    def __init__(self, node, mod, loc, qual, bases):
        self.node, self.mod, self.loc, self.qual, self.bases = node, mod, loc, qual, bases

    def __repr__(self):
        return f"Cls({self.qual})"


class Partial(V):
    __slots__ = ("fn", "args", "kw")

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, tuple(args), dict(kw)


class Prim(V):
    """a value implemented in the model: kind + payload"""
    __slots__ = ("kind", "data")

    def __init__(self, kind, **data):
        self.kind, self.data = kind, data

    def __repr__(self):
        return f"Prim({self.kind})"


class It(V):
    """an iterable of abstract elements.

    items  exact list of element values (finite, known), or None
    elem   function(idx Sc) -> V for the element at a symbolic position
    n      length term (or None)
    """
    __slots__ = ("items", "elem", "n", "deps", "kind")

    def __init__(self, items=None, elem=None, n=None, deps=EMPTY, kind="it"):
        self.items, self.elem, self.n, self.deps, self.kind = items, elem, n, deps, kind


class U(V):
    __slots__ = ("vals",)

    def __init__(self, vals):
        self.vals = tuple(vals)

    def __repr__(self):
        return "U(" + " | ".join(map(repr, self.vals)) + ")"


class Unk(V):
    """anything; keeps influence labels"""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return f"Unk({sorted(self.f.deps)})"


# ------------------------------------------------------------ heap contents
class ArrC:
    __slots__ = ("shape", "f")

    def __init__(self, shape, f):
        self.shape, self.f = shape, f

    def same(self, o):
        return isinstance(o, ArrC) and self.shape == o.shape and self.f.same(o.f)


class ListC:
    """items: exact values, or None with elem (join of the elements) and n (length term)"""
    __slots__ = ("items", "elem", "n", "kind", "idx")

    def __init__(self, items=None, elem=None, n=None, kind="list", idx=None):
        # idx: the position symbol of the loop that made the elements, when element k came from iteration k
        self.items, self.elem, self.n, self.kind, self.idx = items, elem, n, kind, idx

    def same(self, o):
        if not isinstance(o, ListC) or self.kind != o.kind or self.idx is not o.idx:
            return False
        if self.items is None or o.items is None:
            return self.items is o.items and self.n is o.n and vsame(self.elem, o.elem)
        return len(self.items) == len(o.items) and all(vsame(a, b) for a, b in zip(self.items, o.items))


class DictC:
    """keys: {const key: V}; maybe: keys possibly absent; rest: join of the values under other keys"""
    __slots__ = ("keys", "maybe", "rest", "restkey")

    def __init__(self, keys=None, maybe=EMPTY, rest=None, restkey=None):
        self.keys, self.maybe, self.rest, self.restkey = dict(keys or {}), frozenset(maybe), rest, restkey

    def same(self, o):
        return (isinstance(o, DictC) and list(self.keys) == list(o.keys) and self.maybe == o.maybe
                and all(vsame(self.keys[k], o.keys[k]) for k in self.keys)
                and vsame(self.rest, o.rest) and vsame(self.restkey, o.restkey))


class ObjC:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs=None):
        self.cls, self.attrs = cls, dict(attrs or {})

    def same(self, o):
        return (isinstance(o, ObjC) and self.cls is o.cls and list(self.attrs) == list(o.attrs)
                and all(vsame(self.attrs[k], o.attrs[k]) for k in self.attrs))


class RngC:
    """random generator: f carries the seed provenance, f.term the stream state"""
    __slots__ = ("kind", "f", "draws")

    def __init__(self, kind, f, draws=0):
        self.kind, self.f, self.draws = kind, f, draws

    def same(self, o):
        return isinstance(o, RngC) and self.kind == o.kind and self.f.same(o.f)


class ResC:
    """resource: kind, state in {'open','closed','maybe'}"""
    __slots__ = ("kind", "state", "attrs")

    def __init__(self, kind, state="open", attrs=None):
        self.kind, self.state, self.attrs = kind, state, dict(attrs or {})

    def same(self, o):
        return (isinstance(o, ResC) and self.kind == o.kind and self.state == o.state
                and list(self.attrs) == list(o.attrs) and all(vsame(self.attrs[k], o.attrs[k]) for k in self.attrs))


def vsame(a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    if type(a) is not type(b):
        return False
    if isinstance(a, (Sc, Unk)):
        return a.f.same(b.f)
    if isinstance(a, (Arr, Ref, Ext)):
        return a == b
    if isinstance(a, Tup):
        return len(a.items) == len(b.items) and all(vsame(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Fn):
        return a.node is b.node and a.fid == b.fid and ((a.selfv is None and b.selfv is None) or vsame(a.selfv, b.selfv)) \
            and len(a.defs) == len(b.defs) and all(vsame(x, y) for x, y in zip(a.defs, b.defs))
    if isinstance(a, Meth):
        return a.name == b.name and vsame(a.recv, b.recv)
    if isinstance(a, Mod):
        return a.name == b.name
    if isinstance(a, Cls):
        return a.node is b.node
    if isinstance(a, Partial):
        return vsame(a.fn, b.fn) and len(a.args) == len(b.args) and all(vsame(x, y) for x, y in zip(a.args, b.args)) \
            and list(a.kw) == list(b.kw) and all(vsame(a.kw[k], b.kw[k]) for k in a.kw)
    if isinstance(a, Prim):
        if a.kind != b.kind or list(a.data) != list(b.data):
            return False
        for k in a.data:
            x, y = a.data[k], b.data[k]
            if isinstance(x, V) or isinstance(y, V):
                if not vsame(x, y):
                    return False
            elif isinstance(x, F) and isinstance(y, F):
                if not x.same(y):
                    return False
            elif x != y:
                return False
        return True
    if isinstance(a, U):
        return len(a.vals) == len(b.vals) and all(vsame(x, y) for x, y in zip(a.vals, b.vals))
    if isinstance(a, It):
        return a.kind == b.kind and a.n is b.n
    return False
