"""Array formulas read one element at a time.

`elem(t)` turns an array term built from one-dimensional grids (quadrature nodes
and weights, linspace) by broadcasting, einsum, products and sums into the
formula of one element: the axes (each named after the grid it runs along) and
a term in which every grid stands for its element.  None: not understood.

`num` evaluates such a formula at a point.  Two formulas are the same when they
agree at several points drawn at random for their atoms (identity testing of
the formulas extracted from the source; nothing of the program is run).
"""
import ast
import math

from . import terms as tm
from .terms import mk, const

BROAD = {"add", "mul", "div", "pow", "min2", "max2", "exp", "expit", "sqrt", "log", "log1p", "expm1", "abs", "square", "tanh", "sub", "neg", "inv",
         "lt", "le", "eq", "ne", "where", "trunc", "floor", "logit", "reciprocal", "negative", "log_expit"}
SAME = {"cast", "copy", "asarray", "ascontiguousarray", "float", "new"}
SCALARS = {"optvar", "arg", "opt", "it", "quadvar", "optres", "v"}


def fname(t):
    if t.op == "fn" and t.args:
        a = t.args[0]
        return a.args[0] if isinstance(a, tm.T) and a.op == "const" else a
    return None


class Pw:
    def __init__(self, scalars=()):
        self.memo = {}
        self.dropped = {}                          # axis -> the position picked along it
        self.scalars = set(scalars)

    def elem(self, t):
        if t.id not in self.memo:
            self.memo[t.id] = None
            self.memo[t.id] = self.go(t)
        return self.memo[t.id]

    def go(self, t):
        if t in self.scalars or tm.is_const(t):
            return (), t
        if t.op == "sym":
            return ((), t) if t.args and t.args[0] in SCALARS else None
        if t.op in ("qroots", "qweights"):
            return (("q", t.args[0].id, t.args[1].id),), t
        if t.op in ("linspace", "arange0"):
            return (("g", t.id),), t
        if t.op == "interp" or fname(t) == "interp":
            k = 0 if t.op == "interp" else 1
            x = self.elem(t.args[k])
            return x and (x[0], mk(t.op, *t.args[:k], x[1], *t.args[k + 1:]))
        if t.op in BROAD or t.op == "fn":
            xs = [(a, self.elem(a)) if isinstance(a, tm.T) else (a, "lit") for a in t.args]
            if any(x is None for _, x in xs):
                return None
            if t.op == "fn" and xs and not isinstance(t.args[0], str) and t.args[0].op != "const":
                return None
            ax = ()
            for _, x in xs:
                if x != "lit":
                    ax = unify(ax, x[0])
                    if ax is None:
                        return None
            return ax, mk(t.op, *[a if x == "lit" else x[1] for a, x in xs])
        if t.op in SAME and t.args and isinstance(t.args[0], tm.T):
            return self.elem(t.args[0])
        if t.op == "ix":
            return self.index(t)
        if t.op in ("T", "transpose"):
            x = self.elem(t.args[0])
            if x is None or len(t.args) == 1:
                return x and (tuple(reversed(x[0])), x[1])
            p = lit(t.args[1])
            try:
                p = ast.literal_eval(p) if isinstance(p, str) else p
            except ValueError:
                return None
            if not isinstance(p, tuple) or sorted(p) != list(range(len(x[0]))):
                return None
            return tuple(x[0][k] for k in p), x[1]
        if t.op == "einsum":
            return self.einsum(t)
        if t.op == "red":
            return self.red(t)
        if t.op == "dot":
            a, b = self.elem(t.args[0]), self.elem(t.args[1])
            if a is None or b is None or not a[0] or not b[0]:
                return None
            bx = list(b[0])
            l = bx.pop(-2 if len(bx) > 1 else -1)
            if l is None or a[0][-1] != l or len(b[0]) > 1 and max(len(a[0]), len(b[0])) > 2:
                return None
            return a[0][:-1] + tuple(bx), mk("red", "sum", lab(l), mk("mul", a[1], b[1]))
        return None

    def index(self, t):
        if t.args[0].op == "linspace" and len(t.args) == 2 and isinstance(t.args[1], tm.T) and tm.num_const(t.args[1]) is not None:
            return (), t                           # one known entry of the grid
        x = self.elem(t.args[0])
        if x is None:
            return None
        src, out = list(x[0]), []
        specs = [a.args[0] if isinstance(a, tm.T) and a.op == "const" and isinstance(a.args[0], str) else a for a in t.args[1:]]
        if "..." in specs:
            k = specs.index("...")
            specs[k:k + 1] = [":"] * (len(src) - sum(1 for s in specs if s not in ("new", "...")))
        e = x[1]
        for s in specs:
            if s == "new":
                out.append(None)
            elif not src:
                return None
            elif s == ":":
                out.append(src.pop(0))
            elif turned(s):
                l = src.pop(0)
                out.append(l and (l[1] if l[0] == "rev" else ("rev", l)))
            elif isinstance(s, tm.T) and self.elem(s) is not None and not self.elem(s)[0]:
                l = src.pop(0)
                self.dropped[l] = s if l not in self.dropped or self.dropped[l] is s else None
            else:
                return None
        return tuple(out + src), e

    def einsum(self, t):
        spec = t.args[0].args[0] if t.args[0].op == "const" else None
        if not isinstance(spec, str):
            return None
        spec = spec.replace(" ", "")
        if "->" not in spec or "." in spec:
            return None
        ins, out = spec.split("->")
        ins = ins.split(",")
        xs = [self.elem(a) for a in t.args[1:]]
        xs = [((None,) * len(i), x[1]) if x is not None and tm.is_const(x[1]) else x for x, i in zip(xs, ins)]
        if len(ins) != len(xs) or any(x is None or len(x[0]) != len(i) for x, i in zip(xs, ins)):
            return None
        m, e = {}, const(1)
        for x, i in zip(xs, ins):
            for l, c in zip(x[0], i):
                if l is None:                      # a filled array: the same number everywhere
                    continue
                if m.get(c, l) != l:
                    return None
                m[c] = l
            e = mk("mul", e, x[1])
        if len(set(m.values())) != len(m) or any(c not in m for i in ins for c in i if c not in out):
            return None
        for c in sorted(set(m) - set(out)):
            e = mk("red", "sum", lab(m[c]), e)
        return tuple(m.get(c) for c in out), e

    def red(self, t):
        if len(t.args) < 3 or t.args[0] not in ("sum",):
            return None
        x = self.elem(t.args[2])
        ax = t.args[1]
        ax = ax.args[0] if isinstance(ax, tm.T) and ax.op == "const" else ax
        if x is None or not isinstance(ax, tuple) or len(t.args) > 3:
            return None
        n = len(x[0])
        e, gone = x[1], set()
        for k in ax:
            if not isinstance(k, int) or not -n <= k < n or x[0][k] is None:
                return None
            gone.add(k % n)
            e = mk("red", "sum", lab(x[0][k]), e)
        return tuple(l for i, l in enumerate(x[0]) if i not in gone), e


def lit(a):
    return a.args[0] if isinstance(a, tm.T) and a.op == "const" else a


def turned(s):
    """x[::-1]"""
    return isinstance(s, tm.T) and s.op == "slice" and len(s.args) == 3 and [lit(a) for a in s.args] == [None, None, -1]


def lab(l):
    while l[0] == "rev":
        l = l[1]
    return "%".join(map(str, l))


def unify(a, b):
    if len(a) < len(b):
        a, b = b, a
    b = (None,) * (len(a) - len(b)) + tuple(b)
    out = []
    for x, y in zip(a, b):
        if x is not None and y is not None and x != y:
            return None
        out.append(y if x is None else x)
    r = [x for x in out if x is not None]
    return tuple(out) if len(set(r)) == len(r) else None


# ---------------------------------------------------------------- values
class Rnd:
    """reproducible numbers in (lo, hi) by key"""
    def __init__(self, seed):
        self.seed = seed

    def __call__(self, lo, hi, *key):
        h = 1469598103934665603 ^ self.seed
        for k in key:
            for c in str(k):
                h = ((h ^ ord(c)) * 1099511628211) & (2**64 - 1)
        h ^= h >> 29
        h = (h * 0xbf58476d1ce4e5b9) & (2**64 - 1)
        h ^= h >> 32
        return lo + (hi - lo) * (h / 2**64)


class Undecided(Exception):
    pass


def num(t, rnd, given=None, depth=3):
    """value of a formula at the point `rnd`; given: {term: value}"""
    given = given or {}
    memo = {}

    def key(env):
        return tuple(sorted(env.items()))

    def go(t, env):
        if t in given:
            return given[t]
        k = (t.id, key(env))
        if k not in memo:
            memo[k] = val(t, env)
        return memo[k]

    def val(t, env):
        c = tm.num_const(t)
        if c is not None:
            return float(c)
        o = t.op
        if o in ("qroots", "qweights"):
            l = lab(("q", t.args[0].id, t.args[1].id))
            return rnd(-1 if o == "qroots" else 0.1, 1, o, l, env.get(l, 0))
        if o == "linspace":
            a, b = go(t.args[0], env), go(t.args[1], env)
            return a + (b - a) * rnd(0, 1, "grid", t.id, env.get(lab(("g", t.id)), 0))
        if o == "ix" and len(t.args) == 2 and t.args[0].op == "linspace" and tm.num_const(t.args[1]) is not None:
            a, b, n = (go(q, env) for q in t.args[0].args[:3])
            i = tm.num_const(t.args[1])
            return a + (b - a) * (i if i >= 0 else n + i) / (n - 1)
        if o == "red" and t.args[0] == "sum" and isinstance(t.args[1], str):
            return sum(go(t.args[2], dict(env, **{t.args[1]: i})) for i in range(1, depth + 1))
        if o == "interp" or o == "fn" and fname(t) == "interp":
            ax = t.args if o == "interp" else t.args[1:]
            if len(ax) == 3 and ax[1].op == "linspace" and ax[2].op == "arange0" and ax[1].args[2] is ax[2].args[0]:
                a, b, n = (go(q, env) for q in ax[1].args[:3])
                x = go(ax[0], env)
                if b == a:
                    raise Undecided
                return (x - a) / (b - a) * (n - 1)
        if o == "sym":
            return rnd(0.3, 1.7, "sym", t.id)
        xs = [go(a, env) for a in t.args if isinstance(a, tm.T) and not (a.op == "const" and isinstance(a.args[0], str))]
        try:
            if o == "add":
                return sum(xs)
            if o == "sub":
                return xs[0] - xs[1]
            if o == "mul":
                return math.prod(xs)
            if o == "div":
                return xs[0] / xs[1]
            if o == "inv" or o == "reciprocal":
                return 1 / xs[0]
            if o == "neg" or o == "negative":
                return -xs[0]
            if o == "pow":
                return xs[0] ** xs[1]
            if o == "square":
                return xs[0] ** 2
            if o == "exp":
                return math.exp(xs[0])
            if o == "expm1":
                return math.expm1(xs[0])
            if o in ("expit", "logistic") or o == "fn" and str(fname(t)).endswith(("expit", "logistic.cdf")):
                return 1 / (1 + math.exp(-xs[-1]))
            if o == "tanh" or o == "fn" and str(fname(t)).split(".")[-1] == "tanh":
                return math.tanh(xs[-1])
            if o == "log":
                return math.log(xs[0])
            if o == "log1p":
                return math.log1p(xs[0])
            if o == "sqrt":
                return math.sqrt(xs[0])
            if o == "abs":
                return abs(xs[0])
            if o == "min2":
                return min(xs)
            if o == "max2":
                return max(xs)
            if o in ("trunc", "int"):
                return float(math.trunc(xs[0]))
            if o == "floor":
                return float(math.floor(xs[0]))
            if o == "ceil":
                return float(math.ceil(xs[0]))
            if o in ("round", "rint") and len(xs) == 1:
                return float(round(xs[0]))
            if o == "mod":
                return xs[0] % xs[1]
            if o == "floordiv":
                return float(xs[0] // xs[1])
            if o == "sign":
                return float((xs[0] > 0) - (xs[0] < 0))
            if o == "eq":
                return float(xs[0] == xs[1])
            if o == "ne":
                return float(xs[0] != xs[1])
            if o == "not":
                return float(not xs[0])
            if o == "bool":
                return float(bool(xs[0]))
            if o == "gt":
                return float(xs[0] > xs[1])
            if o == "ge":
                return float(xs[0] >= xs[1])
            if o == "lt":
                return float(xs[0] < xs[1])
            if o == "le":
                return float(xs[0] <= xs[1])
            if o in ("where", "ite"):
                return xs[1] if xs[0] else xs[2]
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Undecided
        if o == "fn" or o == "call":
            return rnd(0.2, 1, "fn", *[a if not isinstance(a, tm.T) else a.args[0] if a.op == "const" else "%.9g" % go(a, env) for a in t.args])
        raise Undecided

    return go(t, {})


def agree(a, b, pairs=None, tries=5):
    """True / False: the formulas take the same values; None: cannot be evaluated.
    pairs: [(term of a, term of b)] that stand for the same quantity"""
    bad = 0
    for s in range(tries):
        rnd = Rnd(7919 * (s + 1))
        ga, gb = {}, {}
        for i, (x, y) in enumerate(pairs or ()):
            v = rnd(0.4, 1.9, "pair", i)
            ga[x], gb[y] = v, v
        try:
            x, y = num(a, rnd, ga), num(b, rnd, gb)
        except Undecided:
            return None
        if not abs(x - y) <= 1e-9 * max(1, abs(x), abs(y)):
            bad += 1
    return bad == 0
