"""Hash-consed value terms (global value numbering) with light folding.

A term stands for the value an expression has at one program point.  Two equal
(identical) terms denote equal values; different terms may or may not be equal.
Terms are never evaluated numerically except for literal constants, and nothing
is handed to a solver: equality is identity after the local rewrites below, or
identity of the polynomial normal form (`poly`).
"""
import math

SENTINEL_VALUE = -99999          # the documented missing-response placeholder


class T:
    __slots__ = ("op", "args", "id", "_poly", "_atoms", "_sent")

    def __repr__(self):
        return show(self)


_table = {}
_count = [0]


def _intern(op, args):
    key = (op,) + tuple(("t", a.id) if isinstance(a, T) else (type(a).__name__, a) for a in args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.id = op, args, _count[0]
        t._poly = t._atoms = t._sent = None
        _count[0] += 1
        _table[key] = t
    return t


def reset():
    """Only for tests: terms are global for one process."""
    _table.clear()


def const(v):
    if isinstance(v, bool):
        return _intern("const", (v,))
    if isinstance(v, (int, float)):
        if isinstance(v, float):
            if v != v:
                return _intern("nan", ())
            if v.is_integer() and abs(v) < 1e15:
                v = int(v)
        if v == SENTINEL_VALUE:
            return SENT
        return _intern("const", (v,))
    try:
        hash(v)
    except TypeError:
        v = repr(v)
    return _intern("const", (v,))


SENT = _intern("SENT", ())


def sym(*name):
    return _intern("sym", tuple(name))


TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)
NONE = const(None)


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[0]


def num_const(t):
    """numeric constant value or None"""
    if t.op == "const":
        v = t.args[0]
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float)):
            return v
    return None


_COMM = {"add", "mul", "eq", "ne", "and", "or", "max2", "min2", "bitand", "bitor", "bitxor"}


def _fold2(op, a, b):
    try:
        if op == "add":
            return a + b
        if op == "sub":
            return a - b
        if op == "mul":
            return a * b
        if op == "div":
            return a / b if b != 0 else None
        if op == "floordiv":
            return a // b if b != 0 else None
        if op == "mod":
            return a % b if b != 0 else None
        if op == "pow":
            r = a ** b
            return r if isinstance(r, (int, float)) and abs(r) < 1e300 else None
        if op == "lt":
            return a < b
        if op == "le":
            return a <= b
        if op == "gt":
            return a > b
        if op == "ge":
            return a >= b
        if op == "eq":
            return a == b
        if op == "ne":
            return a != b
        if op == "max2":
            return max(a, b)
        if op == "min2":
            return min(a, b)
    except Exception:
        return None
    return None


_FOLD1 = {
    "exp": math.exp, "log": lambda x: math.log(x) if x > 0 else None,
    "log1p": lambda x: math.log1p(x) if x > -1 else None,
    "expm1": math.expm1,
    "sqrt": lambda x: math.sqrt(x) if x >= 0 else None,
    "abs": abs, "square": lambda x: x * x, "sin": math.sin, "cos": math.cos,
    "cosh": math.cosh, "expit": lambda x: 1 / (1 + math.exp(-x)),
    "sign": lambda x: (x > 0) - (x < 0),
}


def mk(op, *args):
    """Build a term, applying the local rewrites."""
    if op == "gt":
        return mk("lt", args[1], args[0])
    if op == "ge":
        return mk("le", args[1], args[0])
    if op == "neg":
        return mk("mul", const(-1), args[0])
    if op == "floordiv" and args[0].op == "mul" and args[1].op != "const":
        fs, todo = [], [args[0]]
        while todo:
            x = todo.pop()
            if x.op == "mul":
                todo += x.args
            else:
                fs.append(x)
        if args[1] in fs:
            fs.remove(args[1])
            r = ONE
            for x in fs:
                r = mk("mul", r, x)
            return r
    if op == "sub":
        a, b = args
        if a is b and a.op != "nan":
            return ZERO
        return mk("add", a, mk("mul", const(-1), b))
    if len(args) == 2 and all(isinstance(a, T) for a in args):
        a, b = args
        x, y = num_const(a), num_const(b)
        if x is not None and y is not None:
            r = _fold2(op, x, y)
            if r is not None:
                return const(r)
        elif op in ("eq", "ne") and a.op == "const" and b.op == "const":
            r = (a is b)
            return const(r if op == "eq" else not r)
        elif op in ("is", "isnot") and a.op == "const" and b.op == "const":
            return const((a is b) if op == "is" else (a is not b))
        if op == "add":
            if x == 0:
                return b
            if y == 0:
                return a
            p = _poly_of_sum(a, b)
            if p is not None:
                return p
        elif op == "mul":
            if x == 0 or y == 0:
                return ZERO
            if x == 1 and not isinstance(a.args[0], bool):
                return b
            if y == 1 and not isinstance(b.args[0], bool):
                return a
            if x == 1:
                return b
            if y == 1:
                return a
            # collect constant factors: c1*(c2*t) -> (c1*c2)*t
            if x is not None and b.op == "mul":
                z = num_const(b.args[0])
                if z is not None:
                    return mk("mul", const(x * z), b.args[1])
            if y is not None and a.op == "mul":
                z = num_const(a.args[0])
                if z is not None:
                    return mk("mul", const(y * z), a.args[1])
            if y is not None:
                a, b = b, a
                x, y = y, x
            if x is None:
                # pull constants out of either factor
                k = 1
                if a.op == "mul" and num_const(a.args[0]) is not None:
                    k *= num_const(a.args[0])
                    a = a.args[1]
                if b.op == "mul" and num_const(b.args[0]) is not None:
                    k *= num_const(b.args[0])
                    b = b.args[1]
                if k != 1:
                    return mk("mul", const(k), mk("mul", a, b))
                if a.op == "div" and b is a.args[1]:
                    return a.args[0]
                if b.op == "div" and a is b.args[1]:
                    return b.args[0]
        elif op == "div":
            if x == 0:
                return ZERO
            if y == 1:
                return a
            if y is not None and y != 0:
                return mk("mul", const(1 / y), a)
            if a is b:
                return ONE
            # (p*q)/q -> p
            if a.op == "mul":
                if a.args[1] is b:
                    return a.args[0]
                if a.args[0] is b:
                    return a.args[1]
        elif op == "pow":
            if y == 1:
                return a
            if y == 0:
                return ONE
            if y == 2:
                return mk("mul", a, a)
        elif op in ("eq", "le"):
            if a is b and a.op != "nan":
                return TRUE
        elif op in ("ne", "lt"):
            if a is b and a.op != "nan":
                return FALSE
        elif op in ("max2", "min2", "and", "or"):
            if a is b:
                return a
            if op == "and":
                for u, v in ((a, b), (b, a)):
                    if u.op == "const":
                        return v if u.args[0] else u
            if op == "or":
                for u, v in ((a, b), (b, a)):
                    if u.op == "const":
                        return u if u.args[0] else v
        if op in _COMM and not (op == "mul" and num_const(a) is not None):
            if a.id > b.id:
                a, b = b, a
        return _intern(op, (a, b))
    if op == "not":
        a = args[0]
        if a.op == "const":
            return const(not a.args[0])
        if a.op == "not":
            return a.args[0]
        if a.op == "lt":
            return mk("le", a.args[1], a.args[0])
        if a.op == "le":
            return mk("lt", a.args[1], a.args[0])
        if a.op == "eq":
            return mk("ne", *a.args)
        if a.op == "ne":
            return mk("eq", *a.args)
    if op == "square":
        return mk("mul", args[0], args[0])
    if op in _FOLD1 and len(args) == 1:
        x = num_const(args[0])
        if x is not None:
            try:
                r = _FOLD1[op](x)
            except Exception:
                r = None
            if r is not None:
                return const(r)
    if op == "ite":
        c, a, b = args
        if c.op == "const":
            return a if c.args[0] else b
        if a is b:
            return a
    if op == "where":
        c, a, b = args
        if c.op == "const":
            return a if c.args[0] else b
        if a is b:
            return a
    return _intern(op, tuple(args))


def _lin(t):
    """t as (coefficient, base) of a linear summand."""
    if t.op == "mul":
        k = num_const(t.args[0])
        if k is not None:
            return k, t.args[1]
    return 1, t


def _summands(t, out, k=1):
    if t.op == "add":
        _summands(t.args[0], out, k)
        _summands(t.args[1], out, k)
        return
    c = num_const(t)
    if c is not None:
        out[None] = out.get(None, 0) + k * c
        return
    if t.op == "mul":
        c = num_const(t.args[0])
        if c is not None:
            _summands(t.args[1], out, k * c)
            return
    out[t] = out.get(t, 0) + k


def _poly_of_sum(a, b):
    """canonical linear combination for sums (so n+1-1 folds)"""
    out = {}
    _summands(a, out)
    _summands(b, out)
    if len(out) > 12:
        return None
    items = sorted(((t, c) for t, c in out.items() if t is not None and c != 0), key=lambda p: p[0].id)
    c0 = out.get(None, 0)
    acc = None
    for t, c in items:
        s = t if c == 1 else _intern("mul", (const(c), t))
        acc = s if acc is None else _intern("add", (acc, s))
    if acc is None:
        return const(c0)
    if c0 != 0:
        acc = _intern("add", (acc, const(c0)))
    return acc


def poly(t, depth=0):
    """Polynomial normal form: dict monomial(tuple of (atom id, power)) -> coefficient."""
    if t._poly is not None:
        return t._poly
    c = num_const(t)
    if c is not None:
        r = {(): c} if c != 0 else {}
    elif t.op == "add":
        r = padd(poly(t.args[0]), poly(t.args[1]))
    elif t.op == "mul":
        r = pmul(poly(t.args[0]), poly(t.args[1]))
        if r is None:
            r = {((t.id, 1),): 1}
    elif t.op == "div":
        d = poly(t.args[1])
        if len(d) == 1:
            (mono, coef), = d.items()
            inv = {tuple((a, -p) for a, p in mono): 1 / coef}
            r = pmul(poly(t.args[0]), inv)
            if r is None:
                r = {((t.id, 1),): 1}
        else:
            n = poly(t.args[0])
            inv = mk("inv", t.args[1])
            r = pmul(n, {((inv.id, 1),): 1})
            if r is None:
                r = {((t.id, 1),): 1}
    else:
        r = {((t.id, 1),): 1}
    t._poly = r
    return r


def padd(a, b):
    r = dict(a)
    for k, v in b.items():
        s = r.get(k, 0) + v
        if abs(s) < 1e-12:
            r.pop(k, None)
        else:
            r[k] = s
    return r


def pmul(a, b):
    if len(a) * len(b) > 64:
        return None
    r = {}
    for k1, v1 in a.items():
        for k2, v2 in b.items():
            m = dict(k1)
            for at, p in k2:
                m[at] = m.get(at, 0) + p
            k = tuple(sorted((at, p) for at, p in m.items() if p != 0))
            s = r.get(k, 0) + v1 * v2
            if abs(s) < 1e-12:
                r.pop(k, None)
            else:
                r[k] = s
    return r


def pneg(a):
    return {k: -v for k, v in a.items()}


def peq(a, b):
    ks = set(a) | set(b)
    return all(abs(a.get(k, 0) - b.get(k, 0)) < 1e-9 for k in ks)


def same(a, b):
    """provably equal"""
    return a is b or peq(poly(a), poly(b))


def pconst(t):
    """the number a term always equals, or None"""
    p = poly(t)
    if not p:
        return 0
    if len(p) == 1 and () in p:
        return p[()]
    return None


def subterms(t, seen=None):
    """all distinct subterms (iterative)"""
    seen = {} if seen is None else seen
    stack = [t]
    while stack:
        u = stack.pop()
        if u.id in seen:
            continue
        seen[u.id] = u
        for a in u.args:
            if isinstance(a, T):
                stack.append(a)
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, T):
                        stack.append(b)
    return seen


def atoms(t):
    """ids of every subterm (cached)"""
    if t._atoms is None:
        t._atoms = frozenset(subterms(t))
    return t._atoms


def contains(t, pred):
    return any(pred(u) for u in subterms(t).values())


def has_sent(t):
    if t._sent is None:
        t._sent = SENT.id in subterms(t)
    return t._sent


def show(t, depth=0):
    if depth > 6:
        return "…"
    if t.op == "const":
        return repr(t.args[0])
    if t.op == "sym":
        return ":".join(str(a) if not isinstance(a, T) else show(a, depth + 1) for a in t.args)
    return t.op + "(" + ", ".join(show(a, depth + 1) if isinstance(a, T) else str(a) for a in t.args) + ")"


def replace(t, m):
    """t with the subterms that are keys of m replaced"""
    memo = {}

    def go(u):
        if u in m:
            return m[u]
        r = memo.get(u)
        if r is None:
            args = tuple(go(a) if isinstance(a, T) else a for a in u.args)
            r = u if all(x is y for x, y in zip(args, u.args)) else mk(u.op, *args)
            memo[u] = r
        return r
    return go(t)
