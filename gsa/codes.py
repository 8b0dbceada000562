"""Scale of a value with respect to the numbers that name the response categories.

If every category code is raised by the same amount s, a value is raised by k*s for a fixed number k:
k = 1 for a code, D ("spaced", in strict mode only) for what depends on how far codes lie apart and not only on their order, 0 for whatever depends only on how codes compare with each other, W ("weighted") when the
amount depends on how many codes were put together (a sum over items).  Operations that fit none of these
(a code compared with a fixed number, used as a position, passed through a logarithm) are reported.
"""
from . import terms as tm

W = "w"
D = "d"
APART = "the distance between category codes, not only their order, decides"


class Bad:
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why


SAME = {"copy", "new", "rs", "T", "transpose", "asarray", "float", "round", "rint", "cast", "int", "array", "takeal", "ala", "flip", "rev", "roll", "trunc", "floor", "ceil", "sorted", "sort",
        "unique", "tile", "repeat", "resized", "concat", "cat", "stack", "squeeze", "swapaxes", "diagonal", "tri", "bc", "prev", "vals", "elem", "pack", "ravel", "mask", "nan_to_num", "el", "item", "item?", "percentile", "gather", "filtered", "insert", "delete", "vec", "pad", "pair", "get", "diag"}
ZERO = {"ucount", "uinv", "ulen", "udim", "uidx", "dim", "len", "sizeof", "shapeof", "seldim", "count", "dtype", "corrcoef", "cov", "argsort", "argmax", "argmin", "arange0", "is", "isnot", "isnan",
        "isfinite", "isinf", "optres", "phi", "const", "nan", "rangelen", "kendall", "ndim", "nbytes", "itemsize", "dtattr", "typeof", "hash", "str", "fstr", "nonzero", "pidx", "key"}
KEEP = {"min", "max", "amin", "amax", "nanmin", "nanmax", "median", "nanmedian", "percentile", "quantile", "mean", "nanmean", "average"}
SUMS = {"sum", "nansum", "cumsum", "nancumsum", "trapz"}
SPREAD = {"std", "var", "nanstd", "nanvar", "ptp", "argmin", "argmax", "len", "size"}
CMP = {"eq", "ne", "lt", "le"}


def label(a):
    a = a.args[0] if isinstance(a, tm.T) and a.op == "const" else a
    return str(a).split(".")[-1]


class Scales:
    Bad = Bad

    def __init__(self, leaves, strict=False):
        self.strict = strict
        self.leaves = leaves            # names of arguments that hold category codes
        self.memo = {}
        self.unknown = {}

    def __call__(self, t):
        s = self.get(t)
        return 0 if isinstance(s, Bad) else s

    def get(self, t):
        """iterative post-order: terms are shared and deep"""
        m = self.memo
        todo = [t]
        while todo:
            u = todo[-1]
            if u.id in m:
                todo.pop()
                continue
            if u.op in ZERO:
                m[u.id] = 0
                todo.pop()
                continue
            need = [a for a in parts(u) if a.id not in m]
            if need:
                todo += need
                continue
            m[u.id] = self.rule(u)
            todo.pop()
        return m[t.id]

    def s(self, a):
        if not isinstance(a, tm.T):
            return 0
        r = self.memo.get(a.id, 0)
        return 0 if isinstance(r, Bad) else r

    def rule(self, t):
        op, a = t.op, t.args
        if op == "sym":
            return 1 if a and a[0] in ("in", "arg") and len(a) > 1 and a[1] in self.leaves else 0
        ss = [self.s(x) for x in a]
        if op == "sub":
            ss = [ss[0], -ss[1] if isinstance(ss[1], (int, float)) else ss[1]]
        if op in ("add", "sub"):
            out = 0
            if D in ss or W in ss and sum(k != 0 for k in ss) > 1:
                return D if self.strict else 0       # a sum of codes less as many codes: taken to balance
            for x in ss:
                out = x if out == 0 else out + x
            return D if out == 0 and self.strict and any(k != 0 for k in ss) else out
        if op == "mul":
            nz = [(x, k) for x, k in zip(a, ss) if k != 0]
            if not nz:
                return 0
            if len(nz) > 1:
                return Bad("category codes are multiplied with each other")
            x, k = nz[0]
            c = 1
            for y in a:
                if y is not x:
                    v = tm.num_const(y) if isinstance(y, tm.T) else None
                    if k == D:
                        return D
                    if v is None or k == W:
                        return W
                    c *= v
            return k * c
        if op == "div":
            if D in ss:
                return D
            if ss[1] != 0:
                return Bad("a number is divided by a category code") if ss[1] == 1 or ss[0] == 0 else 0
            if ss[0] == 0:
                return 0
            if ss[0] == W:
                return 1                          # a sum of codes over their number: a mean code
            v = tm.num_const(a[1])
            return ss[0] / v if v else W
        if op in CMP:
            if any(x is tm.SENT for x in a):
                return 0
            k, l = ss[0], ss[1]
            if k == l:
                return 0
            if {k, l} == {0, D}:
                z = a[0] if k == 0 else a[1]
                return 0 if z is tm.ZERO or self.mixed(z) else Bad(APART)
            if any(isinstance(x, tm.T) and self.mixed(x) for x in a):
                return 0
            return Bad("category codes are compared with a number that does not move with them")
        if op in ("max2", "min2"):
            nz = [k for k in ss if k != 0]
            if len(nz) == len(ss) and len(set(map(str, nz))) == 1 or not nz:
                return nz[0] if nz else 0
            if any(x is tm.SENT for x in a):
                return nz[0]
            return Bad("category codes are limited by a number that does not move with them")
        if op == "red":
            n = label(a[0])
            k = next((self.s(x) for x in a[1:] if isinstance(x, tm.T) and self.s(x) != 0), 0)
            if k == 0:
                return 0
            if n in KEEP:
                return Bad("category codes are put together with a fixed number that stands for missing answers") if any(isinstance(x, tm.T) and filled(x, self) for x in a[1:]) else k
            if n in SUMS:
                return D if k == D else W
            if n in SPREAD:
                return D if self.strict and n in ("std", "var", "nanstd", "nanvar", "ptp") else 0
            if n in ("any", "all", "count_nonzero") and k == D:
                return 0
            if n in ("any", "all", "count_nonzero"):
                return Bad("category codes are taken as true or false")
            if n in ("prod", "nanprod", "logsumexp"):
                return Bad("category codes are multiplied")
            return self.lost(t)
        if op in ("take", "ix", "take?", "ix?"):
            for x in a[1:]:
                if isinstance(x, tm.T) and self.s(x) != 0:
                    return Bad("a category code is used as a position or size")
            return ss[0]
        if op == "takeal":
            return Bad("a category code is used as a position or size") if any(k != 0 for k in ss[1:]) else ss[0]
        if op == "st":
            return next((k for k in ss[::-1] if k != 0), 0)
        if op in ("join", "where", "ite"):
            ks = ss if op == "join" else ss[1:]
            if op != "join" and ss[0] != 0:
                return Bad("category codes are taken as true or false")
            return next((k for k in ks if k != 0), 0)
        if op in SAME:
            return next((k for k in ss if k != 0), 0)
        if op in ("and", "or", "not", "bitand", "bitor"):
            return Bad("category codes are taken as true or false") if any(k != 0 for k in ss) else 0
        if all(k == 0 for k in ss):
            return 0
        if op in ("abs", "pow", "log", "exp", "sqrt", "square", "log1p", "expit", "mod", "floordiv", "inv", "sign"):
            if D in ss and not any(k not in (0, D) for k in ss):
                return 0 if op == "sign" else D
            return Bad(f"category codes pass through {op}")
        if op in ("dot", "einsum", "lin", "cum"):
            return W if sum(k != 0 for k in ss) == 1 else Bad("category codes are multiplied with each other")
        if op in ("searchsorted", "digitize", "isin", "contains"):
            return 0 if all(k == 1 for k, x in zip(ss, a) if isinstance(x, tm.T) and not sent(x)) else Bad("category codes are looked up among numbers that do not move with them")
        if op == "bincount":
            return Bad("a category code is used as a position or size") if ss[0] else 0
        if op == "diff":
            return D if self.strict else 0
        if op == "fn":
            n = label(a[0])
            if n in ("norm", "dist"):
                return self.lost(t)
            return Bad(f"category codes pass through {n}")
        return self.lost(t)

    def mixed(self, x):
        """a start value that is replaced by a code, or a value kept from the last pass of a loop: not judged"""
        return x.op == "join" and any(self.s(y) != 0 or self.mixed(y) for y in x.args if isinstance(y, tm.T)) or x.op == "carried" or x.op == "sym" and x.args[0] in ("phi", "carried")

    def lost(self, t):
        self.unknown.setdefault(t.op if t.op not in ("red", "fn") else t.op + ":" + label(t.args[0]), t)
        return 0


def filled(x, s):
    """category codes with a fixed finite number in some places"""
    if x.op in ("where", "join", "ite"):
        xs = x.args[1:] if x.op != "join" else x.args
        ks = [s.s(y) for y in xs]
        return 1 in ks and any(k == 0 and tm.num_const(y) is not None and abs(tm.num_const(y)) < 1e4 for k, y in zip(ks, xs) if isinstance(y, tm.T) and y is not tm.SENT)
    return False


def sent(x):
    """the placeholder, alone or in a list, or an option of the call"""
    return x is tm.SENT or x.op == "const" and (x.args[0] is None or isinstance(x.args[0], (bool, str))) or x.op in ("pack", "cat", "array", "vec") and all(sent(y) for y in x.args if isinstance(y, tm.T))


def parts(u):
    return [x for x in u.args if isinstance(x, tm.T)]
