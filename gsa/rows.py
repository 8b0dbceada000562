"""Deciding order and symmetry conditions on the rows of a parameter table.

A table of m columns is represented by one generic row x0..x(m-1); a term built from the table is a list of linear forms
over those columns (one per column of the term).  A `Facts` object says which linear forms are known positive, negative,
zero or nonzero in the row that violates the domain ("bad") and in every other row ("good").  Conditions are evaluated in
three-valued logic; anything outside the vocabulary is unknown."""
from . import terms as tm

UNK = None


class Num:
    def __init__(self, axes, cols):
        self.axes, self.cols = tuple(axes), cols     # axes: 'I' items, 'C' columns, '1'; cols: list (one per column) of forms


class Bool:
    def __init__(self, axes, cols):
        self.axes, self.cols = tuple(axes), cols     # entries: (value in the bad row, value in the other rows)


class Ext:
    """minimum / maximum / absolute value of forms"""
    def __init__(self, kind, axes, cols):
        self.kind, self.axes, self.cols = kind, tuple(axes), cols


class Agg:
    """extreme value over axes: comparisons become quantified"""
    def __init__(self, kind, inner, axes):
        self.kind, self.inner, self.axes = kind, inner, axes


class Count:
    def __init__(self, b, axes):
        self.b, self.axes = b, axes


class Sorted:
    def __init__(self, num):
        self.num = num


def comb(a, b, sb=1.0):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + sb * v
    return {k: v for k, v in out.items() if abs(v) > 1e-12}


def scale(a, s):
    return {k: v * s for k, v in a.items() if v * s}


def t_not(x):
    return None if x is None else not x


def t_and(xs):
    xs = list(xs)
    if any(x is False for x in xs):
        return False
    return True if all(x is True for x in xs) else None


def t_or(xs):
    return t_not(t_and(t_not(x) for x in xs))


class Order:
    """differences of neighbouring columns: sign[k] of x[k+1]-x[k] is +1, -1 or 0 (unknown)"""
    def __init__(self, m, bad):
        self.m = m
        self.signs = ([1] * (m - 1), [1] * (m - 1)) if bad is None else ([0] * (m - 1), [1] * (m - 1))
        if bad is not None:
            for k, s in bad.items():
                self.signs[0][k] = s

    def sign(self, form, which):
        """(may be <0, may be 0, may be >0)"""
        c = form.get("c", 0)
        f = {k: v for k, v in form.items() if k != "c"}
        if not f:
            return (c < 0, c == 0, c > 0)
        if abs(sum(f.values())) > 1e-9:
            return (True, True, True)
        # sum of coefficients zero: form = sum_k w_k d_k with w_k = -(c_0+..+c_k)
        acc, pos, neg, free = 0.0, c > 0, c < 0, False
        for k in range(self.m - 1):
            acc += f.get(k, 0)
            w = -acc
            if abs(w) < 1e-12:
                continue
            s = self.signs[which][k]
            if s == 0:
                free = True
            elif w * s > 0:
                pos = True
            else:
                neg = True
        if free or (pos and neg):
            return (True, True, True)
        return (False, False, True) if pos else (True, False, False) if neg else (False, True, False)


class Symmetry:
    """x[k] + x[m-1-k] - 2 x[mid]: zero for all k in the other rows; nonzero for pair j (others unknown) in the bad row"""
    def __init__(self, m, bad):
        self.m, self.bad = m, bad
        self.mid = (m - 1) // 2

    def coords(self, form):
        """coefficients over the pair sums, or None when the form is not a combination of them"""
        f = dict(form)
        if abs(f.pop("c", 0)) > 1e-12:
            return None
        out = {}
        for k in range(self.mid):
            a, b = f.pop(k, 0), f.pop(self.m - 1 - k, 0)
            if abs(a - b) > 1e-9:
                return None
            if abs(a) > 1e-12:
                out[k] = a
        m = f.pop(self.mid, 0)
        if f or abs(m + 2 * sum(out.values())) > 1e-9:
            return None
        return out

    def sign(self, form, which):
        if not {k for k in form if k != "c"}:
            c = form.get("c", 0)
            return (c < 0, c == 0, c > 0)
        co = self.coords(form)
        if co is None:
            return (True, True, True)
        if not co or self.bad is None or which == 1:
            return (False, True, False)
        if set(co) == {self.bad}:
            return (True, False, True)
        return (True, True, True)

    def tiny(self, form, which):
        """is the form beyond any rounding tolerance? True: zero, False: far from zero"""
        a, b, c = self.sign(form, which)
        if (a, b, c) == (False, True, False):
            return True
        return False if not b else None


class Judge:
    def __init__(self, arr, m, facts):
        self.arr, self.m, self.facts = arr, m, facts
        self.memo = {}
        self.asked = 0

    def __call__(self, t):
        if not tm.contains(t, lambda u: u is self.arr):
            return None
        v = self.ev(t)
        r = None
        if isinstance(v, Count):
            v = v.b
            r = self.quant(v, any)
        elif isinstance(v, Bool):
            r = self.one(v)
        self.asked += 1
        return r

    # one truth value of a Bool without axes (or the generic row of a loop over the items)
    def one(self, b):
        return b.cols[0][0] if len(b.cols) == 1 and not [a for a in b.axes if a != "1"] else None

    def quant(self, b, how):
        tri = t_and if how is all else t_or
        xs = []
        for bad, good in b.cols:
            xs += [bad, good] if "I" in b.axes else [bad]
        if how is all:
            return t_and(xs)
        return t_or(xs)

    def ev(self, t):
        r = self.memo.get(t.id, 0)
        if r == 0:
            self.memo[t.id] = None
            r = self.memo[t.id] = self.compute(t)
        return r

    def compute(self, t):
        if t is self.arr:
            return Num("IC", [{k: 1.0} for k in range(self.m)])
        c = tm.num_const(t) if tm.is_const(t) else None
        if c is not None and not isinstance(c, complex):
            return Num("", [{"c": float(c)}] if c else [{}])
        op, a = t.op, t.args
        if op in ("copy", "asarray", "cast", "astype", "float", "ascontiguousarray") and a and isinstance(a[0], tm.T):
            return self.ev(a[0])
        if op in ("ix", "take"):
            return self.index(self.ev(a[0]), a[1:], op == "take")
        if op == "sort":
            v = self.ev(a[0])
            ax = str(a[-1].args[0]) if isinstance(a[-1], tm.T) and a[-1].op == "const" else str(a[-1])
            if isinstance(v, Num) and [q for q in v.axes if q != "1"][-1:] == ["C"]:
                last = len(v.axes) - 1
                if ax in ("(-1,)", f"({last},)"):
                    return Sorted(v)
            return None
        if op in ("add", "sub"):
            vs = [self.ev(x) for x in a]
            if all(isinstance(x, Num) for x in vs):
                out = vs[0]
                for x in vs[1:]:
                    out = self.zip(out, x, lambda p, q: comb(p, q, -1.0 if op == "sub" else 1.0))
                    if out is None:
                        return None
                return out
            return None
        if op == "neg":
            v = self.ev(a[0])
            return Num(v.axes, [scale(f, -1.0) for f in v.cols]) if isinstance(v, Num) else None
        if op in ("mul", "div"):
            vs = [self.ev(x) for x in a]
            if len(vs) == 2 and all(isinstance(x, Num) for x in vs):
                if op == "mul" and a[0] is a[1]:
                    return Ext("abs", vs[0].axes, vs[0].cols)
                for x, y in ((vs[0], vs[1]), (vs[1], vs[0])):
                    if not x.axes and set(x.cols[0]) <= {"c"}:
                        k = x.cols[0].get("c", 0)
                        if op == "div":
                            if x is vs[0] or not k:
                                return None
                            k = 1.0 / k
                        return Num(y.axes, [scale(f, k) for f in y.cols])
                if op == "mul":
                    p, q = vs
                    if p.axes == q.axes and all(not comb(f, g, -1) or not comb(f, g, 1) for f, g in zip(p.cols, q.cols)) and len(p.cols) == len(q.cols):
                        return Ext("abs", p.axes, p.cols)
            return None
        if op in ("abs", "square", "fabs"):
            v = self.ev(a[0])
            return Ext("abs", v.axes, v.cols) if isinstance(v, Num) else v if isinstance(v, Ext) else None
        if op == "pow" and tm.is_const(a[1]) and tm.num_const(a[1]) == 2:
            v = self.ev(a[0])
            return Ext("abs", v.axes, v.cols) if isinstance(v, Num) else v if isinstance(v, Ext) else None
        if op in ("lt", "le", "gt", "ge", "eq", "ne"):
            return self.compare(op, self.ev(a[0]), self.ev(a[1]))
        if op in ("isclose", "allclose"):
            x, y = self.ev(a[0]), self.ev(a[1])
            r = self.near(x, y)
            return Bool("", [(self.quant(r, all),) * 2]) if r is not None and op == "allclose" else r
        if op == "array_equal":
            r = self.compare("eq", self.ev(a[0]), self.ev(a[1]))
            return Bool("", [(self.quant(r, all),) * 2]) if isinstance(r, Bool) else None
        if op in ("not", "invert", "logical_not"):
            v = self.ev(a[0])
            if isinstance(v, Count):
                v = Bool("", [(self.quant(v.b, any),) * 2])
            return Bool(v.axes, [(t_not(p), t_not(q)) for p, q in v.cols]) if isinstance(v, Bool) else None
        if op in ("and", "or", "logical_and", "logical_or", "bitand", "bitor"):
            vs = [self.ev(x) for x in a]
            vs = [v if isinstance(v, Bool) else Bool("", [(None, None)]) for v in vs]
            f = t_and if "and" in op else t_or
            out = vs[0]
            for x in vs[1:]:
                out = self.zipb(out, x, f)
                if out is None:
                    return None
            return out
        if op == "ite" and len(a) == 3:
            c, p, q = [self.ev(x) for x in a]
            if isinstance(c, Bool) and not c.axes:
                k = c.cols[0][0]
                if k is not None:
                    return p if k else q
            return None
        if op == "red":
            return self.reduce(a[0], a[1], self.ev(a[2]) if isinstance(a[2], tm.T) else None)
        return None

    def reduce(self, op, axes, v):
        op = str(op.args[0]) if isinstance(op, tm.T) else op
        if v is None:
            return None
        if isinstance(axes, tm.T):
            axes = axes.args[0] if axes.op == "const" else None
        if not isinstance(axes, tuple):
            return None
        n = len(v.axes)
        axs = {x % n for x in axes} if n else set()
        gone = [v.axes[i] for i in axs]
        left = tuple(x for i, x in enumerate(v.axes) if i not in axs)
        if isinstance(v, Bool) and op in ("all", "any", "min", "max", "prod"):
            q = all if op in ("all", "min", "prod") else any
            return self.qred(v, gone, left, q)
        if isinstance(v, Bool) and op in ("count_nonzero", "sum") and not left:
            return Count(v, left)
        if isinstance(v, Num) and op == "sum":
            if gone == ["C"]:
                out = {}
                for f in v.cols:
                    out = comb(out, f)
                return Num(left, [out])
            return None
        if isinstance(v, (Num, Ext)) and op in ("min", "max"):
            return Agg(op, (v, gone), left)
        return None

    def qred(self, v, gone, left, q):
        tri = t_and if q is all else t_or
        cols = v.cols
        if "C" in gone:
            cols = [(tri(p for p, _ in cols), tri(g for _, g in cols))]
        if "I" in gone:
            cols = [(tri([p, g]),) * 2 for p, g in cols]
        return Bool(left, cols)

    def zip(self, x, y, f):
        n, m = len(x.cols), len(y.cols)
        cx, cy = "C" in x.axes, "C" in y.axes
        if cx and cy and n != m:
            return None
        axes = x.axes if len(x.axes) >= len(y.axes) and (cx or not cy) else y.axes
        if "C" not in axes and (cx or cy):
            return None
        if cx and cy:
            cols = [f(p, q) for p, q in zip(x.cols, y.cols)]
        elif cx:
            cols = [f(p, y.cols[0]) for p in x.cols]
        elif cy:
            cols = [f(x.cols[0], q) for q in y.cols]
        else:
            cols = [f(x.cols[0], y.cols[0])]
        return Num(axes, cols)

    def zipb(self, x, y, tri):
        r = self.zip(Num(x.axes, x.cols), Num(y.axes, y.cols), lambda p, q: (tri([p[0], q[0]]), tri([p[1], q[1]])))
        return Bool(r.axes, r.cols) if r is not None else None

    def rel(self, op, form):
        """truth of `form op 0` in the bad row and in the others"""
        out = []
        for w in (0, 1):
            n, z, p = self.facts.sign(form, w)
            yes = {"lt": n, "le": n or z, "gt": p, "ge": p or z, "eq": z, "ne": n or p}[op]
            no = {"lt": z or p, "le": p, "gt": n or z, "ge": n, "eq": n or p, "ne": z}[op]
            out.append(True if not no else False if not yes else None)
        return tuple(out)

    def compare(self, op, x, y):
        flip = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le", "eq": "eq", "ne": "ne"}
        if x is None or y is None:
            return None
        if isinstance(x, Num) and isinstance(y, Num):
            d = self.zip(x, y, lambda p, q: comb(p, q, -1.0))
            return Bool(d.axes, [self.rel(op, f) for f in d.cols]) if d is not None else None
        if isinstance(y, (Agg, Count, Ext, Sorted)) and not isinstance(x, (Agg, Count, Ext, Sorted)):
            return self.compare(flip[op], y, x)
        if isinstance(x, Sorted) or isinstance(y, Sorted):
            if isinstance(x, Sorted) and isinstance(y, Num) and op in ("eq", "ne") and not [1 for f, g in zip(x.num.cols, y.cols) if comb(f, g, -1)] \
                    and len(x.num.cols) == len(y.cols):
                up = []
                for w in (0, 1):
                    s = t_and(self.rel("le", comb(f, g, -1.0))[w] for f, g in zip(y.cols, y.cols[1:]))
                    up.append(s if op == "eq" else t_not(s))
                return Bool([a for a in y.axes if a != "C"] + ["C"], [tuple(up)])
            return None
        if isinstance(x, Count):
            k = self.plain(y)
            if k is None:
                return None
            some = self.quant(x.b, any)
            if (op, k) in (("gt", 0), ("ge", 1), ("ne", 0)):
                return Bool("", [(some,) * 2])
            if (op, k) in (("le", 0), ("lt", 1), ("eq", 0)):
                return Bool("", [(t_not(some),) * 2])
            return None
        if isinstance(x, Agg):
            inner, gone = x.inner
            r = self.compare(op, inner, y)
            if not isinstance(r, Bool):
                return None
            if op in ("lt", "le"):
                q = any if x.kind == "min" else all
            elif op in ("gt", "ge"):
                q = all if x.kind == "min" else any
            else:
                return None
            return self.qred(r, gone, x.axes, q)
        if isinstance(x, Ext):
            k = self.plain(y)
            if k is None or k < 0 or not hasattr(self.facts, "tiny"):
                return None
            cols = []
            for f in x.cols:
                row = []
                for w in (0, 1):
                    z = self.facts.tiny(f, w)
                    if k > 1e-2 and z is False:
                        z = None                        # a coarse threshold does not separate the two
                    if k == 0 and op in ("lt", "ge"):
                        z = False
                    row.append(z if op in ("lt", "le", "eq") else t_not(z))
                cols.append(tuple(row))
            return Bool(x.axes, cols)
        return None

    def near(self, x, y):
        if not (isinstance(x, Num) and isinstance(y, Num)) or not hasattr(self.facts, "tiny"):
            return None
        d = self.zip(x, y, lambda p, q: comb(p, q, -1.0))
        return Bool(d.axes, [tuple(self.facts.tiny(f, w) for w in (0, 1)) for f in d.cols]) if d is not None else None

    def plain(self, y):
        if isinstance(y, Num) and not y.axes and set(y.cols[0]) <= {"c"}:
            return y.cols[0].get("c", 0)
        return None

    def index(self, v, idx, keep=False):
        if not isinstance(v, (Num, Bool)):
            return None
        axes, cols = list(v.axes), list(v.cols)
        out, i = [], 0
        idx = list(idx)
        if any(self.kind(x) == "..." for x in idx):
            j = [self.kind(x) for x in idx].index("...")
            real = len([x for x in idx if self.kind(x) not in ("...", "new")])
            idx[j:j + 1] = [":"] * (len(axes) - real)
        for x in idx:
            k = self.kind(x)
            if k == "new":
                out.append("1")
                continue
            if i >= len(axes):
                return None
            a = axes[i]
            i += 1
            if k == ":":
                out.append(a)
            elif a == "C":
                if isinstance(k, slice):
                    cols = cols[k]
                    out.append("C")
                    if not cols:
                        return None
                elif isinstance(k, int):
                    if not -len(cols) <= k < len(cols):
                        return None
                    cols = [cols[k]]
                    if keep:
                        out.append("1")
                else:
                    return None
            elif a == "1" and isinstance(k, int):
                pass
            elif a == "I" and k == "it":
                pass                     # every item in turn: the generic row
            elif a == "I" and isinstance(k, slice) and k.start is None and k.stop is None:
                out.append(a)
            else:
                return None
        out += axes[i:]
        return type(v)(out, cols)

    def kind(self, x):
        if isinstance(x, tm.T):
            if x.op == "const":
                x = x.args[0]
            elif x.op == "slice":
                q = []
                for y in x.args:
                    if isinstance(y, tm.T):
                        if y.op != "const":
                            return None
                        y = y.args[0]
                    q.append(y)
                return slice(*q)
            elif x.op == "sym" and x.args and x.args[0] in ("it", "k", "comp"):
                return "it"
            else:
                return None
        if isinstance(x, bool):
            return None
        if x is None or x == "new":
            return "new"
        if x in (":", "..."):
            return x
        return int(x) if isinstance(x, (int, float)) and int(x) == x else None
