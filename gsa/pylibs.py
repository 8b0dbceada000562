"""Model of scipy's callback takers and distributions, random generators,
process pools and shared memory."""
import ast
from . import terms as tm
from .terms import mk, const, sym
from .values import (F, cF, V, Sc, Arr, Tup, Ref, Fn, Ext, Meth, Mod, Cls, Partial, Prim, It, U, Unk,
                     ArrC, ListC, DictC, ObjC, RngC, ResC, vsame, TOP, INF, EMPTY)
from . import facts as fx
from . import npmodel as np_
from .npmodel import A, isnone, constof
from . import pymodel as P

__all__ = ["rng_ctor", "rng_meth", "res_meth", "res_attr", "stats_call", "prim_meth", "enter", "exit", "releases", "collected"]
NONE = Sc(cF(None))
DEAD = Unk(F(sym("dead")))


# -------------------------------------------------------------- random numbers
def seed_facts(I, v, node):
    if v is None or isnone(v):
        return F(mk("entropy", const(node._id), const(I.ctx)), TOP, "?", frozenset(["entropy"]))
    if isinstance(v, U):
        f = None
        for x in v.vals:
            g = seed_facts(I, x, node)
            f = g if f is None else I._mix(f, g)
        return f
    return I.facts(v)


def newrng(I, kind, sf, node):
    f = F(mk("rng", sf.term), TOP, "?", sf.deps | {"rng"}, None, None, sf.bad, sf.trial)
    r = Ref(I.alloc(node, RngC(kind, f), "rng:" + kind))
    I.ev("rngnew", node, key=kind, what=kind, seed=sf, loopidx=tuple(I.loopidx), loc=r.loc)
    return r


def rng_ctor(I, name, args, kw, node):
    if name in ("default_rng", "Generator", "RandomState", "PCG64", "MT19937", "Philox", "SFC64", "PCG64DXSM", "SeedSequence"):
        v = A(args, kw, 0, "seed") or kw.get("entropy") or kw.get("bit_generator")
        if name in ("default_rng", "Generator") and isinstance(v, Ref) and isinstance(I.c(v.loc), RngC) and I.c(v.loc).kind != "SeedSequence":
            c = I.c(v.loc)
            if c.kind in ("Generator", "RandomState"):
                return v
            return v if c.kind == "Generator" else newrng_shared(I, v, c, node)
        if isinstance(v, Tup) or isinstance(v, Ref):
            sf = I.facts(v)
        else:
            sf = seed_facts(I, v, node)
        return newrng(I, {"default_rng": "Generator"}.get(name, name), sf, node)
    return None


def newrng_shared(I, v, c, node):
    r = Ref(I.alloc(node, RngC("Generator", c.f), "rng:wrap"))
    I.ev("rngnew", node, key="wrap", what="Generator", seed=c.f, loopidx=tuple(I.loopidx), loc=r.loc)
    return r


def sized(I, size, node, f, tag):
    if size is None or isnone(size):
        return Sc(f)
    sh = np_.shape_of(I, size)
    f = f.w(deps=f.deps | I.facts(size).deps)
    if sh is None:
        return Unk(f)
    return I.arr(node, sh, f, tag) if sh != () else Sc(f)


def rng_meth(I, recv, c, name, args, kw, node):
    if name == "spawn" or name == "jumped":
        n = args[0] if args else kw.get("n_children") or Sc(cF(1))
        nf = I.facts(n)
        ccount = c.draws
        I.heap[recv.loc] = RngC(c.kind, c.f.w(term=mk("adv", c.f.term, const(node._id))), c.draws)
        base = c.f

        def child(i):
            f = F(mk("spawn", base.term, i.f.term), TOP, "?", base.deps | i.f.deps)
            if c.kind == "SeedSequence":
                return Prim("seed", f=f, skind="SeedSequence")
            return Ref(I.alloc(node, RngC(c.kind, f), "spawn" + (str(constof(i)) if constof(i) is not None else "")))
        I.ev("spawn", node, key=recv.loc, loc=recv.loc, n=nf)
        k = tm.num_const(nf.term)
        if k is not None and 0 <= k <= 16:
            return It([child(Sc(cF(j))) for j in range(int(k))])
        return It(None, child, nf.term, nf.deps | base.deps)
    if name in ("generate_state",):
        return I.arr(node, (I.facts(args[0]).term,), F(mk("genstate", c.f.term), (0, INF), "i", c.f.deps), "gs")
    if name in ("get_state", "__getstate__"):
        I.ev("rngstate", node, key=name, loc=recv.loc, how="get")
        return Unk(F(mk("rngstate", c.f.term), deps=c.f.deps))
    if name in ("set_state", "seed", "__setstate__"):
        I.ev("rngstate", node, key=name, loc=recv.loc, how="set")
        I.heap[recv.loc] = RngC(c.kind, seed_facts(I, args[0] if args else None, node))
        return NONE
    deps = c.f.deps
    for v in list(args) + list(kw.values()):
        deps |= I.facts(v).deps
    t = mk("draw", const(node._id), const(I.ctx), const(str(I.unroll)), c.f.term)
    size = kw.get("size")
    itv, dt = TOP, "f"
    pos = list(args)
    if name in ("random", "random_sample", "rand", "standard_normal", "standard_exponential", "standard_cauchy", "randn", "standard_gamma", "standard_t"):
        itv = (0, 1) if name in ("random", "random_sample", "rand") else (0, INF) if "exponential" in name or "gamma" in name else TOP
        if name in ("rand", "randn"):
            size = Tup(pos) if pos else None
        elif size is None and pos:
            size = pos[0] if name not in ("standard_gamma", "standard_t") else (pos[1] if len(pos) > 1 else None)
    elif name == "uniform":
        lo = A(pos, kw, 0, "low") or Sc(cF(0.0))
        hi = A(pos, kw, 1, "high") or Sc(cF(1.0))
        itv = (I.facts(lo).itv[0], I.facts(hi).itv[1])
        size = A(pos, kw, 2, "size")
    elif name in ("integers", "randint"):
        lo, hi = A(pos, kw, 0, "low"), A(pos, kw, 1, "high")
        if hi is None or isnone(hi):
            lo, hi = Sc(cF(0)), lo
        e = P.constof(kw.get("endpoint")) if kw.get("endpoint") is not None else False
        itv = (I.facts(lo).itv[0], I.facts(hi).itv[1] - (0 if e else 1))
        dt = "i"
        size = A(pos, kw, 2, "size")
    elif name in ("choice", "permutation", "permuted", "shuffle"):
        a = pos[0] if pos else kw.get("a") or kw.get("x")
        af = I.facts(a)
        if name == "shuffle":
            if isinstance(a, (Arr, Ref)):
                np_.FUNCS["numpy.random.shuffle"] and np_.inplace("shuffle")(I, [a], {}, node) if isinstance(a, Arr) else I.touch(a, node, "shuffle")
            I.ev("draw", node, key=(recv.loc, name), loc=recv.loc, method=name, rng=c.f, a=af, args=args, kw=kw)
            adv(I, recv, c, node, c.f)
            return NONE
        ash = I.rd(a)[0]
        if ash == ():
            itv, dt = (0, af.itv[1] - 1), "i"
            res = F(t, itv, dt, deps)
            ash = (af.term,)
        else:
            res = F(t, af.itv, af.dt, deps, "MIX" if af.pl is not None else None, {s: (mk("drawn", w[0]), w[1]) for s, w in ()},
                    af.bad | frozenset(("contrib", "a random selection of missing responses") for _ in af.miss), af.trial, EMPTY)
        if name == "choice":
            size = A(pos, kw, 1, "size")
            rep = A(pos, kw, 2, "replace")
            repc = True if rep is None else constof(rep)
        else:
            size, repc = None, False
        I.ev("draw", node, key=(recv.loc, name), loc=recv.loc, method=name, rng=c.f, a=af, replace=repc, p=kw.get("p"), shuffle=None,
             size=I.facts(size) if size is not None else None, args=args, kw=kw, res=t)
        adv(I, recv, c, node, c.f)
        if name == "choice":
            return sized(I, size, node, res, "choice")
        return I.arr(node, ash, res, "perm")
    elif name in ("normal", "lognormal", "gamma", "beta", "exponential", "poisson", "binomial", "laplace", "logistic", "rayleigh", "weibull",
                  "triangular", "chisquare", "geometric", "gumbel", "vonmises", "pareto", "power", "wald"):
        k = {"exponential": 1, "poisson": 1, "rayleigh": 1, "weibull": 1, "chisquare": 1, "geometric": 1, "pareto": 1, "power": 1, "triangular": 3}.get(name, 2)
        size = A(pos, kw, k, "size")
        if name not in ("normal", "laplace", "logistic", "gumbel", "vonmises"):
            itv = (0, INF)
        if name == "beta":
            itv = (0, 1)
        if name in ("poisson", "binomial", "geometric"):
            dt = "i"
        if name == "binomial":
            itv = (0, I.facts(pos[0]).itv[1] if pos else INF)
        if size is None or isnone(size):
            shs = [I.rd(v)[0] for v in pos[:k]]
            sh = ()
            for s in shs:
                if s:
                    sh = s
            I.ev("draw", node, key=(recv.loc, name), loc=recv.loc, method=name, rng=c.f, args=args, kw=kw, res=t)
            adv(I, recv, c, node, c.f)
            f = F(t, itv, dt, deps)
            return I.arr(node, sh, f, "draw") if sh else Sc(f)
    elif name in ("multivariate_normal", "dirichlet", "multinomial"):
        size = A(pos, kw, {"dirichlet": 1}.get(name, 2), "size")
        m = pos[1] if name == "multinomial" and len(pos) > 1 else pos[0] if pos else kw.get("mean")
        d = I.rd(m)[0]
        sh0 = np_.shape_of(I, size) if size is not None and not isnone(size) else ()
        I.ev("draw", node, key=(recv.loc, name), loc=recv.loc, method=name, rng=c.f, args=args, kw=kw, res=t)
        adv(I, recv, c, node, c.f)
        f = F(t, TOP if name[0] == "m" and name[5] == "v" else (0, INF), "f" if name != "multinomial" else "i", deps)
        if d is None or sh0 is None:
            return Unk(f)
        return I.arr(node, tuple(sh0) + tuple(d), f, "draw")
    else:
        I.unm("generator method " + name, node)
        size = kw.get("size")
    I.ev("draw", node, key=(recv.loc, name), loc=recv.loc, method=name, rng=c.f, args=args, kw=kw, res=t, size=I.facts(size) if size is not None else None)
    adv(I, recv, c, node, c.f)
    return sized(I, size, node, F(t, itv, dt, deps), "draw")


def adv(I, recv, c, node, f):
    I.touch(recv, node, "the generator advances")
    I.heap[recv.loc] = RngC(c.kind, f.w(term=mk("adv", f.term, const(node._id))), c.draws + 1)


# -------------------------------------------------------------- distributions
DIST_ITV = {"pdf": (0, INF), "cdf": (0, 1), "sf": (0, 1), "logpdf": TOP, "logcdf": (-INF, 0), "logsf": (-INF, 0), "ppf": TOP, "isf": TOP,
            "pmf": (0, 1), "logpmf": (-INF, 0)}
SUPPORT = {"rayleigh": (0, INF), "lognorm": (0, INF), "expon": (0, INF), "gamma": (0, INF), "chi2": (0, INF), "beta": (0, 1), "halfnorm": (0, INF),
           "weibull_min": (0, INF), "invgamma": (0, INF), "f": (0, INF)}


def dist_method(I, dist, frozen, meth, args, kw, node):
    if meth in DIST_ITV:
        itv = DIST_ITV[meth]
        if meth in ("ppf", "isf") and dist in SUPPORT and not any(k in kw for k in ("loc",)) and len(args) <= 1 and not frozen:
            itv = SUPPORT[dist]
        kwv = [kw[k] for k in sorted(kw)]
        vals = list(args) + list(frozen) + kwv
        vals = [v if isinstance(v, (Sc, Arr)) else P.toarr(I, v, node) for v in vals]
        if dist.startswith("multivariate"):
            sh, f0 = I.rd(args[0])
            f = I._unkf(dist + "." + meth, vals, node).w(itv=itv, dt="f")
            return I.arr(node, sh[:-1], f, "dist") if sh is not None and len(sh) else Unk(f)
        return np_.fn(I, f"{dist}.{meth}", vals, node, itv=itv, dt="f")
    if meth == "rvs":
        rs = kw.get("random_state")
        size = kw.get("size")
        if rs is None and not (frozen and isinstance(frozen[-1], Prim) and frozen[-1].kind == "frozenrs"):
            I.ev("rng", node, key=dist, what=f"scipy.stats.{dist}.rvs without random_state uses the global generator", kind_="global")
            f = I._unkf("rvs", [v for v in list(args) + list(frozen)], node)
            f = f.w(deps=f.deps | {"globalrng"}, itv=SUPPORT.get(dist, TOP), dt="f")
            return sized(I, size, node, f, "rvs")
        if isinstance(rs, Ref) and isinstance(I.c(rs.loc), RngC):
            c = I.c(rs.loc)
            r = rs
        else:
            r = newrng(I, "RandomState", seed_facts(I, rs, node), node)
            c = I.c(r.loc)
        t = mk("draw", const(node._id), const(I.ctx), const(str(I.unroll)), c.f.term)
        deps = c.f.deps
        for v in list(args) + list(frozen):
            deps |= I.facts(v).deps
        I.ev("draw", node, key=(r.loc, "rvs"), loc=r.loc, method="rvs", rng=c.f, args=args, kw=kw, res=t)
        adv(I, r, c, node, c.f)
        itv = SUPPORT.get(dist, TOP)
        if any(k in kw for k in ("loc",)) or len(args) > 1:
            itv = TOP
        if dist == "uniform":
            lo = A(args, kw, 0, "loc") or Sc(cF(0.0))
            sc = A(args, kw, 1, "scale") or Sc(cF(1.0))
            lf, sf = I.facts(lo).itv, I.facts(sc).itv
            itv = (lf[0], lf[1] + sf[1])
        if size is None:
            shs = [s for s in (I.rd(v)[0] for v in args) if s]
            f = F(t, itv, "f", deps)
            return I.arr(node, shs[0], f, "draw") if shs else Sc(f)
        return sized(I, size, node, F(t, itv, "f", deps), "draw")
    f = I._unkf(f"{dist}.{meth}", list(args) + list(frozen) + list(kw.values()), node)
    if meth in ("mean", "std", "var", "median", "entropy"):
        return Sc(f.w(dt="f", itv=(0, INF) if meth in ("std", "var") else TOP))
    if meth in ("interval", "stats", "support"):
        return Tup([Sc(f.w(term=mk("item", f.term, const(0)))), Sc(f.w(term=mk("item", f.term, const(1))))])
    return Unk(f)


def stats_call(I, name, args, kw, node):
    parts = name.split(".")
    if name in ("mvn.mvnun",):
        lo, up, mu, cov = (list(args) + [kw.get(k) for k in ("lower", "upper", "means", "covar")][len(args):])[:4]
        f = I._unkf("mvnun", [x for x in (lo, up, mu, cov) if x is not None], node).w(itv=(0, 1), dt="f")
        return Tup([Sc(f), Sc(F(mk("mvninform", f.term), (0, 2), "i", f.deps))])
    if len(parts) == 2:
        return dist_method(I, parts[0], [], parts[1], args, kw, node)
    if len(parts) == 1 and (name[0].islower()) and name not in ("zscore", "pearsonr", "spearmanr", "linregress", "rankdata", "kendalltau", "describe",
                                                                  "mode", "iqr", "gmean", "hmean", "trim_mean", "skew", "kurtosis", "sem", "entropy"):
        return Prim("rv", name=name, args=tuple(args) + tuple(kw[k] for k in sorted(kw)), f=mixall(I, list(args) + list(kw.values()), name))
    return None


def mixall(I, vs, name):
    return I._unkf("rv:" + name, vs, None)


def prim_meth(I, p, name, args, kw, node):
    k = p.kind
    if k == "rv":
        return dist_method(I, p.data["name"], list(p.data["args"]), name, args, kw, node)
    if k == "mpctx":
        return P.call_ext(I, "multiprocessing." + name, args, kw, node)
    if k == "future":
        if name in ("result", "get", "wait", "exception"):
            collected(I, p.data["pool"], p.data["at"], node)
            v = p.data["val"]
            if isinstance(v, It):
                v = It(v.items, v.elem, v.n, v.deps, "results")
            return v if name in ("result", "get") else NONE
        if name in ("done", "cancelled", "running", "ready", "successful"):
            return Sc(F(sym("fut", node._id), (0, 1), "b"))
        return NONE
    if k == "seed":
        if name == "spawn":
            r = Ref(I.alloc(node, RngC("SeedSequence", p.data["f"]), "seedspawn"))
            return rng_meth(I, r, I.c(r.loc), name, args, kw, node)
        if name == "generate_state":
            return I.arr(node, (I.facts(args[0]).term,), F(mk("genstate", p.data["f"].term), (0, INF), "i", p.data["f"].deps), "gs")
    if k == "dtype":
        if name == "newbyteorder":
            return p
    if k == "interp":
        if name in ("derivative", "antiderivative"):
            return Prim("interp", node=p.data["node"], ends=None, outside="extrapolate", ikind=p.data["ikind"], x=p.data["x"], y=p.data["y"].w(term=mk(name, p.data["y"].term)), itv=TOP)
        if name in ("integrate",):
            return Sc(I._unkf("interp.integrate", [p] + list(args), node).w(dt="f"))
    if k == "ma" and name in np_.METHODS:
        return np_.METHODS[name](I, [p] + list(args), kw, node)
    if k in ("usercall", "usermodel"):
        return Unk(I._unkf("." + name, [p] + list(args), node))
    if k in ("shmbuf",):
        return NONE if name == "release" else Unk(I._unkf("." + name, [p], node))
    if k == "vectorize" or k == "flags":
        return Unk(I._unkf("." + name, [p] + list(args), node))
    if k == "errstate" and name in ("__enter__", "__exit__"):
        return NONE
    I.unm(f"method .{name} of a {k}", node)
    return Unk(I._unkf("." + name, [p] + list(args) + list(kw.values()), node))


# ------------------------------------------------------------------ optimisers
def extra_args(I, v):
    if v is None or isnone(v):
        return []
    it = I.items_of(v)
    return it if it is not None else [v]


def callback_loop(I, fns, node, trial=True):
    """fns: list of (callable, args, kw).  Runs them to a fixpoint, as an optimiser
    would, and returns the values of the last round."""
    if trial:
        cb = {"site": node._id, "entry": set(I.heap), "fresh": set(), "touched": set()}
        I.cbs.append(cb)
    base = head = I.heap
    idt = sym("eval", node._id, I.ctx)
    I.pushloop(idt)
    outs = None
    for p in range(8):
        I.loopfresh[-1].clear()
        I.heap = dict(head)
        outs = []
        for fn, args, kw in fns:
            outs.append(I.call(fn, args, kw, node))
            if I.heap is None:
                break
        if I.heap is None:
            break
        end = I.heap
        new, changed = I.join_back(head, end, (node._id, I.ctx, "opt"), p, F(const(0)), base)
        if not changed:
            break
        head = new
    I.poploop()
    if trial:
        I.cbs.pop()
        I.ev("optimise", node, key=(), touched=set(cb["touched"]), fresh=set(cb["fresh"]), entry=cb["entry"])
    return outs


def optvar(I, node, shape, f0, itv):
    f = F(sym("optvar", node._id), itv, "f", f0.deps | {"optvar:%s" % node._id}, f0.pl if f0 is not None else None)
    if shape == ():
        return Sc(f)
    if shape is None:
        return Unk(f)
    return Arr(I.alloc(node, ArrC(shape, f), "optvar"))


def optresult(I, node, name, rf, more, shape, itv, tag="optres"):
    """the optimiser's answer: a function of the objective (in the trial point) and the bounds"""
    site = node._id
    ov = sym("optvar", site)
    deps = rf.deps
    pl = rf.pl
    bad = set()
    trial = {l for l in rf.trial if l[0] != site}
    terms = []
    for f in more:
        deps |= f.deps
        pl = fx.join_pl([pl, f.pl])
        bad |= f.bad
        trial |= {l for l in f.trial if l[0] != site}
        terms.append(f.term)
        for s, (t, ti) in f.miss.items():
            bad.add(("contrib", "the optimiser's start or bounds depend on missing responses"))
    root = name in ("brentq", "brenth", "brentr", "ridder", "bisect", "newton", "toms748", "root_scalar", "root", "fsolve")
    for l in rf.bad:
        if root and l[0] in ("offset", "frac"):
            bad.add(("contrib", str(l[1]) + ": the equation depends on missing responses"))
        elif l[0] in ("offset", "scale"):
            if isinstance(l[2], tm.T) and tm.contains(l[2], lambda u: u is ov):
                bad.add(("contrib", str(l[1]) + ": the objective depends on missing responses"))
            # an additive / multiplicative constant does not move the optimum
        elif l[0] not in fx.PARTS + ("frac",):
            bad.add(l)
    for s, (t, ti) in rf.miss.items():
        if tm.has_sent(t):
            bad.add(("sent", "the missing-response placeholder reaches an objective"))
        elif tm.contains(mk("sub", t, rf.term), lambda u: u is ov):
            bad.add(("contrib", "a missing response changes an objective"))
    deps = frozenset(d for d in deps if d != "optvar:%s" % site) | {"optres:%s" % site}
    f = F(mk("optres", const(name), rf.term, *terms), itv, "f", deps, pl, None, frozenset(bad), frozenset(trial))
    if shape == ():
        return Sc(f)
    if shape is None:
        return Unk(f)
    return Arr(I.alloc(node, ArrC(shape, f), tag))


def reg(*names):
    def g(f):
        for n in names:
            P_FUNCS[n] = f
        return f
    return g


P_FUNCS = {}


def scalar_opt(name):
    """fminbound(func, x1, x2, args), brentq(f, a, b, args), ..."""
    def g(I, args, kw, node):
        fn = args[0] if args else kw.get("func") or kw.get("f") or kw.get("fun")
        lo = A(args, kw, 1, "x1") or kw.get("a")
        hi = A(args, kw, 2, "x2") or kw.get("b")
        ex = A(args, kw, 3, "args")
        if name in ("minimize_scalar",):
            b = kw.get("bounds")
            it = I.items_of(b) if b is not None and not isnone(b) else None
            lo, hi = (it[0], it[1]) if it and len(it) == 2 else (None, None)
            ex = A(args, kw, 3, "args")
        if name in ("brent", "golden"):
            lo = hi = None
            ex = A(args, kw, 1, "args")
        lf = I.facts(lo) if lo is not None and not isnone(lo) else None
        hf = I.facts(hi) if hi is not None and not isnone(hi) else None
        if name in ("newton",):
            itv = TOP
        else:
            itv = (lf.itv[0] if lf is not None else -INF, hf.itv[1] if hf is not None else INF)
        f0 = F(const(0), deps=(lf.deps if lf else EMPTY) | (hf.deps if hf else EMPTY), pl=fx.join_pl([x.pl for x in (lf, hf) if x is not None]))
        outs = callback_loop(I, [(fn, [optvar(I, node, (), f0, itv)] + extra_args(I, ex), {})], node)
        if I.heap is None:
            return DEAD
        rf = I.facts(outs[0])
        I.ev("optcall", node, key=name, name=name, objective=rf, lo=lf, hi=hf, shape=I.rd(outs[0])[0])
        r = optresult(I, node, name, rf, [f for f in (lf, hf) if f is not None], (), itv)
        if name == "minimize_scalar":
            return Prim("optresult", x=r, fun=Sc(rf.w(term=mk("optval", r.f.term), deps=r.f.deps, bad=r.f.bad, trial=r.f.trial, miss={})), f=r.f)
        fo = kw.get("full_output")
        if fo is not None and constof(fo) is True:
            return Tup([r, Sc(r.f.w(term=mk("optval", r.f.term), itv=TOP)), Sc(F(sym("ierr", node._id), TOP, "i", r.f.deps)), Sc(F(sym("nfun", node._id), TOP, "i", r.f.deps))])
        return r
    return g


for _n in ("fminbound", "brentq", "brenth", "ridder", "bisect", "brent", "golden", "minimize_scalar", "newton", "toms748", "root_scalar"):
    P_FUNCS["scipy.optimize." + _n] = scalar_opt(_n)


def bounds_itv(I, b, node):
    """interval of all components from a bounds argument"""
    if b is None or isnone(b):
        return TOP, []
    it = P.iterate(I, b, node)
    if I.heap is None:
        return TOP, []
    if it.items is not None:
        es = it.items
    else:
        e = P.elem(I, it, P.KIDX)
        es = [e] if e is not None else []
    lo, hi = INF, -INF
    fs = [I.facts(b)]
    for e in es:
        p = I.items_of(e)
        if p is None or len(p) != 2:
            s, f = I.rd(e)
            return f.itv if f.itv != TOP else TOP, fs
        for x, w in ((p[0], 0), (p[1], 1)):
            f = I.facts(x)
            if isnone(x):
                f = F(const(0), TOP)
            lo, hi = min(lo, f.itv[0]), max(hi, f.itv[1])
    if lo > hi:
        return TOP, fs
    return (lo, hi), fs


def settings(I, kw):
    """every setting handed to a minimiser (flattened keyword values)"""
    out = []
    for k, v in kw.items():
        if isinstance(v, Ref) and isinstance(I.c(v.loc), DictC):
            out += [x for x in I.c(v.loc).keys.values()]
        else:
            out.append(v)
    return [v for v in out if isinstance(v, Sc)]


def vector_opt(name, x0pos, argspos, cbnames=("f_eqcons", "f_ieqcons", "fprime", "jac", "hess")):
    def g(I, args, kw, node):
        fn = args[0] if args else kw.get("func") or kw.get("fun")
        x0 = A(args, kw, x0pos, "x0")
        ex = A(args, kw, argspos, "args") if argspos is not None else kw.get("args")
        bnds = kw.get("bounds")
        mkw = kw.get("minimizer_kwargs")
        if mkw is not None and isinstance(mkw, Ref) and isinstance(I.c(mkw.loc), DictC):
            ks = I.c(mkw.loc).keys
            ex = ks.get("args", ex)
            bnds = ks.get("bounds", bnds)
        if name in ("basinhopping", "dual_annealing", "differential_evolution"):
            rs = kw.get("seed") if kw.get("seed") is not None else kw.get("random_state")
            if rs is None or isnone(rs):
                I.ev("rng", node, key=name, what=f"scipy.optimize.{name} without a seed uses the global generator", kind_="global")
            elif isinstance(rs, Ref) and isinstance(I.c(rs.loc), RngC):
                c = I.c(rs.loc)
                I.ev("draw", node, key=(rs.loc, name), loc=rs.loc, method=name, rng=c.f, args=args, kw=kw, res=None)
                adv(I, rs, c, node, c.f)
            else:
                newrng(I, "RandomState", seed_facts(I, rs, node), node)
        itv, bf = bounds_itv(I, bnds, node)
        sh, xf = I.rd(x0) if x0 is not None else (None, F(const(0)))
        if sh == ():
            sh = (const(1),) if name not in ("fixed_point", "fsolve") else ()
        f0 = F(const(0), deps=xf.deps, pl=xf.pl)
        ov = optvar(I, node, sh, f0, itv)
        ea = extra_args(I, ex)
        fns = [(fn, [ov] + ea, {})]
        for cn in cbnames:
            c = kw.get(cn)
            if c is not None and not isnone(c) and isinstance(c, (Fn, Partial, Meth, Ref)):
                fns.append((c, [ov] + ea, {}))
        cons = kw.get("constraints")
        if cons is not None and not isnone(cons):
            for d in (I.items_of(cons) or []) if not (isinstance(cons, Ref) and isinstance(I.c(cons.loc), DictC)) else [cons]:
                c = I.c(d.loc) if isinstance(d, Ref) else None
                if isinstance(c, DictC) and "fun" in c.keys:
                    fns.append((c.keys["fun"], [ov] + (extra_args(I, c.keys.get("args"))), {}))
        outs = callback_loop(I, fns, node)
        if I.heap is None:
            return DEAD
        r0 = outs[0]
        if kw.get("jac") is not None and constof(kw["jac"]) is True and isinstance(r0, Tup):
            r0 = r0.items[0]
        rf = I.facts(r0)
        rsh = I.rd(r0)[0]
        if rsh:
            rf = fx.reduce_("sum", rsh, rf, None, site="objective")[1] if name not in ("fixed_point", "fsolve", "root", "least_squares", "leastsq") else rf
        I.ev("optcall", node, key=name, name=name, objective=rf, lo=None, hi=None, shape=rsh, x0=xf, xshape=sh, args=settings(I, kw))
        more = [xf.w(miss={})] + [f.w(miss={}) for f in bf]
        if name == "fixed_point":
            itv = rf.itv
            r = optresult(I, node, name, rf, more, rsh if rsh is not None else sh, itv)
            return r
        r = optresult(I, node, name, rf, more, sh, itv)
        f = I.facts(r)
        if name in ("minimize", "basinhopping", "dual_annealing", "differential_evolution", "root", "least_squares", "shgo"):
            return Prim("optresult", x=r, fun=Sc(f.w(term=mk("optval", f.term), itv=rf.itv)), f=f)
        fo = kw.get("full_output")
        if fo is not None and constof(fo) not in (False, 0, None):
            return Tup([r, Sc(f.w(term=mk("optval", f.term), itv=rf.itv))] + [Sc(F(sym("optout", node._id, j), TOP, "?", f.deps)) for j in range(3)])
        return r
    return g


for _n, _x, _a in (("fmin_slsqp", 1, None), ("minimize", 1, 2), ("basinhopping", 1, None), ("fixed_point", 1, 2), ("fmin", 1, 2), ("fmin_bfgs", 1, 3),
                   ("fmin_powell", 1, 2), ("fmin_cg", 1, 3), ("fsolve", 1, 2), ("root", 1, 2), ("least_squares", 1, None), ("fmin_l_bfgs_b", 1, 3),
                   ("leastsq", 1, 2), ("fmin_tnc", 1, 3), ("fmin_cobyla", 1, None)):
    P_FUNCS["scipy.optimize." + _n] = vector_opt(_n, _x, _a)


@reg("scipy.integrate.fixed_quad")
def fixed_quad(I, args, kw, node):
    fn = args[0]
    a, b = A(args, kw, 1, "a"), A(args, kw, 2, "b")
    ex = A(args, kw, 3, "args")
    n = A(args, kw, 4, "n") or Sc(cF(5))
    af, bf, nf = I.facts(a), I.facts(b), I.facts(n)
    x = I.arr(node, (nf.term,), F(mk("quadpts", af.term, bf.term, nf.term), (af.itv[0], bf.itv[1]), "f", af.deps | bf.deps | nf.deps), "quadx")
    r = I.call(fn, [x] + extra_args(I, ex), {}, node)
    if I.heap is None:
        return DEAD
    r = r if isinstance(r, (Arr, Sc)) else P.toarr(I, r, node)
    sh, f = I.rd(r)
    w = F(mk("quadw", af.term, bf.term, nf.term), (0, INF), "f", af.deps | bf.deps | nf.deps)
    I.ev("quad", node, key=(), args=(af, bf, nf), f=f, shape=sh)
    if sh is None:
        return Tup([Unk(f.w(term=mk("quad", f.term, af.term, bf.term, nf.term))), NONE])
    if sh == ():
        return Tup([Sc(f.w(term=mk("mul", f.term, mk("sub", bf.term, af.term)), itv=(0, INF) if f.itv[0] >= 0 else TOP)), NONE])
    pr = I.np.ew(I, "mul", [r, I.arr(node, (nf.term,), w, "quadw")], node)
    s = np_.FUNCS["numpy.sum"](I, [pr, Sc(cF(-1))], {}, node)
    return Tup([s, NONE])


@reg("scipy.integrate.quad", "scipy.integrate.dblquad", "scipy.integrate.romberg")
def quad(I, args, kw, node):
    fn = args[0]
    a, b = A(args, kw, 1, "a"), A(args, kw, 2, "b")
    af, bf = I.facts(a), I.facts(b)
    x = Sc(F(sym("quadvar", node._id), (af.itv[0], bf.itv[1]), "f", af.deps | bf.deps))
    outs = callback_loop(I, [(fn, [x] + extra_args(I, A(args, kw, 3, "args")), {})], node, trial=False)
    if I.heap is None:
        return DEAD
    f = I.facts(outs[0])
    r = F(mk("quad", f.term, af.term, bf.term), (0, INF) if f.itv[0] >= 0 else TOP, "f", f.deps | af.deps | bf.deps, f.pl,
          {s: (mk("quad", w[0], af.term, bf.term), TOP) for s, w in f.miss.items()}, f.bad, f.trial)
    return Tup([Sc(r), Sc(F(sym("quaderr", node._id), (0, INF), "f", f.deps))])


@reg("scipy.interpolate.interp1d", "scipy.interpolate.CubicSpline", "scipy.interpolate.PchipInterpolator", "scipy.interpolate.make_interp_spline",
     "scipy.interpolate.UnivariateSpline", "scipy.interpolate.Akima1DInterpolator", "scipy.interpolate.InterpolatedUnivariateSpline")
def interp1d(I, args, kw, node):
    x, y = A(args, kw, 0, "x"), A(args, kw, 1, "y")
    xf, yf = I.facts(x), I.facts(y)
    kind = constof(A(args, kw, 2, "kind")) if A(args, kw, 2, "kind") is not None else "linear"
    lin = isinstance(node, ast.Call) and "interp1d" in ast.unparse(node.func) and kind in ("linear", "nearest", "zero")
    fv, be = kw.get("fill_value"), kw.get("bounds_error")
    ends = None
    if isinstance(fv, Tup) and len(fv.items) == 2:
        ends = tuple(I.facts(q).term for q in fv.items)
    elif fv is not None and not isnone(fv) and constof(fv) != "extrapolate":
        ends = (I.facts(fv).term,) * 2
    outside = "extrapolate" if fv is not None and constof(fv) == "extrapolate" else "fill" if ends else "raise" if be is None or isnone(be) or constof(be) else "nan"
    I.ev("interp", node, key=(), x=xf, y=yf, ikind=kind, ends=ends, outside=outside)
    def flat(f):
        return f.w(pl="MIX" if f.pl is not None else None, miss={}, props=EMPTY,
                   bad=f.bad | frozenset(("contrib", "an interpolation table built from missing responses") for _ in f.miss))
    return Prim("interp", node=node, ends=ends, outside=outside, ikind=kind, x=flat(xf), y=flat(yf), itv=yf.itv if lin and (fv is None or constof(fv) != "extrapolate") else TOP)


@reg("scipy.special.roots_legendre", "numpy.polynomial.legendre.leggauss", "scipy.special.p_roots", "scipy.special.roots_hermite", "numpy.polynomial.hermite.hermgauss",
     "scipy.special.roots_hermitenorm")
def roots(I, args, kw, node):
    n = I.facts(A(args, kw, 0, "n") or kw.get("deg"))
    nm = ast.unparse(node.func).split(".")[-1] if isinstance(node, ast.Call) else "leg"
    b = (-1, 1) if "leg" in nm or nm == "p_roots" else TOP
    fam = "leg" if b == (-1, 1) else nm
    x = F(mk("qroots", const(fam), n.term), b, "f", n.deps)
    w = F(mk("qweights", const(fam), n.term), (0, 2) if fam == "leg" else (0, INF), "f", n.deps)
    return Tup([I.arr(node, (n.term,), x, "qx"), I.arr(node, (n.term,), w, "qw")])


@reg("numpy.piecewise")
def piecewise(I, args, kw, node):
    x = np_.tonum(I, args[0], node)
    cs, fs = I.items_of(args[1]), I.items_of(args[2])
    vals = [I.call(f, [x], {}, node) if isinstance(f, (Fn, Partial)) else f for f in fs or []]
    if not cs or len(vals) not in (len(cs), len(cs) + 1):
        return np_.fn(I, "piecewise", [x] + vals, node)
    r = vals[len(cs)] if len(vals) > len(cs) else Sc(np_.cF(0))
    for c, v in zip(cs, vals):                     # the last condition that holds decides
        r = np_.ew(I, "where", [np_.tonum(I, y, node) for y in (c, v, r)], node)
    sh, f = I.rd(r)                                # stored in the type of x
    dt = I.facts(x).dt
    np_.note_cast(I, node, f, dt)
    return np_.mkfresh(I, node, sh, f.w(dt=dt), "piecewise")


# ------------------------------------------------------- processes and threads
POOLS = {"multiprocessing.Pool": "process", "multiprocessing.pool.Pool": "process", "concurrent.futures.ProcessPoolExecutor": "process",
         "multiprocessing.pool.ThreadPool": "thread", "concurrent.futures.ThreadPoolExecutor": "thread", "multiprocessing.dummy.Pool": "thread",
         "concurrent.futures.process.ProcessPoolExecutor": "process", "concurrent.futures.thread.ThreadPoolExecutor": "thread"}


def opened(I, kind, attrs, node):
    r = Ref(I.alloc(node, ResC(kind, "open", attrs), "res:" + kind))
    I.ev("resopen", node, key=kind, loc=r.loc, what=kind, proc=I.procdepth)
    if kind != "catch_warnings":
        if r.loc not in I.openres:
            I.openres.append(r.loc)
        log(I, "open", r.loc, node, kind, attrs)
    return r


def log(I, what, loc, node, *more):
    I.reslog.append((what, loc, node, *more, I.procdepth))


RELEASING = {"close", "shutdown", "terminate", "unlink", "join", "__exit__", "__enter__", "kill"}


def releases(I, fn):
    """calls that are part of acquiring or releasing a resource"""
    if isinstance(fn, Meth):
        return fn.name in RELEASING or fn.name in ("enter_context", "push", "callback") and isinstance(fn.recv, Ref)
    if isinstance(fn, Ext):
        return fn.name in ("contextlib.closing", "contextlib.nullcontext")
    return isinstance(fn, Fn)                      # what its body does is looked at there


def mkpool(full):
    def g(I, args, kw, node):
        r = opened(I, "pool:" + POOLS[full], {"n": Unk(mix_args(I, args, kw)), "waits": Sc(cF("Executor" in full))}, node)
        ini = kw.get("initializer")
        if ini is not None and not isnone(ini):
            ia = kw.get("initargs")
            I.ev("dispatch", node, key="initializer", process=POOLS[full] == "process", fn=ini, its=[], elems=I.items_of(ia) or [] if ia is not None else [], name="initializer",
                 star=False, pool=r.loc)
        return r
    return g


def mix_args(I, args, kw):
    f = F(sym("args"))
    for v in list(args) + list(kw.values()):
        f = I._mix(f, I.facts(v))
    return f


for _k in POOLS:
    P_FUNCS[_k] = mkpool(_k)
P_FUNCS["multiprocessing.get_context"] = lambda I, args, kw, node: Prim("mpctx", method=args[0] if args else NONE)
P_FUNCS["multiprocessing.managers.SharedMemoryManager"] = lambda I, args, kw, node: opened(I, "smm", {}, node)
P_FUNCS["multiprocessing.cpu_count"] = lambda I, args, kw, node: Sc(F(sym("cpu_count"), (1, INF), "i", frozenset(["cpu"])))
P_FUNCS["os.cpu_count"] = P_FUNCS["multiprocessing.cpu_count"]
P_FUNCS["warnings.catch_warnings"] = lambda I, args, kw, node: opened(I, "catch_warnings", {}, node)
P_FUNCS["contextlib.nullcontext"] = lambda I, args, kw, node: Prim("nullctx", v=args[0] if args else NONE)
P_FUNCS["contextlib.closing"] = lambda I, args, kw, node: Prim("closing", v=args[0])
P_FUNCS["contextlib.suppress"] = lambda I, args, kw, node: Prim("errstate")


@reg("multiprocessing.shared_memory.SharedMemory")
def sharedmemory(I, args, kw, node):
    nm = A(args, kw, 0, "name")
    return newshm(I, nm, node, managed=False, create=kw.get("create"))


def newshm(I, nm, node, managed, create=None, owner=None):
    if nm is None or isnone(nm):
        nm = Sc(F(sym("shmname", node._id, I.ctx), TOP, "U"))
    return opened(I, "shm", {"name": nm, "managed": Sc(cF(managed)), "created": Sc(cF(managed or (create is not None and constof(create) is True))), "owner": owner or NONE}, node)


def res_attr(I, o, c, name, node):
    if c.state == "closed" and name in ("buf", "map", "submit", "starmap"):
        I.ev("resuse", node, key=name, loc=o.loc, what=f".{name} of a closed {c.kind}")
    if c.kind == "shm":
        if name == "name":
            return c.attrs["name"]
        if name == "buf":
            return Prim("shmbuf", name=str(I.facts(c.attrs["name"]).term), res=o.loc)
        if name == "size":
            return Sc(F(mk("shmsize", I.facts(c.attrs["name"]).term), (0, INF), "i"))
    return Meth(o, name)


def res_meth(I, r, c, name, args, kw, node):
    if name in ("__enter__",):
        return enter(I, r, node)
    if name in ("__exit__", "close", "shutdown", "terminate", "unlink"):
        w = kw.get("wait", args[0] if args else None)
        close(I, r, c, node, "nowait" if name == "shutdown" and w is not None and constof(w) is False else name)
        return NONE
    if name in ("join", "start", "connect"):
        return NONE
    if c.kind == "exitstack":
        what = None
        if name == "enter_context" and args:
            v = I.call(Meth(args[0], "__enter__"), [], {}, node) if False else enter(I, args[0], node)
            what, out = ("exit", args[0]), v
        elif name == "push" and args:
            what, out = ("exit", args[0]), args[0]
        elif name == "callback" and args:
            what, out = ("call", args[0], list(args[1:]), dict(kw)), args[0]
        elif name == "pop_all":
            return r
        if what is not None and I.heap is not None:
            I.heap[r.loc] = ResC(c.kind, c.state, {**c.attrs, "closes": tuple(c.attrs.get("closes", ())) + (what,)})
            return out
    if c.state == "closed":
        I.ev("resuse", node, key=name, loc=r.loc, what=f".{name} of a closed {c.kind}")
    if c.kind == "smm" and name == "SharedMemory":
        return newshm(I, None, node, managed=True, owner=r)
    if c.kind.startswith("pool:"):
        return pool_meth(I, r, c, name, args, kw, node)
    I.unm(f"method .{name} of {c.kind}", node)
    return Unk(I._unkf("." + name, list(args), node))


def close(I, r, c, node, how):
    if c.kind == "exitstack":
        todo = c.attrs.get("closes", ())
        I.heap[r.loc] = ResC(c.kind, "closed", {**c.attrs, "closes": ()})
        for what in reversed(todo):
            if what[0] == "exit":
                exit(I, what[1], node)
            elif I.heap is not None:
                I.call(what[1], what[2], what[3], node)
        return
    if how == "unlink" and c.state != "closed":
        I.heap[r.loc] = ResC(c.kind, c.state, {**c.attrs, "unlinked": Sc(cF(True))})
    else:
        I.heap[r.loc] = ResC(c.kind, "closed", {**c.attrs, "how": Sc(cF(how)), "unlinked": Sc(cF(True)) if how == "unlink" else c.attrs.get("unlinked", NONE)})
    I.ev("resclose", node, key=(r.loc, how), loc=r.loc, how=how, proc=I.procdepth)
    if c.kind != "catch_warnings":
        log(I, "close", r.loc, node, how, tuple(I.fins))
    if c.kind == "shm" and how != "unlink":
        k = ("h", "shm", str(I.facts(c.attrs["name"]).term))
        a = I.heap.get(k)
        if isinstance(a, ArrC):
            I.heap[k] = ArrC(a.shape, a.f.w(bad=a.f.bad | {("closed", I.proj.where(node))}))
    if c.kind == "smm":
        for loc in list(I.openres):
            x = I.heap.get(loc)
            o = x.attrs.get("owner") if isinstance(x, ResC) and x.kind == "shm" else None
            if isinstance(o, Ref) and o.loc == r.loc:
                close(I, Ref(loc), x, node, "owner")


def enter(I, cm, node):
    if isinstance(cm, U):
        r = None
        for x in cm.vals:
            r = I.joinV(r, enter(I, x, node))
        return r
    if isinstance(cm, Ref):
        c = I.c(cm.loc)
        if isinstance(c, ResC):
            I.ev("resenter", node, key=cm.loc, loc=cm.loc)
            return cm
        if isinstance(c, ObjC):
            g = I.getattr_raw(cm, "__enter__", node)
            if g is not None:
                return I.call(g, [], {}, node)
    if isinstance(cm, Prim):
        if cm.kind in ("nullctx", "closing"):
            return cm.data["v"]
        return cm
    if isinstance(cm, It):                       # contextlib.contextmanager generators
        it = cm
        return P.elem(I, it, Sc(cF(0)))
    if isinstance(cm, Unk):
        return Unk(cm.f)
    return cm


def exit(I, cm, node):
    for x in I.alts(cm):
        if isinstance(x, Ref):
            c = I.c(x.loc)
            if isinstance(c, ResC):
                close(I, x, c, node, "exit")
            elif isinstance(c, ObjC):
                g = I.getattr_raw(x, "__exit__", node)
                if g is not None:
                    I.call(g, [NONE, NONE, NONE], {}, node)
        if isinstance(x, Prim) and x.kind == "closing":
            v = x.data["v"]
            if isinstance(v, Ref) and isinstance(I.c(v.loc), ResC):
                close(I, v, I.c(v.loc), node, "exit")


P_FUNCS["contextlib.contextmanager"] = lambda I, args, kw, node: Prim("cmfn", fn=args[0])
P_FUNCS["contextlib.ExitStack"] = lambda I, args, kw, node: opened(I, "exitstack", {}, node)


def collected(I, pool, at, node):
    """results of work handed to a pool are waited for"""
    if not I.quiet:
        log(I, "collect", pool, node, at)
    c = I.heap.get(pool) if I.heap is not None else None
    if isinstance(c, ResC) and c.state == "closed" and constof(c.attrs.get("waits", NONE)) is not True and constof(c.attrs.get("how", NONE)) in ("exit", "terminate"):
        I.ev("resuse", node, key="collect", loc=pool, what="results of a pool that was terminated before they were collected")


def worker(I, fn, node, process, star, kw=None):
    def call(xs):
        if star:
            it = I.items_of(xs[0])
            xs = it if it is not None else [Prim("star", it=P.iterate(I, xs[0], node))]
        if not process:
            return I.call(fn, xs, kw or {}, node)
        save = I.heap
        I.heap = dict(save)
        for k, v in save.items():                       # a task runs when it is handed over, not when its result is taken
            if k[0] == "h" and len(k) > 1 and k[1] == "shm" and isinstance(v, ArrC):
                I.heap[k] = ArrC(v.shape, v.f.w(bad=frozenset(b for b in v.f.bad if b[0] != "closed")))
        I.procdepth += 1
        I.loopidx.append(sym("task", node._id))
        I.loopfresh.append(set())
        I.ev("workercall", node, key=(), fn=fn, args=[I.snap(x) for x in xs], raw=list(xs), kw=kw)
        r = I.call(fn, xs, kw or {}, node)
        fresh = I.loopfresh.pop()
        I.loopidx.pop()
        I.procdepth -= 1
        if I.heap is None:
            return DEAD
        new = dict(save)
        for k, v in I.heap.items():
            if k[0] == "h" and (k in fresh or k[:5] in fresh or len(k) > 1 and k[1] == "shm"):
                if k[1] == "shm" and isinstance(v, ArrC):       # what a worker closes is its own handle
                    mine = frozenset(b for b in save[k].f.bad if b[0] == "closed") if isinstance(save.get(k), ArrC) else frozenset()
                    v = ArrC(v.shape, v.f.w(bad=frozenset(b for b in v.f.bad if b[0] != "closed") | mine))
                new[k] = v
        I.heap = new
        I.ev("workerret", node, key=(), fn=fn, ret=r)
        return r
    return call


def dispatch(I, c, fn, its, node, star, name, loc, kw=None):
    process = c.kind == "pool:process"
    call = worker(I, fn, node, process, star, kw)
    idx = Sc(F(sym("task", node._id, I.ctx), (0, INF), "i"))
    q = I.quiet
    elems = [P.elem(I, t, idx) if t.items is None else None for t in its]
    I.ev("dispatch", node, key=name, process=process, fn=fn, its=its, elems=elems, name=name, star=star, pool=loc)
    lazy = name in ("imap", "imap_unordered", "map_async", "starmap_async") or name == "map" and constof(c.attrs.get("waits", NONE)) is True
    log(I, "dispatch", loc, node, name, lazy, tuple(x for t in its for x in (t.items or [])) + tuple(x for x in elems if x is not None))
    kind = ("results", loc, node) if lazy else "results"
    ex = [len(t.items) for t in its if t.items is not None]
    if ex and (all(t.items is not None or t.n is None for t in its) or min(ex) <= 16):
        it = P.mapped(I, call, its, node)
        return It(it.items, it.elem, it.n, it.deps, kind) if isinstance(it, It) else it
    it = P.mapped(I, call, its, node)
    P.drain(I, it, node)                          # the effects, once
    if I.heap is None:
        return it

    def el(i):
        I.quiet += 1
        ctx, I.ctx = I.ctx, I.newctx(("collect", node._id))
        try:
            return it.elem(i)
        finally:
            I.ctx = ctx
            I.quiet -= 1
    return It(None, el, it.n, it.deps, kind)


def pool_meth(I, r, c, name, args, kw, node):
    kw2 = {k: v for k, v in kw.items() if k not in ("chunksize", "timeout", "callback", "error_callback")}
    if name in ("map", "imap", "imap_unordered", "map_async"):
        # Pool.map takes one iterable (then chunksize); an executor's map takes many
        its = [P.iterate(I, a, node) for a in args[1:] if not (isinstance(a, Sc))] + [P.iterate(I, v, node) for k, v in kw2.items() if k == "iterable"]
        fn = args[0] if args else kw2.get("func") or kw2.get("fn")
        res = dispatch(I, c, fn, its, node, False, name, r.loc)
        if name == "imap_unordered":
            I.ev("unordered", node, key=(), loc=r.loc)
        return Prim("future", val=res, pool=r.loc, at=node) if name == "map_async" else res
    if name in ("starmap", "starmap_async"):
        it = P.iterate(I, args[1] if len(args) > 1 else kw2.get("iterable"), node)
        res = dispatch(I, c, args[0] if args else kw2.get("func"), [it], node, True, name, r.loc)
        return Prim("future", val=res, pool=r.loc, at=node) if name == "starmap_async" else res
    if name in ("submit", "apply", "apply_async"):
        fn = args[0]
        xs, k2 = list(args[1:]), kw2
        if name != "submit":
            xs = I.items_of(args[1]) if len(args) > 1 else []
            xs = xs if xs is not None else [Unk(I.facts(args[1]))]
            k2 = {}
            kd = args[2] if len(args) > 2 else kw.get("kwds")
            if isinstance(kd, Ref) and isinstance(I.c(kd.loc), DictC):
                k2 = dict(I.c(kd.loc).keys)
        process = c.kind == "pool:process"
        I.ev("dispatch", node, key=name, process=process, fn=fn, its=[], elems=list(xs) + list(k2.values()), name=name, star=False, pool=r.loc)
        log(I, "dispatch", r.loc, node, name, name != "apply", tuple(xs) + tuple(k2.values()))
        v = worker(I, fn, node, process, False, k2)(xs)
        return v if name == "apply" else Prim("future", val=v, pool=r.loc, at=node)
    I.unm("pool method " + name, node)
    return Unk(I._unkf("." + name, list(args), node))


@reg("concurrent.futures.as_completed")
def as_completed(I, args, kw, node):
    it = P.iterate(I, args[0], node)
    if not (isinstance(args[0], Ref) and isinstance(I.c(args[0].loc), DictC)):      # a dictionary keeps each future's place
        I.ev("unordered", node, key=(), loc=None)
    if it.items is not None:
        r = None
        for x in it.items:
            r = I.joinV(r, x)
        return It(None, lambda i: r, const(len(it.items)))
    return it


@reg("concurrent.futures.wait")
def fwait(I, args, kw, node):
    return Tup([args[0], I.list_(node, [], kind="set")])


def setup(g):
    g["FUNCS"].update(P_FUNCS)
