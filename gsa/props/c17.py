"""C17: AIC and BIC are the stated functions of one log-likelihood."""
from .. import entries as E
from .. import terms as tm
from ..terms import mk, const, sym
from ..values import *   # noqa
from . import common as cm
from . import c12

ASSUMPTIONS = ["log, sums and products are exact (no claim about rounding)", "at least one item and one respondent"]
SAMPLES = sym("opt", "number_of_samples")
NPEOPLE = E.PEOPLE


def leafs(I, v):
    """{'final':..., 'null':..., 'delta':...} or {'': value}"""
    out = {}
    for x in I.alts(v):
        c = I.c(x.loc) if isinstance(x, Ref) else None
        if isinstance(c, DictC):
            for k in c.keys:
                out[k] = I.joinV(out.get(k), c.keys[k])
        else:
            out[""] = I.joinV(out.get(""), x)
    return out


def atoms_by_id(t):
    return {x.id: x for x in tm.subterms(t).values()}


def loglik_atoms(t):
    """atoms of the polynomial that are data dependent (contain a logarithm of something other than sizes)"""
    sub = atoms_by_id(t)
    out = []
    P = tm.poly(t)
    for mono, coef in P.items():
        for a, p in mono:
            x = sub.get(a)
            if x is None:
                x = next((y for y in sub.values() if str(y.id) == str(a)), None)
            if x is not None and tm.contains(x, lambda u: u.op == "log" and not sizes(u.args[0])):
                out.append((mono, coef, x, p))
    return out


def sizes(t):
    return not tm.contains(t, lambda u: u.op == "sym" and u.args and u.args[0] not in ("dim", "opt", "arg"))


def integrand(ll):
    """product inside  sum_people log( sum_nodes product )"""
    t = ll
    if t.op != "red" or t.args[0] != "sum":
        return None
    t = [a for a in t.args if isinstance(a, tm.T)][0]
    if t.op != "log":
        return None
    t = [a for a in t.args if isinstance(a, tm.T)][0]
    if t.op == "red" and t.args[0] == "sum":
        return [a for a in t.args if isinstance(a, tm.T)][0]
    if t.op == "dot":
        return mk("mul", t.args[0], t.args[1])
    return None


def samell(a, b):
    if a is b or tm.same(a, b):
        return True
    x, y = integrand(a), integrand(b)
    return x is not None and y is not None and (x is y or close(norm(tm.poly(x)), norm(tm.poly(y))))


def factors(t):
    """{atom term: power} of each monomial; None when there is no common part"""
    sub = atoms_by_id(t)
    out = []
    for mono, coef in tm.poly(t).items():
        out.append(({(sub.get(a) or next(y for y in sub.values() if str(y.id) == str(a))): p for a, p in mono}, coef))
    return out


def quotient(pa, common):
    """polynomial pa divided by the monomial `common` ({term: power})"""
    out = {}
    for mono, c in pa.items():
        m = {str(a): p for a, p in mono}
        for x, p in common.items():
            m[str(x.id)] = m.get(str(x.id), 0) - p
        key = tuple(sorted((a, p) for a, p in m.items() if p))
        out[key] = out.get(key, 0) + c
    return {k: v for k, v in out.items() if abs(v) > 1e-12}


def norm(p):
    return {tuple(sorted((str(a), q) for a, q in m)): c for m, c in p.items()}


def close(p, q):
    return set(p) == set(q) and all(abs(p[k] - q[k]) < 1e-9 for k in p)


def check(ctx):
    for name, e in E.ENTRIES.items():
        if "est" not in e.tags:
            continue
        scs = cm.scenarios(name, ctx.tier)
        if ismd(name):
            scs = scs + [dict(scs[0], estimate_distribution=True)]     # accepted, and without effect
        for sc in scs:
            r = ctx.run(name, sc)
            if r.I.heap is None:
                cm.must_return(ctx, r)
            one(ctx, name, sc, r)
    ctx.need("criteria decomposed", 24)
    ctx.need("null and final integrands compared", 8)
    return ("Every marginal-likelihood estimator is interpreted once per combination of its switches; each reported AIC/BIC is a symbolic polynomial. "
            "The rule requires coefficient -2 on one log-likelihood atom shared by AIC and BIC, the remainder 2k (AIC) or k ln N (BIC) with N the people dimension of the dataset, "
            "null and final integrands that differ exactly by supplied density x quadrature weights versus the density in force at the end (the one the abilities use), "
            "a likelihood product built after the last sweep from current item parameters, and delta = null - final.")


def ismd(name):
    return "md" in E.ENTRIES[name].tags


def one(ctx, name, sc, r):
    I = r.I
    aic, bic = cm.field(I, r.ret, "AIC"), cm.field(I, r.ret, "BIC")
    if aic is None and bic is None:
        return
    fn = cm.fnnode(r)
    if aic is None or bic is None:
        ctx.find("criterion-missing", fn, "only one of AIC and BIC is reported", run=r)
        return
    A, B = leafs(I, aic), leafs(I, bic)
    md = ismd(name)
    est = bool(sc.get("estimate_distribution")) and not md
    ll = {}
    for lab in sorted(set(A) | set(B)):
        if lab == "delta":
            continue
        if lab not in A or lab not in B:
            ctx.find("criterion-missing", fn, f"'{lab}' is reported for only one of AIC and BIC", run=r)
            continue
        at = []
        for nm, v, scale in (("AIC", A[lab], const(2)), ("BIC", B[lab], mk("log", NPEOPLE))):
            _, f = I.rd(v)
            ctx.count("criteria decomposed")
            t = f.term
            lls = loglik_atoms(t)
            k = mk("sub", SAMPLES, const(3)) if est and lab != "null" else const(0)
            want_k = ("number of density samples - 3" if est and lab != "null" else "0")
            if len({x for _, _, x, _ in lls}) != 1 or len(lls) != 1 or lls[0][3] != 1 or len(lls[0][0]) != 1:
                ctx.find("criterion", fn, f"{nm} '{lab}' is not a constant multiple of one log-likelihood plus a penalty: {tm.show(t)[:160]}", run=r, key=f"{nm}|{lab}|{name}")
                continue
            mono, coef, x, _ = lls[0]
            if abs(coef + 2) > 1e-9:
                ctx.find("criterion", fn, f"{nm} '{lab}' weights the log-likelihood by {coef:g} instead of -2", run=r, key=f"{nm}|{lab}|ll|{name}")
            rest = mk("sub", t, mk("mul", const(coef), x))
            if not tm.same(rest, mk("mul", scale, k)):
                ctx.find("criterion", fn, f"{nm} '{lab}' has penalty {tm.show(rest)[:120]} where {'2k' if nm == 'AIC' else 'k ln N'} with k = {want_k} is due", run=r, key=f"{nm}|{lab}|k|{name}")
            at.append(x)
        if len(at) == 2:
            ctx.count("AIC/BIC pairs on one log-likelihood")
            if not samell(at[0], at[1]):
                ctx.find("criterion", fn, f"AIC and BIC '{lab}' use different log-likelihoods", run=r, key=f"pair|{lab}|{name}")
            ll[lab] = at[0]
    for nm, D in (("AIC", A), ("BIC", B)):
        if "delta" in D and "null" in D and "final" in D:
            ctx.count("differences checked")
            d, n, f = (I.rd(D[k])[1].term for k in ("delta", "null", "final"))
            if not tm.same(d, mk("sub", n, f)):
                ctx.find("delta", fn, f"{nm} 'delta' is not null minus final", run=r, key=f"{nm}|{name}")
    llv = cm.field(I, r.ret, "LL")
    if llv is not None and ll:
        _, f = I.rd(llv)
        ctx.count("AIC/BIC pairs on one log-likelihood")
        if not any(samell(f.term, x) for x in ll.values()):
            ctx.find("criterion", fn, "the reported LL is not the log-likelihood used by AIC and BIC", run=r, key=f"LL|{name}")
    integrands(ctx, name, sc, r, ll, est, md, fn)


def fname(x):
    if x.op != "fn" or not x.args:
        return ""
    a = x.args[0]
    return a if isinstance(a, str) else str(a.args[0]) if isinstance(a, tm.T) and a.op == "const" else ""


def integrands(ctx, name, sc, r, ll, est, md, fn):
    I = r.I
    G = {k: integrand(x) for k, x in ll.items()}
    for k, g in G.items():
        if g is None:
            ctx.count("integrands not recognised")
            continue
        likelihood(ctx, r, fn, k, g, name)
        if md:
            deps = lambda p: tm.contains(g, p)
            ctx.count("integrand checked for density and weights")
            if not deps(lambda u: u.op == "qweights") or not deps(lambda u: fname(u) == "user:opt:distribution"):
                ctx.find("integrand", fn, f"the log-likelihood behind '{k or 'AIC'}' is not weighted by the latent density and the quadrature weights", run=r, key=f"weights|{k}|{name}")
    n, f = G.get("null"), G.get("final")
    if n is None or f is None:
        return
    ctx.count("null and final integrands compared")
    Fn, Ff = factors(n), factors(f)
    common = None
    for m, _ in Fn + Ff:
        common = dict(m) if common is None else {x: min(p, m[x]) for x, p in common.items() if x in m and p > 0 and m[x] > 0}
    common = {x: p for x, p in common.items() if not isw(x)}
    qn, qf = norm(quotient(tm.poly(n), common)), norm(quotient(tm.poly(f), common))
    # null: supplied density x weights
    sub = atoms_by_id(n)
    dens = [x for x in {y for m, _ in Fn for y in m} if fname(x) == "user:opt:distribution"]
    roots = {y for d in dens for y in tm.subterms(d).values() if y.op == "qroots"}
    a, b, N = sym("opt", "quadrature_bounds", 0), sym("opt", "quadrature_bounds", 1), sym("opt", "quadrature_n")
    ok = False
    for d in dens:
        for wt in [y for m, _ in Fn for y in m if y.op == "qweights"]:
            w = mk("mul", const(.5), mk("mul", mk("sub", b, a), mk("mul", wt, d)))
            if wt.args[-1] is N and close(norm(tm.poly(w)), qn):
                ok = True
    if not ok:
        ctx.find("integrand", fn, "the null criterion does not integrate the final likelihood against the supplied density times the quadrature weights exactly once: "
                 + tm.show(n)[:150], run=r, key=f"null|{name}")
    if not est:
        if not close(qn, qf):
            ctx.find("integrand", fn, "without density estimation the final criterion must use the supplied density, as the null criterion does", run=r, key=f"final|{name}")
        return
    if close(qn, qf):
        ctx.find("integrand", fn, "with density estimation the final criterion uses the supplied density instead of the estimated one", run=r, key=f"final|{name}")
        return
    ab = cm.field(I, r.ret, "Ability")
    if ab is None:
        return
    _, fa = I.rd(ab)
    sums = [x for x in tm.subterms(fa.term).values() if x.op == "red" and x.args[0] == "sum" or x.op == "dot"]
    ctx.count("final integrand compared with the abilities'")
    pf = norm(tm.poly(f))
    if sums and not any(close(norm(tm.poly(y)), pf) for x in sums for y in [mk("mul", *x.args[:2]) if x.op == "dot" else [z for z in x.args if isinstance(z, tm.T)][0]]):
        ctx.find("integrand", fn, "the final criterion and the reported abilities integrate different likelihood x density products", run=r, key=f"ability|{name}")


def isw(x):
    return x.op == "qweights" or fname(x).startswith("user:opt:") or x.op == "sym" and x.args[0] == "opt" or x.op == "join"


def sweeps_of(I):
    out = []
    for e in I.evs("loop"):
        if e.form == "unrolled":
            continue
        ts = [e.n] + [tf.term for _, tf, _ in e.tests if tf is not None]
        for h in [h for _, h in e.breaks] + list(e.rets):
            ts += [t for t, _ in h.get(("pc",), ())]
        if any(t is not None and c12.mentions(t, c12.OPT) for t in ts):
            out.append(e)
    return out


def term(h, k):
    v = h.get(k) if h is not None else None
    return v.f.term if isinstance(v, (ArrC, Sc)) else None


def likelihood(ctx, r, fn, k, g, name):
    """the product over items is formed after the sweeps, from current parameters"""
    I = r.I
    sweeps = sweeps_of(I)
    loops = {e.lid: e for e in I.evs("loop") if e.form != "unrolled"}
    inside = {e.lid for e in loops.values() if e in sweeps or any(s.idt in e.outer for s in sweeps)}
    snaps = snapshots(sweeps)
    for m, _ in factors(g):
        for x in m:
            ph = [x] if x.op == "sym" else list(x.args) if x.op == "join" else []
            for u in ph:
                if isinstance(u, tm.T) and u.op == "sym" and u.args[0] == "phi" and (m[x] > 0 or u is x) and u.args[1] in inside:
                    ctx.find("integrand", fn, f"the likelihood behind '{k or 'AIC'}' was formed during a sweep, not at the final item parameters", run=r, key=f"running|{name}")
                    return
            if x.op == "sym" and x.args[0] == "phi" and x.args[1] in loops:
                ctx.count("likelihood products located after the sweeps")
                H = loops[x.args[1]].entry or {}
                cur = {id(term(H, p)) for p in H if p not in snaps and term(H, p) is not None}
                old = {id(term(H, p)) for p in snaps if term(H, p) is not None}
                for y in m:
                    if y is not x and stale(y, cur, old, set()):
                        ctx.find("integrand", fn, f"the likelihood behind '{k or 'AIC'}' uses item parameters of the previous sweep", run=r, key=f"stale|{name}")


def snapshots(sweeps):
    out = set()
    for e in sweeps:
        if e.head is None or e.end is None:
            continue
        X = {}
        for k in e.head:
            t = term(e.head, k)
            if t is not None and term(e.end, k) is not t:
                X[id(t)] = k
        for q in e.end:
            t = term(e.end, q)
            if t is not None and id(t) in X and X[id(t)] != q:
                out.add(q)
    return out


def stale(t, cur, old, seen):
    if id(t) in cur or id(t) in seen:
        return False
    seen.add(id(t))
    if id(t) in old:
        return True
    return any(stale(a, cur, old, seen) for a in t.args if isinstance(a, tm.T))
