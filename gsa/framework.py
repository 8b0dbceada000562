"""Running a property's rules, reporting, evidence, known findings."""
import ast
import json
import os
import sys
import time
import traceback

from . import entries as E
from .loader import AnalysisBroken, enclosing
from .interp import Budget
from .values import *      # noqa: F401,F403
from . import terms as tm

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GSA_REPO", "/repo")


class Finding:
    def __init__(self, rule, node, msg, ctx=None, run=None, extra=None, key=None, where=None, proj=None, fn=None):
        self.rule, self.node, self.msg = rule, node, msg
        I = run.I if run is not None else None
        proj = proj or (I.proj if I is not None else None)
        self.where = where or (proj.where(node) if proj is not None and node is not None and getattr(node, "_mod", None) is not None else (run.name if run is not None else "?"))
        self.path = I.callchain(ctx)[::-1] if I is not None and ctx is not None else []
        self.entry = run.label if run is not None else None
        fn0 = fn
        fn = enclosing(node) if node is not None and getattr(node, "_mod", None) is not None else (run.name if run is not None else "?")
        self.function = fn
        self.construct = text(node) if node is not None and getattr(node, "_mod", None) is not None else ""
        self.key = f"{rule}|{fn0 or fn}|{key if key is not None else self.construct}"
        self.extra = extra

    def json(self):
        return {"rule": self.rule, "where": self.where, "function": self.function, "construct": self.construct,
                "message": self.msg, "call_path": [p for p in self.path if p != "?"], "public_call": self.entry, "key": self.key}


def text(node, n=160):
    try:
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            return node.name
        if isinstance(node, (ast.For, ast.While, ast.If, ast.With)):
            return ast.unparse(node).split("\n")[0][:n]
        return " ".join(ast.unparse(node).split())[:n]
    except Exception:
        return type(node).__name__


class Ctx:
    """what a property check works with"""
    def __init__(self, prop, tier, repo=REPO):
        self.prop, self.tier = prop, tier
        self.base = E.prepare(repo)
        self.proj = self.base.proj
        self.cache = {}
        self.findings = {}
        self.counts = {}
        self.notes = []
        self.runs = []
        self.skipped = []

    def run(self, name, sc=None, build=None, tagdef=True, tag=None):
        k = (name, json.dumps(sc or {}, sort_keys=True, default=str), tag)
        if k in self.cache:
            return self.cache[k]
        try:
            r = E.run(self.base, name, sc, build, tagdef)
        except Budget as e:
            raise AnalysisBroken(f"{name}: {e}")
        self.cache[k] = r
        self.runs.append(r)
        return r

    def custom(self, name, sc, call):
        try:
            r = E.custom(self.base, name, sc, call)
        except Budget as e:
            raise AnalysisBroken(f"{name}: {e}")
        self.runs.append(r)
        return r

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def need(self, what, minimum):
        """instance counts confirmed by hand must not fall"""
        if self.counts.get(what, 0) < minimum:
            raise AnalysisBroken(f"only {self.counts.get(what, 0)} {what} found, at least {minimum} expected: the code the rule is anchored in was not found")

    def find(self, rule, node, msg, **kw):
        f = Finding(rule, node, msg, proj=self.proj, **kw)
        self.findings.setdefault(f.key, f)

    def entries(self, *tags, without=()):
        return [n for n, e in E.ENTRIES.items() if all(t in e.tags for t in tags) and not any(t in e.tags for t in without)]


def load_known(prop):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.rstrip("\n")
            if line.startswith("KNOWN-FINDING: property=" + prop + " "):
                rest = line.split(" ", 2)[2]
                if " key=" in " " + rest:
                    d, key = (" " + rest).rsplit(" key=", 1)
                    out[key.strip()] = d.strip()
    return out


def main(prop, module, tier, level="other"):
    t0 = time.time()
    ev = os.environ.get("GSA_EV") or os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    sys.setrecursionlimit(50000)
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    try:
        ctx = Ctx(prop, tier)
        explain = module.check(ctx)
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={prop} {e}")
        return 2
    except RecursionError as e:
        print(f"ANALYSIS-BROKEN property={prop} recursion limit: {e}")
        return 2
    known = load_known(prop)
    new, old = [], []
    for k, f in sorted(ctx.findings.items()):
        (old if k in known else new).append(f)
    unm, stm, fns, calls = {}, set(), set(), 0
    for r in ctx.runs:
        for k, v in r.I.unmodelled.items():
            unm.setdefault(k, set()).update(v)
        stm |= r.I.stats["stmts"]
        fns |= r.I.stats["functions"]
        calls += r.I.stats["calls"]
    fnames = sorted({ctx.proj.nodes[i]._mod.rel + ":" + enclosing(ctx.proj.nodes[i]) for i in fns})
    cov = {"explanation": explain,
           "public_calls_analysed": sorted({r.name for r in ctx.runs}),
           "scenarios_analysed": len(ctx.runs),
           "functions_reached": len(fnames), "functions": fnames,
           "statements_interpreted": len(stm), "abstract_calls": calls,
           "obligations": ctx.counts,
           "unmodelled_constructs": {k: sorted(v)[:8] for k, v in sorted(unm.items())},
           "known_findings_present": [f.json() for f in old],
           "notes": ctx.notes}
    doc = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
           "assumptions": getattr(module, "ASSUMPTIONS", []),
           "wall_s": round(time.time() - t0, 3), "violations": len(new)}
    with open(os.path.join(ev, prop + ".json"), "w") as h:
        json.dump(doc, h, indent=1)
    for f in old:
        print(f"KNOWN-FINDING: property={prop} {known[f.key]}  [{f.where}]")
    if new:
        rp = os.path.join(ev, f"{prop}.violations.json")
        with open(rp, "w") as h:
            json.dump([f.json() for f in new], h, indent=1)
        for f in new:
            print(f"  {f.where}: {f.rule}: {f.msg}" + (f"\n     in: {f.construct}" if f.construct else "")
                  + (f"\n     public call: {f.entry}" if f.entry else "") + (f"\n     via: {' -> '.join(p for p in f.path if p != '?')}" if any(p != '?' for p in f.path) else ""))
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    print(f"OK property={prop} scenarios={len(ctx.runs)} functions={len(fnames)} obligations={json.dumps(ctx.counts)} wall={doc['wall_s']}s")
    return 0
