"""Parses /repo's package sources and gives every AST node a stable id."""
import ast
import os


class ModInfo:
    def __init__(self, name, path, rel, tree, src, is_pkg):
        self.name, self.path, self.rel, self.tree, self.src, self.is_pkg = name, path, rel, tree, src, is_pkg


class AnalysisBroken(Exception):
    pass


def package_dirs(repo):
    """package -> directory, read from setup.py's package_dir"""
    out = {"girth": "estimation", "girth.synthetic": "synthetic", "girth.common": "common",
           "girth.factoranalysis": "factoranalysis"}
    try:
        tree = ast.parse(open(os.path.join(repo, "setup.py"), encoding="utf-8").read())
        for n in ast.walk(tree):
            if isinstance(n, ast.keyword) and n.arg == "package_dir" and isinstance(n.value, ast.Dict):
                got = {}
                for k, v in zip(n.value.keys, n.value.values):
                    s = [c.value for c in ast.walk(v) if isinstance(c, ast.Constant) and isinstance(c.value, str)]
                    if isinstance(k, ast.Constant) and s:
                        got[k.value] = s[-1].lstrip("./")
                if got:
                    out = got
    except (OSError, SyntaxError):
        pass
    return out


class Project:
    def __init__(self, repo="/repo"):
        self.repo = repo
        self.mods = {}
        self.nodes = {}            # id -> (node, module)
        self.nfuncs = 0
        dirs = package_dirs(repo)
        for pkg, d in dirs.items():
            top = os.path.join(repo, d)
            if not os.path.isdir(top):
                raise AnalysisBroken(f"package directory {top} of {pkg} is missing")
            for base, sub, files in os.walk(top):
                sub[:] = sorted(s for s in sub if s not in ("test", "tests", "__pycache__"))
                for fn in sorted(files):
                    if not fn.endswith(".py"):
                        continue
                    p = os.path.join(base, fn)
                    rel = os.path.relpath(p, top)
                    parts = [pkg] + rel[:-3].split(os.sep)
                    is_pkg = parts[-1] == "__init__"
                    if is_pkg:
                        parts = parts[:-1]
                    name = ".".join(parts)
                    src = open(p, encoding="utf-8").read()
                    try:
                        tree = ast.parse(src, filename=p)
                    except SyntaxError as e:
                        raise AnalysisBroken(f"{p}: {e}")
                    self.mods[name] = ModInfo(name, p, os.path.relpath(p, repo), tree, src, is_pkg)
        k = 0
        for name in sorted(self.mods):
            m = self.mods[name]
            for n in ast.walk(m.tree):
                n._id = k
                n._mod = m
                self.nodes[k] = n
                k += 1
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    self.nfuncs += 1
            link(m.tree, None)

    def where(self, node):
        m = getattr(node, "_mod", None)
        if m is None:
            return "?"
        fn = enclosing(node)
        return f"{m.rel}:{getattr(node, 'lineno', 0)}" + (f" ({fn})" if fn else "")


def link(node, parent):
    node._parent = parent
    for c in ast.iter_child_nodes(node):
        link(c, node)


def enclosing(node):
    """dotted name of the function around a node"""
    names = []
    n = node
    while n is not None:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.append(n.name)
        elif isinstance(n, ast.Lambda):
            names.append("<lambda>")
        n = getattr(n, "_parent", None)
    return ".".join(reversed(names))


def locals_of(fn):
    """names local to a function (or lambda) node; plus global / nonlocal declarations"""
    cached = getattr(fn, "_locals", None)
    if cached is not None:
        return cached
    names, glob, nonl = set(), set(), set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    gen = [False]

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr) and isinstance(c.target, ast.Name):
                    names.add(c.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        elif isinstance(n, ast.MatchAs) and n.name:
            names.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)
    for s in body:
        visit(s)
    names -= glob
    names -= nonl
    fn._locals = (frozenset(names), frozenset(glob), frozenset(nonl), gen[0])
    return fn._locals
