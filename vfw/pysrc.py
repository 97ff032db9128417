"""Reading the repository's Python modules (current working tree)."""
from __future__ import annotations

import ast
import os
from functools import lru_cache

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "src", "gaspra")


class Mod:
    def __init__(self, name):
        self.name = name
        self.path = os.path.join(PKG, name + ".py")
        self.text = open(self.path, encoding="utf-8").read()
        self.tree = ast.parse(self.text)
        self.defs = {}  # qualname -> FunctionDef
        self.classes = {}  # name -> ClassDef
        self.imports = {}  # local name -> ("mod", module) / ("name", module, name) / ("ext", module, name)
        self.consts = {}
        self._scan(self.tree.body, "")

    def _scan(self, body, prefix):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.defs[prefix + n.name] = n
                self._scan_nested(n, prefix + n.name + ".")
            elif isinstance(n, ast.ClassDef):
                if not prefix:
                    self.classes[n.name] = n
                self._scan(n.body, prefix + n.name + ".")
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.startswith("gaspra."):
                        self.imports[a.asname or a.name] = ("mod", a.name.split(".", 1)[1])
                    else:
                        self.imports[a.asname or a.name] = ("ext", a.name, None)
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    m = n.module or ""
                    if m.startswith("gaspra."):
                        self.imports[a.asname or a.name] = ("name", m.split(".", 1)[1], a.name)
                    elif m == "gaspra":
                        self.imports[a.asname or a.name] = ("mod", a.name)
                    else:
                        self.imports[a.asname or a.name] = ("ext", m, a.name)
            elif isinstance(n, ast.Assign) and not prefix:
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and not prefix and isinstance(n.target, ast.Name) and n.value:
                self.consts[n.target.id] = n.value
            elif isinstance(n, ast.If) and not prefix:
                pass

    def _scan_nested(self, f, prefix):
        for n in f.body:
            for m in ast.walk(n):
                if isinstance(m, ast.FunctionDef):
                    self.defs.setdefault(prefix + m.name, m)


@lru_cache(None)
def module(name) -> Mod:
    return Mod(name)


def exists(name):
    return os.path.exists(os.path.join(PKG, name + ".py"))


def resolve(mod: Mod, name: str):
    """(module, name) a global name refers to, following re-exports."""
    if name in mod.defs or name in mod.classes or name in mod.consts:
        return mod.name, name
    imp = mod.imports.get(name)
    if imp is None:
        return None
    if imp[0] == "name" and exists(imp[1]):
        r = resolve(module(imp[1]), imp[2])
        return r or (imp[1], imp[2])
    if imp[0] == "ext":
        return ("<ext>" + imp[1], imp[2])
    return None


def class_fields(modname, cls):
    """[(name, default expression or None)] in declaration order, following the
    dataclass / namedtuple definition in the source; None if it is neither."""
    m = module(modname)
    c = m.classes.get(cls)
    if c is not None:
        deco = [ast.unparse(d) for d in c.decorator_list]
        if not any(d.startswith("dataclass") for d in deco):
            return None
        out = []
        for n in c.body:
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                out.append((n.target.id, n.value))
        return out
    v = m.consts.get(cls)
    if isinstance(v, ast.Call) and ast.unparse(v.func).endswith("namedtuple") and len(v.args) == 2:
        a = v.args[1]
        if isinstance(a, (ast.List, ast.Tuple)):
            return [(e.value, None) for e in a.elts]
        if isinstance(a, ast.Constant):
            return [(x, None) for x in a.value.replace(",", " ").split()]
    return None


def is_generator(f):
    class V(ast.NodeVisitor):
        found = False

        def visit_Yield(self, n):
            self.found = True

        def visit_YieldFrom(self, n):
            self.found = True

        def visit_FunctionDef(self, n):
            pass

        def visit_Lambda(self, n):
            pass

    v = V()
    for s in f.body:
        v.visit(s)
    return v.found
