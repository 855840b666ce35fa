"""The frame condition "writes nothing that outlives the call", for every function of the package (C11, C12).

For each function one obligation: it neither changes nor hands out state of a module, of a class or of a default argument. The
argument is by ownership and purely syntactic, on the AST of the current source: what is not clearly harmless is "unknown".
Generated parser code is left out (stated assumption)."""
from __future__ import annotations

import ast
import os
from typing import Any

from . import prog

PKG = "explorerscript"
READERS = {"keys", "values", "items", "get", "index", "count", "copy", "union", "intersection", "difference", "issubset", "issuperset"}
PURE = {"len", "list", "tuple", "set", "frozenset", "dict", "sorted", "reversed", "enumerate", "zip", "any", "all", "min", "max", "sum", "isinstance", "iter", "str", "repr", "range", "map", "filter"}
DECORATORS = {"property", "staticmethod", "classmethod", "abstractmethod", "overload", "override", "contextmanager", "dataclass", "cached_property", "total_ordering", "final"}
BAD_CALLS = {"setattr", "delattr", "globals", "exec", "eval", "vars", "__import__"}
BAD_EXT = {("sys", "setrecursionlimit"), ("os", "chdir"), ("os", "putenv"), ("random", "seed"), ("locale", "setlocale"), ("sys", "setswitchinterval")}
ASSUMED = ["the prediction caches that the generated parsers share (ANTLR runtime) do not change what is parsed", "gettext, logging and igraph keep no state that results depend on"]


def container(v: ast.AST | None) -> bool:
    if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(v, ast.BinOp):
        return container(v.left) or container(v.right)
    if isinstance(v, ast.Call):
        f = v.func
        n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
        return n in ("list", "dict", "set", "defaultdict", "deque", "OrderedDict", "Counter", "bytearray", "WeakKeyDictionary", "WeakValueDictionary", "ChainMap", "local")
    return False


class Mod:
    def __init__(self, name: str, path: str):
        self.name = name
        with open(path) as f:
            self.tree = ast.parse(f.read())
        self.shared: dict[str, str] = {}  # names of containers or objects of the module
        self.imports: dict[str, tuple[str, str | None]] = {}
        self.classes: dict[str, ast.ClassDef] = {}
        self.funcs: set[str] = set()
        for s in _stmts(self.tree.body):
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            v = s.value
                            if container(v):
                                self.shared[n.id] = "container"
                            elif v is not None and not isinstance(v, (ast.Constant, ast.Name, ast.Attribute, ast.JoinedStr, ast.Tuple)):
                                self.shared[n.id] = "object"
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.imports[a.asname or a.name.split(".")[0]] = (a.name if a.asname else a.name.split(".")[0], None)
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self.imports[a.asname or a.name] = (s.module or "", a.name)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = s
            elif isinstance(s, ast.FunctionDef):
                self.funcs.add(s.name)


def _stmts(body: list) -> Any:
    for s in body:
        yield s
        for f in ("body", "orelse", "finalbody"):
            if isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                yield from _stmts(getattr(s, f, []))
        for h in getattr(s, "handlers", []):
            yield from _stmts(h.body)


def formats(call: ast.Call) -> bool:
    """A constant text whose fields only read variables, attributes and elements."""
    a = call.args[0] if len(call.args) == 1 and not call.keywords else None
    if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "_" and len(a.args) == 1:
        a = a.args[0]
    if not (isinstance(a, ast.Constant) and isinstance(a.value, str)):
        return False
    try:
        e = ast.parse("f" + repr(a.value), mode="eval").body
    except SyntaxError:
        return False
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            fn = n.func
            if not (isinstance(fn, ast.Name) and fn.id in PURE | {"type"}) and not (isinstance(fn, ast.Attribute) and (fn.attr in ("join", "format", "getText") or fn.attr.isupper() or fn.attr in READERS)):
                return False
        elif isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield, ast.Lambda)):
            return False
    return True


class Frames:
    def __init__(self, root: str):
        self.mods: dict[str, Mod] = {}
        for d, _, fs in os.walk(os.path.join(root, PKG)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith(".py") and f"{os.sep}antlr" not in d:
                    n = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    n = n[: -len(".__init__")] if n.endswith(".__init__") else n
                    self.mods[n] = Mod(n, p)
        self.clsattrs: dict[str, str] = {}  # containers that belong to a class, by attribute
        self.clsvals: dict[str, list] = {}
        own: set[str] = set()  # ... which the constructor replaces by the object's own
        for m in self.mods.values():
            for c in ast.walk(m.tree):
                if isinstance(c, ast.ClassDef):
                    for s in c.body:
                        if isinstance(s, (ast.Assign, ast.AnnAssign)) and container(s.value):
                            for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                                if isinstance(t, ast.Name):
                                    self.clsattrs[t.id] = c.name
                                    self.clsvals.setdefault(t.id, []).append((m, s.value))
                                    if any(isinstance(i, ast.FunctionDef) and i.name == "__init__" and any(isinstance(x, (ast.Assign, ast.AnnAssign)) and container(x.value) and any(isinstance(y, ast.Attribute) and y.attr == t.id and isinstance(y.value, ast.Name) and y.value.id == "self" for y in (x.targets if isinstance(x, ast.Assign) else [x.target])) for x in i.body) for i in c.body):
                                        own.add(t.id)
        self.rebound = {a for a in own if len(self.clsvals[a]) == 1}

    def kind(self, m: Mod, name: str) -> tuple[str, str]:
        """What a global name stands for: (kind, where)."""
        if name in m.shared:
            return m.shared[name], m.name
        if name in m.classes:
            return "class", m.name
        if name in m.funcs:
            return "func", m.name
        if name in m.imports:
            mod, n = m.imports[name]
            if n is None:
                return "module", mod
            if f"{mod}.{n}" in self.mods:
                return "module", f"{mod}.{n}"
            if mod in self.mods:
                return self.kind(self.mods[mod], n) if self.mods[mod] is not m else ("const", mod)
            return ("class", mod) if n[:1].isupper() and not n.isupper() else ("extern", mod)
        return "const", m.name

    def run(self) -> dict[str, list[str]]:
        out: dict[str, list[str]] = {}
        for m in self.mods.values():

            def rec(body: list, q: str, m: Mod = m) -> None:
                for s in _stmts(body):
                    if isinstance(s, ast.FunctionDef):
                        if not (s.body and isinstance(s.body[-1], ast.Expr) and isinstance(s.body[-1].value, ast.Constant) and s.body[-1].value.value is ...):
                            out[f"{m.name}:{q}{s.name}"] = self.check(m, s)
                    elif isinstance(s, ast.ClassDef):
                        rec(s.body, q + s.name + ".")

            rec(m.tree.body, "")
        return out

    def check(self, m: Mod, f: ast.FunctionDef) -> list[str]:
        why: list[str] = []
        parent: dict[int, ast.AST] = {}
        for n in ast.walk(f):
            for ch in ast.iter_child_nodes(n):
                parent[id(ch)] = n
        for d in f.decorator_list:
            e = d.func if isinstance(d, ast.Call) else d
            n = e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else "?"
            if n not in DECORATORS and n not in ("setter", "getter"):
                why.append(f"decorator {n}")
        local: set[str] = set()
        owned: set[str] = set()  # default arguments that are containers
        for n in ast.walk(f):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                a = n.args
                for x in [*a.posonlyargs, *a.args, *a.kwonlyargs, a.vararg, a.kwarg]:
                    if x is not None:
                        local.add(x.arg)
                if n is f:
                    pos = [*a.posonlyargs, *a.args]
                    for x, dv in [*zip(pos[len(pos) - len(a.defaults):], a.defaults), *[(x, y) for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None]]:
                        if container(dv) or (isinstance(dv, ast.Call)):
                            owned.add(x.arg)
                elif isinstance(n, ast.FunctionDef):
                    local.add(n.name)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                local.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                local.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                pass
            elif isinstance(n, ast.Global):
                why.append("global " + ", ".join(n.names))
        local -= {x for n in ast.walk(f) if isinstance(n, ast.Global) for x in n.names}

        def shared(e: ast.AST) -> str | None:
            """A container or object that belongs to a module, a class or a default argument."""
            if isinstance(e, ast.Name):
                if e.id in owned:
                    return f"default argument {e.id}"
                if e.id in local:
                    return None
                k, w = self.kind(m, e.id)
                return f"{k} {e.id}" if k in ("container",) else None
            if isinstance(e, ast.Attribute):
                if isinstance(e.value, ast.Name) and e.value.id not in local:
                    k, w = self.kind(m, e.value.id)
                    if k == "module" and w in self.mods and self.mods[w].shared.get(e.attr) == "container":
                        return f"container {e.value.id}.{e.attr}"
                if e.attr in self.clsattrs and not (e.attr in self.rebound and not (isinstance(e.value, ast.Name) and (e.value.id == "cls" or (e.value.id not in local and self.kind(m, e.value.id)[0] == "class")))):
                    return f"container {e.attr} of class {self.clsattrs[e.attr]}"
                if e.attr == "__dict__":
                    return "__dict__"
            if isinstance(e, ast.Subscript) and isinstance(e.ctx, ast.Load):
                return shared(e.value)
            return None

        def harmless(e: ast.AST) -> bool:
            """The container is only read here, and nothing that could change it gets hold of it."""
            p = parent.get(id(e))
            if isinstance(p, ast.Compare):
                return True
            if isinstance(p, (ast.For, ast.comprehension)) and p.iter is e:
                return True
            if isinstance(p, ast.Starred) or isinstance(p, (ast.BoolOp, ast.If, ast.While, ast.Assert)) and not isinstance(p, ast.BoolOp):
                return True
            if isinstance(p, ast.BinOp):
                return True
            if isinstance(p, ast.UnaryOp):
                return True
            if isinstance(p, (ast.FormattedValue,)):
                return True
            if isinstance(p, ast.Subscript) and p.value is e and isinstance(p.ctx, ast.Load):
                return True  # its elements are not containers, or are looked at below
            if isinstance(p, ast.Attribute) and p.value is e:
                g = parent.get(id(p))
                return p.attr in READERS and isinstance(g, ast.Call) and g.func is p
            if isinstance(p, ast.Call) and e in p.args and isinstance(p.func, ast.Name) and p.func.id in PURE and p.func.id not in local:
                return True
            if isinstance(p, ast.Call) and e in p.args and isinstance(p.func, ast.Attribute) and p.func.attr in ("update", "extend", "union", "join", "issubset", "chain"):
                return True  # copied from
            if isinstance(p, ast.IfExp) and p.test is e:
                return True
            return False

        def plain(mm: Mod, value: ast.AST) -> bool:
            vs = value.values if isinstance(value, ast.Dict) else value.elts if isinstance(value, (ast.List, ast.Set)) else [None]
            for v in vs:
                if isinstance(v, ast.Name):
                    if self.kind(mm, v.id)[0] == "container":
                        return False
                elif not isinstance(v, (ast.Constant, ast.Attribute, ast.Starred)):
                    return False
            return True

        def flat(e: ast.AST) -> bool:
            """Elements of the container are not containers themselves."""
            base = e
            while isinstance(base, ast.Subscript):
                base = base.value
            if isinstance(base, ast.Attribute) and base.attr in self.clsvals:
                return all(plain(a, b) for a, b in self.clsvals[base.attr])
            nm = base.id if isinstance(base, ast.Name) else None
            if nm is None or nm in owned:
                return False
            mm: Mod | None = m
            if nm in m.imports and m.imports[nm][0] in self.mods:
                mm, nm = self.mods[m.imports[nm][0]], m.imports[nm][1] or nm
            for s in _stmts(mm.tree.body):
                if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                    ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                    if any(isinstance(t, ast.Name) and t.id == nm for t in ts):
                        if not plain(mm, s.value):
                            return False
            return True

        def alias(e: ast.AST) -> str | None:
            p = parent.get(id(e))
            if isinstance(p, (ast.Assign, ast.AnnAssign)) and p.value is e:
                ts = p.targets if isinstance(p, ast.Assign) else [p.target]
                if len(ts) == 1 and isinstance(ts[0], ast.Name):
                    return ts[0].id
            return None

        # local names of shared containers are looked at like these
        while True:
            new = set()
            for n in ast.walk(f):
                if isinstance(n, (ast.Name, ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Load) and alias(n) and shared(n):
                    if not (isinstance(n, ast.Subscript) and flat(n)):
                        new.add(alias(n))
            if new <= owned:
                break
            owned |= new  # type: ignore

        for n in ast.walk(f):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, "ctx", None), ast.Load):
                w = shared(n)
                if w:
                    e: ast.AST = n
                    p = parent.get(id(e))
                    if isinstance(p, ast.Subscript) and p.value is e and isinstance(p.ctx, ast.Load) and not flat(e):
                        if not harmless(p) and not alias(p):
                            why.append(f"{w}: an element is handed on in line {n.lineno}")
                    elif not harmless(e) and not alias(e):
                        why.append(f"{w} is changed or handed on in line {n.lineno}")
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                b: ast.AST = n.value
                while isinstance(b, (ast.Attribute, ast.Subscript)):
                    if isinstance(b, ast.Attribute) and b.attr == "__class__":
                        break
                    b = b.value
                if isinstance(b, ast.Attribute):
                    why.append(f"store to an attribute of a class in line {n.lineno}")
                elif isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "type":
                    why.append(f"store to an attribute of a class in line {n.lineno}")
                elif isinstance(b, ast.Name) and b.id not in local and self.kind(m, b.id)[0] in ("class", "module", "object", "container", "func", "extern"):
                    why.append(f"store to an attribute of {b.id} in line {n.lineno}")
                elif isinstance(b, ast.Name) and b.id in ("cls", f.name):
                    why.append(f"store to an attribute of {b.id} in line {n.lineno}")
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                b = n.value
                while isinstance(b, (ast.Attribute, ast.Subscript)):
                    if shared(b):
                        break
                    b = b.value
                if shared(b) or (isinstance(b, ast.Name) and b.id not in local and self.kind(m, b.id)[0] != "const"):
                    why.append(f"store to an element of {ast.unparse(b)} in line {n.lineno}")
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Name) and n.func.id == "f" and "f" not in local and self.kind(m, "f") == ("func", PKG + ".util"):
                    if not formats(n):
                        why.append(f"f() of something unclear in line {n.lineno}")
                if m.name == PKG + ".util" and f.name == "f":
                    continue  # evaluates the format strings that are checked where it is called
                if isinstance(n.func, ast.Name) and n.func.id in BAD_CALLS and n.func.id not in local:
                    why.append(f"{n.func.id}() in line {n.lineno}")
                if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and (n.func.value.id, n.func.attr) in BAD_EXT:
                    why.append(f"{ast.unparse(n.func)} in line {n.lineno}")
                if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id not in local:
                    k, w = self.kind(m, n.func.value.id)
                    if k == "object" and n.func.value.id not in ("logger", "_"):
                        why.append(f"method of the shared object {n.func.value.id} in line {n.lineno}")
        return why


def obligations() -> list[dict]:
    root = os.environ.get("VP_REPO", "/repo")
    out = []
    for k, why in sorted(Frames(root).run().items()):
        out.append({"name": f"frame of {k} :: writes nothing that outlives the call", "status": "unknown" if why else "discharged", "detail": "; ".join(why)[:400], "vcs": 1})
    return out


if __name__ == "__main__":
    obs = obligations()
    for o in obs:
        if o["status"] != "discharged":
            print(o["name"], "|", o["detail"])
    print(len(obs), sum(o["status"] == "discharged" for o in obs))
