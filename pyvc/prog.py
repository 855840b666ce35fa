"""The program under verification: the repository's modules, their functions' ASTs and declared types."""
from __future__ import annotations

import ast
import importlib
import inspect
import os
import pkgutil
import sys
import types
import typing
from typing import Any

from .vals import T_ANY, T_BOOL, T_INT, T_NONE, T_OPQ, T_STR, Unsupported, con_id, t_union

REPO = os.environ.get("VP_REPO", "/repo")
FILES: dict[str, ast.Module] = {}
DEFS: dict[tuple[str, int], ast.AST] = {}
CLASSES: dict[str, type] = {}
FIELD_TYPES: dict[tuple[str, str], str] = {}  # (class name, field) -> annotation, from contracts
PARAM_TYPES: dict[str, str] = {}


def load() -> None:
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    site = "/opt/venv/lib/python3.12/site-packages"
    if site not in sys.path:
        sys.path.append(site)
    import explorerscript

    for m in pkgutil.walk_packages(explorerscript.__path__, "explorerscript."):
        if m.name.endswith("__main__"):
            continue
        try:
            importlib.import_module(m.name)
        except Exception:
            continue
    for name, mod in list(sys.modules.items()):
        if name == "explorerscript" or name.startswith("explorerscript."):
            for k, v in list(vars(mod).items()):
                if isinstance(v, type) and v.__module__ == name:
                    CLASSES.setdefault(v.__name__, v)


_stored: set[str] | None = None


def class_constant(c: type, name: str) -> Any:
    """The dict a class attribute is bound to, if no code of the repository stores to an attribute of that name or changes it in place."""
    global _stored
    v = has_class_attr(c, name)
    if not isinstance(v, dict):
        return None
    if _stored is None:
        _stored = set()
        for n, m in list(sys.modules.items()):
            if (n == "explorerscript" or n.startswith("explorerscript.")) and ".antlr" not in n and getattr(m, "__file__", None):
                for x in ast.walk(parse_file(m.__file__)):  # type: ignore
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        _stored.add(x.attr)
                    if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Attribute):
                        _stored.add(x.value.attr)
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Attribute) and x.func.attr in ("update", "pop", "clear", "setdefault", "popitem", "__setitem__"):
                        _stored.add(x.func.value.attr)
    return None if name in _stored else v


def in_repo(o: Any) -> bool:
    return str(getattr(o, "__module__", "")).startswith("explorerscript") and ".antlr." not in str(o.__module__)


def iterators(fn: ast.FunctionDef) -> None:
    """it = iter(X); try: while True: ... next(it) ... except StopIteration: return   is a for loop over X (in the try), where next(it) is
    the first thing that is evaluated in the loop and the only use of it."""

    def first(e: ast.expr | None, it: str) -> bool:
        if isinstance(e, ast.Yield):
            return first(e.value, it)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == "next" and len(e.args) == 1 and not e.keywords and isinstance(e.args[0], ast.Name) and e.args[0].id == it:
                return True
            f: ast.expr = e.func
            while isinstance(f, ast.Attribute):
                f = f.value
            return isinstance(f, ast.Name) and bool(e.args) and first(e.args[0], it)
        return False

    for k in range(len(fn.body) - 1):
        a, t = fn.body[k], fn.body[k + 1]
        if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(a.value, ast.Call) and isinstance(a.value.func, ast.Name) and a.value.func.id == "iter" and len(a.value.args) == 1 and not a.value.keywords):
            continue
        it = a.targets[0].id
        if not (isinstance(t, ast.Try) and len(t.body) == 1 and isinstance(t.body[0], ast.While) and isinstance(t.body[0].test, ast.Constant) and t.body[0].test.value is True and not t.body[0].orelse
                and not t.orelse and not t.finalbody and len(t.handlers) == 1 and isinstance(t.handlers[0].type, ast.Name) and t.handlers[0].type.id == "StopIteration" and len(t.handlers[0].body) == 1
                and (isinstance(t.handlers[0].body[0], ast.Pass) or isinstance(t.handlers[0].body[0], ast.Return) and t.handlers[0].body[0].value is None)):
            continue
        w = t.body[0]
        s0 = w.body[0]
        if sum(isinstance(n, ast.Name) and n.id == it for n in ast.walk(fn)) != 2 or not isinstance(s0, (ast.Assign, ast.Expr)) or not first(s0.value, it) or isinstance(s0, ast.Assign) and not (len(s0.targets) == 1 and isinstance(s0.targets[0], ast.Name)):
            continue

        class Next(ast.NodeTransformer):
            def visit_Call(self, n: ast.Call) -> Any:
                self.generic_visit(n)
                if isinstance(n.func, ast.Name) and n.func.id == "next" and len(n.args) == 1 and isinstance(n.args[0], ast.Name) and n.args[0].id == it:
                    return ast.copy_location(ast.Name(it + "__item", ast.Load()), n)
                return n

        w.body[0] = Next().visit(s0)
        f = ast.For(target=ast.Name(it + "__item", ast.Store()), iter=a.value.args[0], body=w.body, orelse=list(t.handlers[0].body), type_comment=None)
        t.body = [ast.fix_missing_locations(ast.copy_location(f, w))]
        fn.body[k] = ast.copy_location(ast.Pass(), a)


def parse_file(path: str) -> ast.Module:
    if path not in FILES:
        with open(path, encoding="utf-8") as fh:
            FILES[path] = ast.parse(fh.read(), path)
        for n in ast.walk(FILES[path]):
            if isinstance(n, ast.FunctionDef):
                iterators(n)
        for n in ast.walk(FILES[path]):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                line = n.lineno
                if isinstance(n, ast.FunctionDef) and n.decorator_list:
                    line = min(d.lineno for d in n.decorator_list)
                DEFS.setdefault((path, line), n)
    return FILES[path]


def func_ast(fn: types.FunctionType) -> ast.FunctionDef:
    path = fn.__code__.co_filename
    parse_file(path)
    n = DEFS.get((path, fn.__code__.co_firstlineno))
    if not isinstance(n, ast.FunctionDef) or n.name != fn.__name__:
        raise Unsupported(f"no source for {fn!r}")
    return n


def qual(fn: Any) -> str:
    return f"{fn.__module__}:{fn.__qualname__}"


def resolve(q: str) -> Any:
    mod, name = q.split(":")
    o: Any = importlib.import_module(mod)
    parts = name.split(".")
    for i, p in enumerate(parts):
        if isinstance(o, type) and i == len(parts) - 1:
            for k in o.__mro__:
                if p in vars(k):
                    o = vars(k)[p]
                    break
            else:
                raise AttributeError(q)
        else:
            o = getattr(o, p)
    return o


LISTY = {"list", "List", "MutableSequence", "Sequence", "Iterable", "Iterator", "Generator", "Collection"}
DICTY = {"dict", "Dict", "Mapping", "MutableMapping"}


def ann_type(node: ast.AST | None, g: dict[str, Any]) -> tuple:
    if node is None:
        return T_ANY
    if isinstance(node, ast.Constant):
        if node.value is None:
            return T_NONE
        if isinstance(node.value, str):
            return ann_type(ast.parse(node.value, mode="eval").body, g)
        return T_ANY
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
        return t_union(ann_type(node.left, g), ann_type(node.right, g))
    if isinstance(node, ast.Name):
        return name_type(node.id, g)
    if isinstance(node, ast.Attribute):
        try:
            o = eval(compile(ast.Expression(node), "ann", "eval"), g)
        except Exception:
            return CLASSES.get(node.attr) and ("cls", CLASSES[node.attr]) or T_ANY
        return rt_type(o)
    if isinstance(node, ast.Subscript):
        base = node.value.id if isinstance(node.value, ast.Name) else getattr(node.value, "attr", "")
        args = list(node.slice.elts) if isinstance(node.slice, ast.Tuple) else [node.slice]
        if base in LISTY:
            return ("list", ann_type(args[0], g))
        if base in DICTY:
            return ("dict", ann_type(args[0], g), ann_type(args[1], g))
        if base in ("set", "Set", "frozenset"):
            return ("set", ann_type(args[0], g))
        if base == "Optional":
            return t_union(ann_type(args[0], g), T_NONE)
        if base == "Union":
            return t_union(*[ann_type(a, g) for a in args])
        if base in ("tuple", "Tuple"):
            if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                return T_ANY
            return ("tup", tuple(ann_type(a, g) for a in args))
        if base in ("type", "Type", "Callable"):
            return T_ANY
        return ann_type(node.value, g)
    return T_ANY


def name_type(n: str, g: dict[str, Any]) -> tuple:
    prim = {"int": T_INT, "str": T_STR, "bool": T_BOOL, "None": T_NONE, "Any": T_ANY, "object": T_ANY, "float": T_ANY}
    if n in prim:
        return prim[n]
    if n in ("list", "List", "MutableSequence", "Sequence"):
        return ("list", T_ANY)
    if n in ("dict", "Dict"):
        return ("dict", T_ANY, T_ANY)
    if n == "opaque":
        return T_OPQ
    o = g.get(n)
    if o is None:
        o = CLASSES.get(n)
    return rt_type(o)


def rt_type(o: Any) -> tuple:
    if o is None or o is type(None):
        return T_NONE if o is type(None) else T_ANY
    if isinstance(o, typing.TypeVar):
        if o.__name__ == "CTX":
            return T_OPQ
        return T_ANY
    org = typing.get_origin(o)
    if org is not None:
        a = typing.get_args(o)
        if org in (typing.Union, types.UnionType):
            return t_union(*[rt_type(x) for x in a])
        if org in (list,):
            return ("list", rt_type(a[0]))
        if org is dict:
            return ("dict", rt_type(a[0]), rt_type(a[1]))
        if isinstance(org, type):
            return rt_type(org)
        return T_ANY
    if isinstance(o, typing.ForwardRef):
        return name_type(o.__forward_arg__.split("[")[0], {})
    if isinstance(o, type):
        if o in (int, str, bool):
            return (o.__name__,)
        if o is list:
            return ("list", T_ANY)
        if in_repo(o):
            import enum

            if issubclass(o, enum.Enum):
                return t_union(*[("con", con_id(m)) for m in o])
            return ("cls", o)
        if o.__module__.startswith(("antlr4", "explorerscript.antlr", "explorerscript_parser", "igraph")):
            return T_OPQ
    return T_ANY


_ft: dict[tuple[type, str], tuple | None] = {}


def field_type(cls: type, name: str) -> tuple | None:
    """Declared type of the field, None when the class has no such field."""
    k = (cls, name)
    if k in _ft:
        return _ft[k]
    r: tuple | None = None
    for c in cls.__mro__:
        if (c.__name__, name) in FIELD_TYPES:
            r = ann_type(ast.parse(FIELD_TYPES[(c.__name__, name)], mode="eval").body, sys.modules[c.__module__].__dict__)
            break
        if not in_repo(c):
            continue
        r1 = _class_field(c, name)
        r = r1 if r1 is not None else r  # (an assignment that says no type does not hide the declaration in a base class)
        if r is not None and r != T_ANY:
            break
    _ft[k] = r
    return r


def class_node(c: type) -> ast.ClassDef | None:
    m = sys.modules.get(c.__module__)
    if m is None or not getattr(m, "__file__", None):
        return None
    tree = parse_file(m.__file__)  # type: ignore
    cur: Any = tree
    for p in c.__qualname__.split("."):
        if p == "<locals>":
            return None
        for n in cur.body:
            if isinstance(n, ast.ClassDef) and n.name == p:
                cur = n
                break
        else:
            return None
    return cur


def _class_field(c: type, name: str) -> tuple | None:
    node = class_node(c)
    if node is None:
        return None
    g = sys.modules[c.__module__].__dict__
    for n in node.body:
        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
            return ann_type(n.annotation, g)
    found: tuple | None = None
    for fn in node.body:
        if not isinstance(fn, ast.FunctionDef):
            continue
        params = {a.arg: a.annotation for a in fn.args.args + fn.args.kwonlyargs}
        for n in ast.walk(fn):
            tgt = None
            if isinstance(n, ast.AnnAssign):
                tgt, ann, val = n.target, n.annotation, n.value
            elif isinstance(n, ast.Assign) and len(n.targets) == 1:
                tgt, ann, val = n.targets[0], None, n.value
            if isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == "self" and tgt.attr == name:
                if ann is not None:
                    return ann_type(ann, g)
                if isinstance(val, ast.Name) and params.get(val.id) is not None:
                    t = ann_type(params[val.id], g)
                elif isinstance(val, ast.Constant) and val.value is not None:
                    t = rt_type(type(val.value))
                else:
                    t = T_ANY
                found = t if found is None else t_union(found, t)
    return found


def has_class_attr(c: type, name: str) -> Any:
    for k in c.__mro__:
        if name in vars(k):
            return vars(k)[name]
    return None
