"""Values, types and the universal z3 datatype."""
from __future__ import annotations

import enum
from typing import Any

import z3

z3.set_param("smt.random_seed", 1)

_d = z3.Datatype("V")
_d.declare("mk_int", ("i", z3.IntSort()))
_d.declare("mk_str", ("s", z3.StringSort()))
_d.declare("mk_bool", ("b", z3.BoolSort()))
_d.declare("none")
_d.declare("mk_ref", ("r", z3.IntSort()))
_d.declare("mk_con", ("c", z3.IntSort()))
_d.declare("mk_opq", ("o", z3.IntSort()))
_d.declare("nil")
_d.declare("pair", ("fst", _d), ("snd", _d))
V = _d.create()
SEQ = z3.SeqSort(V)
SET = z3.ArraySort(V, z3.BoolSort())
MAP = z3.ArraySort(V, V)
INT, STR, BOOL = z3.IntSort(), z3.StringSort(), z3.BoolSort()
SORTS = {"int": INT, "str": STR, "bool": BOOL}


class Unsupported(Exception):
    """Outside the verifier's reach: the unit's obligations are reported as unknown."""


# ---- types: ('int',) ('str',) ('bool',) ('none',) ('cls', C) ('list', T) ('dict', K, W) ('set', T) ('tup', (..)) ('union', (..)) ('any',) ('opq',) ('con', obj)
T_INT, T_STR, T_BOOL, T_NONE, T_ANY, T_OPQ = ("int",), ("str",), ("bool",), ("none",), ("any",), ("opq",)


def t_union(*ts: tuple) -> tuple:
    out: list[tuple] = []
    for t in ts:
        for a in t[1] if t[0] == "union" else (t,):
            if a == T_ANY:
                return T_ANY
            if a not in out:
                out.append(a)
    return out[0] if len(out) == 1 else ("union", tuple(out))


def alts(t: tuple) -> tuple:
    return t[1] if t[0] == "union" else (t,)


class Val:
    pass


class Con(Val):
    """A runtime object of the interpreter (a constant, class, function, module or enum member)."""

    __slots__ = ("v",)

    def __init__(self, v: Any):
        self.v = v

    def __repr__(self) -> str:
        return f"Con({self.v!r})"


class Sy(Val):
    __slots__ = ("sort", "t")

    def __init__(self, sort: str, t: Any):
        self.sort, self.t = sort, t

    def __repr__(self) -> str:
        return f"{self.sort}:{self.t}"


class U(Val):
    """A value of a union type, t is a V term."""

    __slots__ = ("t", "ty")

    def __init__(self, t: Any, ty: tuple):
        self.t, self.ty = t, ty

    def __repr__(self) -> str:
        return f"U({self.t}:{self.ty})"


class Obj(Val):
    """A heap object; ty: ('cls', C) / ('list', T) / ('dict', K, W) / ('set', T)."""

    __slots__ = ("t", "ty", "exact", "it")

    def __init__(self, t: Any, ty: tuple, exact: bool = False, it: bool = False):
        self.t, self.ty, self.exact, self.it = t, ty, exact, it

    def __repr__(self) -> str:
        return f"Obj({self.t}:{self.ty})"


class Opq(Val):
    __slots__ = ("t",)

    def __init__(self, t: Any):
        self.t = t

    def __repr__(self) -> str:
        return f"Opq({self.t})"


class Tup(Val):
    __slots__ = ("items",)

    def __init__(self, items: Any):
        self.items = tuple(items)

    def __repr__(self) -> str:
        return f"Tup{self.items}"


class Meth(Val):
    __slots__ = ("slf", "name", "fn")

    def __init__(self, slf: Val, name: str, fn: Any = None):
        self.slf, self.name, self.fn = slf, name, fn

    def __repr__(self) -> str:
        return f"Meth({self.slf}.{self.name})"


class Clo(Val):
    """A lambda or a generator expression (or spec function)."""

    __slots__ = ("node", "frame")

    def __init__(self, node: Any, frame: Any):
        self.node, self.frame = node, frame


class SeqVal(Val):
    """The content of a list: segments ('u', Val) | ('s', z3 Seq term, elemtype)."""

    __slots__ = ("segs",)

    def __init__(self, segs: Any):
        self.segs = tuple(segs)

    def __repr__(self) -> str:
        return "Seq" + repr([s[1] for s in self.segs])


class SetVal(Val):
    __slots__ = ("t", "et")

    def __init__(self, t: Any, et: tuple = T_ANY):
        self.t, self.et = t, et


class DictVal(Val):
    """dom: SET, m: MAP, keys: SeqVal in insertion order, conc: {python const: Val} if wholly concrete."""

    __slots__ = ("keys", "dom", "m", "kt", "vt", "vals")

    def __init__(self, keys: SeqVal, dom: Any, m: Any, kt: tuple = T_ANY, vt: tuple = T_ANY, vals: Any = None):
        self.keys, self.dom, self.m, self.kt, self.vt = keys, dom, m, kt, vt
        self.vals = vals or {}  # key term -> Val as stored


_con_ids: dict[int, int] = {}
_con_objs: list[Any] = []


def con_id(o: Any) -> int:
    k = id(o)
    if k not in _con_ids:
        _con_ids[k] = len(_con_objs)
        _con_objs.append(o)
    return _con_ids[k]


_tags: dict[type, int] = {}
_tag_cls: list[type] = []


def tag_of(c: type) -> int:
    if c not in _tags:
        _tags[c] = len(_tag_cls)
        _tag_cls.append(c)
    return _tags[c]


TAG = z3.Function("TAG", INT, INT)
TXT = z3.Function("TXT", INT, STR)  # str() of an opaque object
PSTR = z3.Function("PSTR", V, STR)  # str() of a value
I2S = z3.Function("I2S", INT, STR)


def is_num(t: Any) -> bool:
    return z3.is_int_value(t)


def lit(v: Any) -> Any:
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, str):
        return z3.StringVal("".join(c if 32 <= ord(c) < 127 and c != "\\" else "\\u{%x}" % ord(c) for c in v))
    raise Unsupported(f"literal {v!r}")


def box(v: Val) -> Any:
    if isinstance(v, Con):
        o = v.v
        if o is None:
            return V.none
        if isinstance(o, bool):
            return V.mk_bool(lit(o))
        if type(o) is int:
            return V.mk_int(lit(o))
        if type(o) is str:
            return V.mk_str(lit(o))
        if isinstance(o, tuple):
            return box(Tup([Con(x) for x in o]))
        return V.mk_con(z3.IntVal(con_id(o)))
    if isinstance(v, Sy):
        return {"int": V.mk_int, "str": V.mk_str, "bool": V.mk_bool}[v.sort](v.t)
    if isinstance(v, U):
        return v.t
    if isinstance(v, Obj):
        if z3.is_app(v.t) and v.t.decl().eq(V.r):
            return v.t.arg(0)
        return V.mk_ref(v.t)
    if isinstance(v, Opq):
        if z3.is_app(v.t) and v.t.decl().eq(V.o):
            return v.t.arg(0)
        return V.mk_opq(v.t)
    if isinstance(v, Tup):
        t = V.nil
        for x in reversed(v.items):
            t = V.pair(box(x), t)
        return t
    raise Unsupported(f"box {type(v).__name__}")


def _acc(acc: Any, mk: Any, t: Any) -> Any:
    return t.arg(0) if z3.is_app(t) and t.decl().eq(mk) else acc(t)


def un_int(t: Any) -> Any:
    return _acc(V.i, V.mk_int, t)


def un_str(t: Any) -> Any:
    return _acc(V.s, V.mk_str, t)


def un_bool(t: Any) -> Any:
    return _acc(V.b, V.mk_bool, t)


def un_ref(t: Any) -> Any:
    return _acc(V.r, V.mk_ref, t)


def un_opq(t: Any) -> Any:
    return _acc(V.o, V.mk_opq, t)


def pyconst(t: Any) -> Any:
    """The Python constant of a literal z3 term, or None."""
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    if z3.is_string_value(t):
        s = t.as_string()
        import re

        return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)
    return None


def type_of(v: Val) -> tuple:
    if isinstance(v, Con):
        o = v.v
        if o is None:
            return T_NONE
        if isinstance(o, bool):
            return T_BOOL
        if type(o) is int:
            return T_INT
        if type(o) is str:
            return T_STR
        if isinstance(o, tuple):
            return ("tup", tuple(type_of(Con(x)) for x in o))
        return ("con", con_id(o))
    if isinstance(v, Sy):
        return (v.sort,)
    if isinstance(v, U):
        return v.ty
    if isinstance(v, Obj):
        return v.ty
    if isinstance(v, Opq):
        return T_OPQ
    if isinstance(v, Tup):
        return ("tup", tuple(type_of(x) for x in v.items))
    raise Unsupported(f"type of {type(v).__name__}")


def kind_test(t: Any, ty: tuple) -> Any:
    """V term t has the kind of ty (a non-union)."""
    k = ty[0]
    if k == "int":
        return V.is_mk_int(t)
    if k == "str":
        return V.is_mk_str(t)
    if k == "bool":
        return V.is_mk_bool(t)
    if k == "none":
        return V.is_none(t)
    if k in ("list", "dict", "set"):
        return z3.And(V.is_mk_ref(t), TAG(un_ref(t)) == tag_of({"list": list, "dict": dict, "set": set}[k]))
    if k == "cls":
        return z3.And(V.is_mk_ref(t), z3.Or([TAG(un_ref(t)) == tag_of(c) for c in subs(ty[1])]))
    if k == "opq":
        return V.is_mk_opq(t)
    if k == "con":
        return t == V.mk_con(z3.IntVal(ty[1]))
    if k == "tup":
        out = []
        for x in ty[1]:
            out.append(V.is_pair(t))
            out.append(z3.Or([kind_test(V.fst(t), a) for a in alts(x)]) if x != T_ANY else z3.BoolVal(True))
            t = V.snd(t)
        return z3.And(*out, V.is_nil(t))
    return z3.BoolVal(True)


_subs: dict[type, tuple[type, ...]] = {}


def subs(c: type) -> tuple[type, ...]:
    """c and all its loaded subclasses (closed world)."""
    if c not in _subs:
        out: list[type] = []

        def go(x: type) -> None:
            if x not in out:
                out.append(x)
                for s in x.__subclasses__():
                    go(s)

        go(c)
        _subs[c] = tuple(sorted(out, key=lambda x: (x.__module__, x.__qualname__)))
    return _subs[c]


def is_enum(o: Any) -> bool:
    return isinstance(o, enum.Enum)
