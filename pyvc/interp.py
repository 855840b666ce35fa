"""Statements, expressions, calls and contracts."""
from __future__ import annotations

import ast
import builtins
import enum
import inspect
import sys
import types
from typing import Any

import os

import z3

from . import core, prog
from .core import *  # noqa: F401,F403
from .core import _is_gen, _walk_own
from .vals import *  # noqa: F401,F403
from . import vals as _vals

CMP = {ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b, ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b}
_MUT = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "add", "discard", "sort", "reverse"}
EXTERNAL: dict[str, Any] = {}  # qualified external function -> handler(exec, args, kwargs)


def external(name: str) -> Any:
    def deco(fn: Any) -> Any:
        EXTERNAL[name] = fn
        return fn

    return deco


class Interp(Exec):
    newbase = 0  # while a callee's postconditions are assumed: objects made before the call
    # -------------------------------------------------------------- units
    def run_unit(self, fnobj: Any) -> None:
        c = self.u.c
        if c.lemma is not None:
            self.frames.append(Frame(None, {}, None))
            c.lemma(self)
            if self.u.vac != "sat":
                self.check_vacuity()
            return
        cls = None
        if isinstance(fnobj, property):
            fnobj = fnobj.fget
        kind = "plain"
        if isinstance(fnobj, classmethod):
            kind, fnobj = "class", fnobj.__func__
        if isinstance(fnobj, staticmethod):
            fnobj = fnobj.__func__
        node = prog.func_ast(fnobj)
        owner = None
        qn = fnobj.__qualname__.split(".")
        if len(qn) > 1:
            owner = prog.resolve(f"{fnobj.__module__}:{'.'.join(qn[:-1])}")
        if c.cls:
            owner_self = prog.CLASSES[c.cls] if ":" not in c.cls else prog.resolve(c.cls)
        else:
            owner_self = owner
        fr = Frame(fnobj, fnobj.__globals__, node, cls=owner)
        fr.spec = c
        self.frames.append(fr)
        a = node.args
        allp = [*a.posonlyargs, *a.args, *a.kwonlyargs]
        for i, p in enumerate(allp):
            if i == 0 and owner is not None and p.arg in ("self", "cls") and (kind == "class" or p.arg == "self"):
                if kind == "class":
                    fr.loc[p.arg] = Con(owner_self)
                    continue
                v: Val = self.fresh_val(("cls", owner_self), "self", old=True)
                assert isinstance(v, Obj)
                v.exact = c.self_exact
                if c.self_exact:
                    self.assume(TAG(v.t) == tag_of(owner_self))
                fr.loc[p.arg] = v
                continue
            if p.arg in c.params:
                ty = prog.ann_type(ast.parse(c.params[p.arg], mode="eval").body, {**fnobj.__globals__})
            else:
                ty = prog.ann_type(p.annotation, fnobj.__globals__)
            fr.loc[p.arg] = self.fresh_val(ty, p.arg, old=True)
        if a.vararg:
            fr.loc[a.vararg.arg] = Tup([])
        if a.kwarg:
            fr.loc[a.kwarg.arg] = Con({})
        if _is_gen(node):
            fr.yields = fr.loc["yielded"] = self.new_list([])
        self.saved["old"] = (self.heap_copy(), dict(fr.loc))
        self.entrycc = self.cc
        self.catching, self.unit_any_exc = [], c.any_exc
        for r in c.requires:
            self.assume(self.zb(self.spec_bool(r, fr)))
        for r in c.assume:
            self.u.trusted.add(f"on entry of {c.name}: {r}")
            self.assume_spec(r, fr)
        self.saved["old"] = (self.heap_copy(), dict(fr.loc))
        if self.u.vac != "sat":
            self.check_vacuity()
        result: Val = Con(None)
        try:
            try:
                self.ex_body(node.body)
            except Ret as r:
                result = r.v
            if fr.yields is not None:
                result = fr.yields
        except PyExc as e:
            self.handle_exc(c, e, fr)
            return
        fr.loc["result"] = result
        for k, e in c.let.items():
            fr.loc[k] = self.spec_val(e, fr)
        for s in c.ensures:
            self.prove(f"post: {s}", self.zb(self.spec_bool(s, fr)))
        for s in c.checks:
            self.prove(f"check: {s}", self.zb(self.spec_bool(s, fr)))
        self.check_frame(c, fr)

    def check_vacuity(self) -> None:
        r, _ = solve([f for _, f in self.pc], 5000)
        self.u.vac = r

    def handle_exc(self, c: C, e: PyExc, fr: Frame) -> None:
        for k in e.cls.__mro__:
            if k.__name__ in c.raises:
                s = c.raises[k.__name__]
                if s != "True":
                    self.prove(f"raises {k.__name__} only if: {s}", self.zb(self.spec_bool(s, fr, at_old=True)))
                self.exc_exit(c, fr)
                return
        if c.any_exc:
            if any(k.__name__ in c.never for k in e.cls.__mro__):
                self.prove(f"no {e.cls.__name__} leaves the function", False)
            self.exc_exit(c, fr)
            return
        self.prove(f"no {e.cls.__name__} ({e.where})", False)

    def exc_exit(self, c: C, fr: Frame) -> None:
        for s in c.exc:
            self.prove(f"post (exception): {s}", self.zb(self.spec_bool(s, fr)))
        self.check_frame(c, fr)

    def heap_copy(self) -> dict:
        return {k: list(v) for k, v in self.heap.items()}

    def loc_specs(self, c: C, fr: Frame, specs: list[str]) -> list[tuple]:
        """Locations of a modifies clause: [(key, ref or None, type)]"""
        out: list[tuple] = []
        for m in specs:
            if m == "*":
                out.append(("*", None, None))
                continue
            if m.startswith("*."):
                out.append((("f", m[2:]), None, None))
                continue
            if m.startswith("items(*"):
                ty = prog.ann_type(ast.parse(m[8:-1].strip() or "Any", mode="eval").body, fr.g) if ":" in m else T_ANY
                out.append(("list", None, None if ty == T_ANY else ("list", ty)))
                continue
            n = ast.parse(m, mode="eval").body
            guard = None
            if isinstance(n, ast.Attribute):
                o = self.spec_ev(n.value, fr, at_old=True)
                if isinstance(o, U):
                    o = Obj(un_ref(o.t), ("cls", object))
                out.append((("f", n.attr), o.t, None))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("items", "dict", "set"):
                o = self.spec_ev(n.args[0], fr, at_old=True)
                out.append(({"items": "list"}.get(n.func.id, n.func.id), o.t, o.ty))
            else:
                raise Unsupported(f"modifies {m}")
        return out

    def check_frame(self, c: C, fr: Frame) -> None:
        locs = self.loc_specs(c, fr, c.modifies)
        if any(x[0] == "*" for x in locs):
            return
        base = self.saved["old"][0]
        for key, log in self.heap.items():
            for e in log[len(base.get(key, [])) :]:
                if e[0] == "h":
                    if not any(k == key and r is None for k, r, _ in locs):
                        self.prove(f"frame: {self.keyname(key)} of any object is modified", False)
                    continue
                ref = e[1]
                if is_num(ref) and ref.as_long() < 0:
                    continue
                if any(k == key and (r is None or r.eq(ref)) for k, r, _ in locs):
                    continue
                goals = [r == ref for k, r, _ in locs if k == key and r is not None]
                self.prove(f"frame: only the declared locations are modified ({self.keyname(key)})", z3.Or([ref < 0, *goals]))

    def keyname(self, key: Any) -> str:
        return "." + key[1] if isinstance(key, tuple) else str(key)

    # -------------------------------------------------------------- spec evaluation
    def spec_ev(self, n: ast.AST, fr: Frame, at_old: bool = False) -> Any:
        self.spec += 1
        saved = self.heap
        try:
            if at_old:
                h, loc = self.saved["old"]
                f2 = Frame(fr.fn, fr.g, fr.node, cls=fr.cls)
                f2.loc = loc
                self.heap = {k: list(v) for k, v in h.items()}
                return self.in_frame(f2, lambda: self.merged(lambda: self.ev(n)))
            return self.in_frame(fr, lambda: self.merged(lambda: self.ev(n)))
        finally:
            self.spec -= 1
            if at_old:
                self.heap = saved

    def in_frame(self, fr: Frame, th: Any) -> Any:
        self.frames.append(fr)
        try:
            return th()
        finally:
            self.frames.pop()

    def spec_val(self, s: str, fr: Frame, at_old: bool = False) -> Val:
        try:
            return self.spec_ev(ast.parse(s, mode="eval").body, fr, at_old)
        except Unsupported as e:
            if " in: " in str(e):
                raise
            raise Unsupported(f"{e} in: {s}")

    GROW = ("folds", "keepalive", "factdone", "old", "esc_refs", "lo", "hi", "canon", "nths", "decomp", "foldfns", "esc")

    def spec_bool(self, s: str, fr: Frame, at_old: bool = False) -> Any:
        if self.local is not None or self.spec or self.eldepth or core.TOKENS[0] is not None:
            return self.truth(self.spec_val(s, fr, at_old))
        # paths with a common beginning: what was found out there is not computed again
        self.mc += 1
        key = (tuple(self.dec[: self.pos]), self.mc)
        m = self.u.memo.get(key)
        if m is not None:
            assert m[0] == (s, at_old)
            _, v, pcs, cc, mapc, grown = m
            for k, f in pcs:
                self.add(k, f)
            self.cc = cc
            self.mapcount = mapc
            for name, d in grown.items():
                c = getattr(self, name)
                if isinstance(c, list):
                    c += d
                elif name == "nths":
                    for a, b in d.items():
                        c[a] = list(b)
                else:
                    c.update(d)
            return v
        n = len(self.pc)
        sizes = {k: len(v) for k, v in self.heap.items()}
        refc, pos, dlen = self.refc, self.pos, len(self.dec)
        before = {}
        for name in self.GROW:
            c = getattr(self, name)
            before[name] = len(c) if isinstance(c, list) else set(c) if isinstance(c, set) else {a: (list(b) if name == "nths" else b) for a, b in c.items()}
        v = self.truth(self.spec_val(s, fr, at_old))
        if refc == self.refc and pos == self.pos and {k: len(e) for k, e in self.heap.items() if e} == {k: e for k, e in sizes.items() if e} and len(self.dec) == dlen:
            grown = {}
            for name in self.GROW:
                c, b = getattr(self, name), before[name]
                if isinstance(c, list):
                    d: Any = c[b:]
                elif isinstance(c, set):
                    d = c - b
                else:
                    d = {a: (list(x) if name == "nths" else x) for a, x in c.items() if a not in b or b[a] is not x and b[a] != x}
                if d:
                    grown[name] = d
            if core.TOKENS[0] is None:
                self.u.memo[key] = ((s, at_old), v, self.pc[n:], self.cc, getattr(self, "mapcount", 0), grown)
        return v

    # -------------------------------------------------------------- statements
    @property
    def fr(self) -> Frame:
        return self.frames[-1]

    def ex_body(self, body: list) -> None:
        for s in body:
            self.ex(s)

    def ex(self, s: ast.stmt) -> None:
        m = getattr(self, "ex_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        m(s)

    def ex_Pass(self, s: Any) -> None:
        pass

    def ex_Import(self, s: Any) -> None:
        raise Unsupported("import in a function")

    def ex_ImportFrom(self, s: ast.ImportFrom) -> None:
        import importlib

        if s.level or not (s.module or "").startswith("explorerscript"):
            raise Unsupported("import in a function")
        m = importlib.import_module(s.module)
        for a in s.names:
            self.fr.loc[a.asname or a.name] = Con(getattr(m, a.name))
    ex_Global = ex_Import

    def ex_Expr(self, s: ast.Expr) -> None:
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            self.fr.yields and self.set_items(self.fr.yields, self.seqcat(self.items(self.fr.yields), SeqVal([("u", self.ev(s.value.value))])))  # type: ignore
            return
        self.ev(s.value)

    def ex_Return(self, s: ast.Return) -> None:
        raise Ret(self.ev(s.value) if s.value is not None else Con(None))

    def ex_Break(self, s: Any) -> None:
        raise Brk()

    def ex_Continue(self, s: Any) -> None:
        raise Cnt()

    def ex_Assert(self, s: ast.Assert) -> None:
        if not self.branch(self.truth(self.ev(s.test))):
            raise PyExc(AssertionError, where=ast.unparse(s.test)[:60])

    def ex_If(self, s: ast.If) -> None:
        if self.branch(self.truth(self.ev(s.test))):
            self.ex_body(s.body)
        else:
            self.ex_body(s.orelse)

    def ex_Raise(self, s: ast.Raise) -> None:
        if s.exc is None:
            h = getattr(self, "handled", [])
            raise PyExc(h[-1], where="re-raise") if h else PyExc(Exception, where="re-raise")
        v = None
        if isinstance(s.exc, ast.Call) and isinstance(self.ev(s.exc.func), Con):
            f = self.ev(s.exc.func)
            assert isinstance(f, Con)
            if isinstance(f.v, type) and issubclass(f.v, BaseException):
                # the message is not evaluated (only formatting)
                raise PyExc(f.v, where=f"raise in {self.fr.fn.__name__ if self.fr.fn else ''}")
        v = self.ev(s.exc)
        if isinstance(v, Con) and isinstance(v.v, type):
            raise PyExc(v.v, where="raise")
        if isinstance(v, Obj) and v.ty[0] == "cls" and issubclass(v.ty[1], BaseException):
            raise PyExc(v.ty[1], v, "raise")
        raise Unsupported("raise")

    def ex_Try(self, s: ast.Try) -> None:
        was = self.catching
        try:
            try:
                self.catching = [*was, *self.caught(s)]
                try:
                    self.ex_body(s.body)
                finally:
                    self.catching = was
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        c = self.ev(h.type)
                        if not isinstance(c, Con) and not isinstance(c, Tup):
                            raise Unsupported("except")
                        cl = c.v if isinstance(c, Con) else tuple(x.v for x in c.items)  # type: ignore
                        ok = issubclass(e.cls, cl)
                    if ok:
                        if h.name:
                            self.fr.loc[h.name] = Opq(self.const("exc", INT))
                        self.handled = [*getattr(self, "handled", []), e.cls]
                        try:
                            self.ex_body(h.body)
                        finally:
                            self.handled = self.handled[:-1]
                        break
                else:
                    raise
            else:
                self.ex_body(s.orelse)
        finally:
            et = sys.exc_info()[0]
            if s.finalbody and (et is None or et in (PyExc, Ret, Brk, Cnt)):
                self.ex_body(s.finalbody)

    def caught(self, s: ast.Try) -> list[type]:
        """Exceptions that make a difference to the statement."""
        out: list[type] = [Exception]
        for h in s.handlers:
            if h.type is not None:
                c = self.ev(h.type)
                out += [c.v] if isinstance(c, Con) else [x.v for x in c.items] if isinstance(c, Tup) else []
        return out

    def ex_With(self, s: ast.With) -> None:
        mgrs = []
        was = self.catching
        for it in s.items:
            m = self.ev(it.context_expr)
            v = self.call(self.getattr_(m, "__enter__"), [], {})
            mgrs.append(m)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        self.catching = [*was, Exception]
        try:
            self.ex_body(s.body)
        finally:
            self.catching = was
            et = sys.exc_info()[0]
            if et is None or et in (PyExc, Ret, Brk, Cnt):
                for m in reversed(mgrs):
                    self.call(self.getattr_(m, "__exit__"), [Con(None), Con(None), Con(None)], {})

    def ex_Assign(self, s: ast.Assign) -> None:
        v = self.ev(s.value)
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, (ast.List, ast.Dict)) and not (s.value.elts if isinstance(s.value, ast.List) else s.value.keys):
            name, c = s.targets[0].id, self.fr.spec
            a = self.fr.anns.get(name) or next((ast.parse(x.types[name], mode="eval").body for x in (c.loops.values() if c is not None else ()) if name in x.types), None)
            if a is not None:
                v = self.declare(v, a)
        for t in s.targets:
            self.assign(t, v)

    def declare(self, v: Val, annotation: ast.AST) -> Val:
        """A new empty container gets the element type of the variable it is made for."""
        if isinstance(v, Obj) and v.ty in (("list", T_ANY), ("set", T_ANY), ("dict", T_ANY, T_ANY)) and is_num(v.t):
            ty = prog.ann_type(annotation, self.fr.g)
            if ty[0] == v.ty[0]:
                log = self.heap.get(ty[0], [])
                for k, e in enumerate(log):
                    if e[0] == "w" and e[1].eq(v.t):
                        log[k] = (*e[:3], ty)
                return Obj(v.t, ty, v.exact)
        return v

    def ex_AnnAssign(self, s: ast.AnnAssign) -> None:
        if s.value is None:
            return
        v = self.ev(s.value)
        self.assign(s.target, self.declare(v, s.annotation))

    def ex_AugAssign(self, s: ast.AugAssign) -> None:
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.Name(t.id, ast.Load()))
            self.assign(t, self.augop(s.op, cur, self.ev(s.value)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr_(o, t.attr)
            v = self.augop(s.op, cur, self.ev(s.value))
            self.setattr_(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o, i = self.ev(t.value), self.ev_index(t.slice)
            v = self.augop(s.op, self.subscript(o, i), self.ev(s.value))
            self.setitem(o, i, v)
        else:
            raise Unsupported("augmented assignment")

    def augop(self, op: ast.operator, a: Val, b: Val) -> Val:
        if isinstance(a, U):
            a = self.force(a)
        if isinstance(a, Obj) and a.ty[0] == "list" and isinstance(op, ast.Add):
            self.list_extend(a, b)
            return a
        if isinstance(a, Obj) and a.ty[0] == "set" and isinstance(op, ast.BitOr):
            self.hwrite("set", a, SetVal(z3.SetUnion(self.setv(a).t, self.setterm(b))))
            return a
        return self.binop(op, a, b)

    def list_extend(self, a: Obj, b: Val) -> None:
        add = SeqVal([("u", v) if k == "u" else (k, v, *r) for k, v, *r in [*self.iter_seq(b).segs]])
        self.set_items(a, self.seqcat(self.items(a), add))

    def ex_Delete(self, s: ast.Delete) -> None:
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o, i = self.ev(t.value), self.ev_index(t.slice)
                if isinstance(o, U):
                    o = self.force(o)
                if isinstance(o, Obj) and o.ty[0] == "list":
                    self.list_pop(o, i)
                    continue
                if isinstance(o, Obj) and o.ty[0] == "dict":
                    d = self.dict(o)
                    if not self.branch(self.contains(o, i)):
                        raise PyExc(KeyError, where="del")
                    self.dict_del(o, d, i)
                    continue
            raise Unsupported("del")

    def dict_del(self, o: Obj, d: DictVal, k: Val) -> None:
        b = box(k)
        segs = []
        for g in d.keys.segs:
            if g[0] == "u" and self.provable(box(g[1]) == b):
                continue
            if g[0] == "u" and self.provable(box(g[1]) != b):
                segs.append(g)
                continue
            raise Unsupported("del of a symbolic key")
        vals = {kk: v for kk, v in d.vals.items() if not kk.eq(b)}
        self.hwrite("dict", o, DictVal(SeqVal(segs), z3.SetDel(d.dom, b), d.m, d.kt, d.vt, vals))

    def assign(self, t: ast.AST, v: Val) -> None:
        if isinstance(t, ast.Name):
            self.fr.loc[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o, i = self.ev(t.value), self.ev_index(t.slice)
            self.setitem(o, i, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.force(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if isinstance(v, Tup) and not star:
                if len(v.items) != len(t.elts):
                    raise PyExc(ValueError, where="unpack")
                for e, x in zip(t.elts, v.items):
                    self.assign(e, x)
                return
            s = self.items(v)
            n = self.seqlen(s)
            if star:
                k, m = star[0], len(t.elts) - star[0] - 1
                if not self.branch(n >= k + m):
                    raise PyExc(ValueError, where="unpack")
                for j in range(k):
                    self.assign(t.elts[j], self.seq_at(s, j, False))
                for j in range(m):
                    self.assign(t.elts[len(t.elts) - 1 - j], self.seq_at(s, -1 - j, False))
                self.assign(t.elts[k].value, self.new_list(self.seq_slice(s, k, -m if m else None), self.elemtype(s)))  # type: ignore
                return
            if not self.branch(n == len(t.elts)):
                raise PyExc(ValueError, where="unpack")
            for j, e in enumerate(t.elts):
                self.assign(e, self.seq_at(s, j, False))
        else:
            raise Unsupported("assignment target")

    # -------------------------------------------------------------- loops
    def iter_seq(self, v: Val) -> SeqVal:
        """The elements an iteration over v yields, as a sequence."""
        if isinstance(v, U):
            v = self.force(v)
        if isinstance(v, (SeqVal,)):
            return v
        if isinstance(v, Clo):
            return self.items(self.new_comp(v))
        if isinstance(v, Con) and isinstance(v.v, (list, tuple, range, dict, str)):
            return SeqVal([("u", Con(x)) for x in v.v])
        if isinstance(v, Con) and isinstance(v.v, type) and issubclass(v.v, enum.Enum):
            return SeqVal([("u", Con(x)) for x in v.v])
        if isinstance(v, Sy) and v.sort == "str" and not self.spec:
            # the characters, taken as unknown strings
            t = self.const("chars", SEQ)
            self.assume(z3.Length(t) == z3.Length(self.raw(v)))
            return SeqVal([("s", t, ("str",))])
        if isinstance(v, Obj) and v.ty[0] == "cls" and isinstance(prog.has_class_attr(v.ty[1], "__iter__"), types.FunctionType):
            return self.items(self.force(self.call(self.getattr_(v, "__iter__"), [], {})))
        return self.items(v)

    def ex_For(self, s: ast.For) -> None:
        it = self.ev(s.iter)
        idx: Any = None
        if isinstance(it, Tup) and len(it.items) == 3 and it.items[0] is ENUM:
            idx, it = it.items[2], it.items[1]
        mapper = zipped = None
        if isinstance(it, Tup) and len(it.items) == 2 and it.items[0] is DITEMS:
            mapper = it.items[1]
            seq = self.dkeys(mapper)  # type: ignore
        elif isinstance(it, Tup) and len(it.items) == 2 and it.items[0] is DVALS:
            mapper = it.items[1]
            seq = self.dkeys(mapper)  # type: ignore
        elif isinstance(it, Tup) and len(it.items) == 3 and it.items[0] is RANGE:
            self.for_range(s, it.items[1], it.items[2])
            return
        elif isinstance(it, Tup) and it.items and it.items[0] is ZIP:
            # the sequences by position, up to the end of the shortest one
            xs, zipped = it.items[1], list(it.items[2:])
            assert isinstance(xs, SeqVal)
            a, n = self.seqterm(xs), self.seqlen(xs)
            for z in zipped:
                lz = self.seqlen(z)  # type: ignore
                n = z3.If(n <= lz, n, lz)
            t = self.const("zipped", SEQ)
            self.assume(t == z3.SubSeq(a, 0, n))
            self.assume(z3.Length(t) == n)
            if self.is_old(a):
                self.mark_old(t)
            seq = SeqVal([("s", t, self.elemtype(xs))])
        else:
            seq = self.iter_seq(it)
        fr = self.fr
        done: list = []

        def bindv(x: Val) -> None:
            if mapper is not None:
                assert isinstance(mapper, Obj)
                val = self.dict_at(self.dict(mapper), x)
                x = Tup([x, val]) if it.items[0] is DITEMS else val  # type: ignore
            if zipped is not None:
                x = Tup([x, *[self.seq_at(z, self.seqlen(SeqVal(done)), check=False) for z in zipped]])  # type: ignore
            if idx is not None:
                k = self.seqlen(SeqVal(done))
                st = idx.v if isinstance(idx, Con) else self.raw(idx)
                iv = k + st
                x = Tup([Con(iv) if isinstance(iv, int) else Sy("int", iv), x])
            self.assign(s.target, x)

        try:
            lc0 = self.loop_contract(s)
            if lc0 is not None and lc0.whole and any(g[0] == "s" for g in seq.segs):
                t = seq.segs[0][1] if len(seq.segs) == 1 else self.const("whole", SEQ)
                if len(seq.segs) > 1:
                    t0 = self.seqterm(seq)
                    self.assume(t == t0)
                    if self.is_old(t0):
                        self.mark_old(t)
                seq = SeqVal([("s", t, t_union(*[g[2] if g[0] == "s" else type_of(g[1]) for g in seq.segs]))])
            for part in seq.segs:
                if part[0] == "u":
                    bindv(part[1])
                    try:
                        self.ex_body(s.body)
                    except Cnt:
                        pass
                    done.append(part)
                else:
                    self.loop_seq(s, part, done, bindv)
        except Brk:
            return
        self.ex_body(s.orelse)

    def loop_key(self, s: ast.AST) -> tuple:
        fr = self.fr
        return (prog.qual(fr.fn) if fr.fn else "", fr.loops.get(id(s), -1), tuple(f.fn.__name__ if f.fn else "" for f in self.frames))

    def loop_contract(self, s: ast.AST) -> L | None:
        fr = self.fr
        k = fr.loops.get(id(s), -1)
        c = fr.spec
        if c is not None and k in c.loops:
            return c.loops[k]
        if fr.fn is not None:
            c2 = self.u.c
            kk = f"{fr.fn.__qualname__}#{k}"
            if kk in c2.loops:
                return c2.loops[kk]  # type: ignore
            g = core.GLOBAL_USE.get(prog.qual(fr.fn)) or next((c for c in core.ORDER if c.target == prog.qual(fr.fn) and k in c.loops), None)
            if g is not None and k in g.loops:
                return g.loops[k]
        if k >= core.NEW_LOOP:
            self.loose = True
        return None

    def loop_seq(self, s: ast.For, part: tuple, done: list, bindv: Any) -> None:
        lc = self.loop_contract(s)
        if lc is None:
            lc = L()
        fr = self.fr
        key = self.loop_key(s)
        info = self.u.loopinfo.setdefault(key, {"vars": {}, "locs": {}})
        label = f"loop {fr.loops.get(id(s), -1)} of {fr.fn.__name__ if fr.fn else ''}"
        src, et = part[1], part[2]
        entry = (self.heap_copy(), dict(fr.loc))
        self.saved_push("entry", entry)

        def invs(kind: str) -> None:
            fr.loc["done"] = SeqVal(done)
            for i in lc.inv:
                g = self.zb(self.spec_bool(i, fr))
                if kind == "assume":
                    self.assume(g)
                else:
                    self.prove(f"{label}, invariant {kind}: {i}", g)

        rest_after: Any = None
        fr.loc["rest"] = SeqVal([part])
        invs("holds at the start")
        self.havoc(info, fr, key)
        done0 = list(done)
        if self.choose():
            # an arbitrary iteration
            tag = f"{key[1]}_{len(self.frames)}"
            self.iterstack.append({"key": key})
            d = self.const("done", SEQ)
            r = self.const("rest", SEQ)
            x = self.const("x", V)
            old = self.is_old(src)
            if old:
                self.mark_old(d)
                self.mark_old(r)
            done += [("s", d, et)]
            xv = self.unbox(x, et, old)
            self.decompose(src, [("s", d, et), ("u", xv), ("s", r, et)])
            if lc.whole and isinstance(xv, U):
                xv = self.force(xv)
            fr.loc["rest"] = SeqVal([("u", xv), ("s", r, et)])
            fr.loc["$x"] = xv
            invs("assume")
            for a in lc.assume:
                self.u.trusted.add(f"{label}: {a}")
                fr.loc["done"] = SeqVal(done + [("u", xv)])
                self.assume_spec(a, fr)
                fr.loc["done"] = SeqVal(done)
                if lc.whole and not self.feasible(z3.BoolVal(True)):
                    raise PathEnd()
            self.live(label)
            ih = (self.heap_copy(), dict(fr.loc))
            self.saved_push("it", ih)
            ref0 = self.refc
            bindv(xv)
            try:
                self.ex_body(s.body)
            except Cnt:
                pass
            except Brk:
                self.iterstack.pop()
                self.check_writes(info, ih, entry, fr, ref0, key, s)
                fr.loc["done"] = SeqVal(done)
                self.saved_pop("it")
                self.saved_pop("entry")
                raise
            except (Ret, PyExc):
                self.check_writes(info, ih, entry, fr, ref0, key, s, vars_=False)
                raise
            self.check_writes(info, ih, entry, fr, ref0, key, s)
            fr.loc["it_x"] = xv
            fr.loc["done"] = SeqVal(done0 + [("s", d, et)])
            fr.loc["rest"] = SeqVal([("s", r, et)])
            for st in lc.step:
                fr.loc["$x"] = xv
                self.prove(f"{label}, each iteration: {st}", self.zb(self.spec_bool(st, fr)))
            done.append(("u", xv))
            invs("is kept")
            raise PathEnd()
        done.append(part)
        fr.loc["rest"] = SeqVal([])
        invs("assume")
        self.live(label)
        self.saved_pop("entry")
        self.note_after(s)

    def note_after(self, s: Any) -> None:
        if self.fr.spec is self.u.c:
            self.afters[self.fr.loops.get(id(s), -1)] = (self.heap_copy(), dict(self.fr.loc))

    def assume_spec(self, s: str, fr: Frame) -> None:
        self.assume(self.zb(self.spec_bool(s, fr)))
        n = ast.parse(s, mode="eval").body
        fr2 = fr
        if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or) and len(n.values) == 2 and isinstance(n.values[0], ast.Compare) and isinstance(n.values[0].ops[0], ast.Is):
            # X is None or same(X.f, b): X.f is only ever read where X is an object
            x, n = n.values[0].left, n.values[1]
            if isinstance(n, ast.Call) and n.args and isinstance(n.args[0], ast.Attribute) and ast.dump(n.args[0].value) == ast.dump(x):
                xv = self.spec_ev(x, fr)
                cs = [t for t in alts(xv.ty) if t != ("none",)] if isinstance(xv, U) else []
                if len(cs) != 1 or cs[0][0] != "cls":
                    return
                fr2 = Frame(fr.fn, fr.g, fr.node, cls=fr.cls)
                fr2.loc = {**fr.loc, "not_none": self.unbox(xv.t, cs[0], self.is_old(xv.t), fact=False)}
                n = ast.Call(n.func, [ast.Attribute(ast.Name("not_none", ast.Load()), n.args[0].attr, ast.Load()), *n.args[1:]], [])
                ast.fix_missing_locations(n)
        if self.local is None and isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "same":
            a, b = (self.spec_ev(x, fr2) for x in n.args)
            if isinstance(a, Obj) and isinstance(b, Obj) and not is_num(a.t) and not a.t.eq(b.t):
                self.keepalive.append(a.t)
                self.canon[a.t.get_id()] = b.t
                x0 = n.args[0]
                log = self.heap.get(("f", x0.attr), []) if isinstance(x0, ast.Attribute) else []
                for k, e in enumerate(log):
                    if e[0] == "w" and isinstance(e[2], Obj) and e[2].t.eq(a.t):
                        log[k] = (*e[:2], Obj(b.t, e[2].ty, e[2].exact), e[3])

    def live(self, label: str) -> None:
        """The assumptions at a loop head must be consistent somewhere, else everything behind it is vacuous."""
        self.u.heads.setdefault(label, 0)
        if not self.feasible(z3.BoolVal(True)):
            if os.environ.get("PYVC_CORE"):
                s = z3.Solver()
                for i, (k, f) in enumerate(self.pc):
                    s.assert_and_track(f, f"c{i}")
                if s.check() == z3.unsat:
                    print("INCONSISTENT", label)
                    for c in s.unsat_core():
                        print("   ", str(self.pc[int(str(c)[1:])])[:600])
            raise PathEnd()
        self.u.heads[label] += 1

    def for_range(self, s: ast.For, lo: Val, hi: Val) -> None:
        lc = self.loop_contract(s) or L()
        fr = self.fr
        key = self.loop_key(s)
        info = self.u.loopinfo.setdefault(key, {"vars": {}, "locs": {}})
        label = f"loop {fr.loops.get(id(s), -1)} of {fr.fn.__name__}"
        a, b = self.raw(self.force(lo)), self.raw(self.force(hi))
        entry = (self.heap_copy(), dict(fr.loc))
        self.saved_push("entry", entry)

        def invs(kind: str, i: Any) -> None:
            fr.loc["at"] = Sy("int", i)
            for iv in lc.inv:
                g = self.zb(self.spec_bool(iv, fr))
                self.assume(g) if kind == "assume" else self.prove(f"{label}, invariant {kind}: {iv}", g)

        invs("holds at the start", a)
        self.havoc(info, fr, key)
        if self.choose():
            self.iterstack.append({"key": key})
            i = self.const("i", INT)
            self.assume(z3.And(i >= a, i < b))
            invs("assume", i)
            self.live(label)
            ih = (self.heap_copy(), dict(fr.loc))
            ref0 = self.refc
            self.assign(s.target, Sy("int", i))
            try:
                self.ex_body(s.body)
            except Cnt:
                pass
            except Brk:
                self.iterstack.pop()
                self.check_writes(info, ih, entry, fr, ref0, key, s)
                self.saved_pop("entry")
                return
            self.check_writes(info, ih, entry, fr, ref0, key, s)
            for st in lc.step:
                self.prove(f"{label}, each iteration: {st}", self.zb(self.spec_bool(st, fr)))
            invs("is kept", i + 1)
            raise PathEnd()
        invs("assume", z3.If(b < a, a, b))
        self.saved_pop("entry")
        self.note_after(s)
        self.ex_body(s.orelse)

    def ex_While(self, s: ast.While) -> None:
        lc = self.loop_contract(s)
        fr = self.fr
        if lc is None:
            # concrete unrolling
            n = 0
            while True:
                t = self.truth(self.ev(s.test))
                t = z3.simplify(t) if not isinstance(t, bool) else t
                if not isinstance(t, bool) and (z3.is_true(t) or z3.is_false(t)):
                    t = z3.is_true(t)
                if not isinstance(t, bool):
                    raise Unsupported("while without an invariant")
                if not t:
                    self.ex_body(s.orelse)
                    return
                n += 1
                if n > 60:
                    raise Unsupported("while without an invariant")
                try:
                    self.ex_body(s.body)
                except Cnt:
                    continue
                except Brk:
                    return
        key = self.loop_key(s)
        info = self.u.loopinfo.setdefault(key, {"vars": {}, "locs": {}})
        label = f"loop {fr.loops.get(id(s), -1)} of {fr.fn.__name__}"
        entry = (self.heap_copy(), dict(fr.loc))
        self.saved_push("entry", entry)

        def invs(kind: str) -> None:
            for i in lc.inv:
                g = self.zb(self.spec_bool(i, fr))
                self.assume(g) if kind == "assume" else self.prove(f"{label}, invariant {kind}: {i}", g)

        invs("holds at the start")
        self.havoc(info, fr, key)
        invs("assume")
        self.live(label)
        ih = (self.heap_copy(), dict(fr.loc))
        ref0 = self.refc
        self.iterstack.append({"key": key})
        t = self.branch(self.truth(self.ev(s.test)))
        if not t:
            self.iterstack.pop()
            self.saved_pop("entry")
            self.note_after(s)
            self.ex_body(s.orelse)
            return
        self.saved_push("it", ih)
        try:
            self.ex_body(s.body)
        except Cnt:
            pass
        except Brk:
            self.iterstack.pop()
            self.check_writes(info, ih, entry, fr, ref0, key, s)
            self.saved_pop("it")
            self.saved_pop("entry")
            return
        except (Ret, PyExc):
            self.check_writes(info, ih, entry, fr, ref0, key, s, vars_=False)
            raise
        self.check_writes(info, ih, entry, fr, ref0, key, s)
        for st in lc.step:
            self.prove(f"{label}, each iteration: {st}", self.zb(self.spec_bool(st, fr)))
        invs("is kept")
        raise PathEnd()

    def saved_push(self, k: str, v: tuple) -> None:
        self.saved.setdefault("$" + k, [])  # type: ignore
        self.saved["$" + k].append(v)  # type: ignore

    def saved_pop(self, k: str) -> None:
        self.saved["$" + k].pop()  # type: ignore

    def havoc(self, info: dict, fr: Frame, key: tuple) -> None:
        ver = f"{key[0].split(':')[-1]}_{key[1]}_{len(self.frames)}_{self.cc}"
        self.reserve_loop()
        for name, ty in sorted(info["vars"].items()):
            if name not in fr.loc:
                continue
            if ty[0] in ("list", "dict", "set"):
                # rebound to an object made in the loop: not shared with anything else
                fr.loc[name] = self.havoc_new(ty, name)
            else:
                fr.loc[name] = self.fresh_val(ty, name)
        # what is made after here is numbered alike whatever the loop was found to rebind so far
        self.refc = (self.refc // self.AFTER + 1) * self.AFTER
        for lk, ty in sorted(info["locs"].items(), key=lambda x: str(x[0])):
            hk, ref = lk
            if ref is None:
                self.heap.setdefault(hk, []).append(("h", ver, ty))
                self.hver = ver
            else:
                t = ty[0]
                if lk in self.u.oldlocs and not self.is_old(t):
                    self.mark_old(t)
                self.havoc_loc(hk, t, ty[1], ver)

    def havoc_new(self, ty: tuple, name: str) -> Obj:
        o = self.alloc(ty)
        self.havoc_loc({"list": "list", "dict": "dict", "set": "set"}[ty[0]], o.t, ty, name)
        return o

    def havoc_loc(self, hk: Any, ref: Any, ty: tuple, base: str) -> None:
        o = Obj(ref, ty)
        if hk == "list":
            et = ty[1]
            self.hwrite("list", o, SeqVal([("s", self.const("L_" + base, SEQ), et)]))
        elif hk == "dict":
            ks = self.const("DK_" + base, SEQ)
            self.hwrite("dict", o, DictVal(SeqVal([("s", ks, ty[1])]), self.const("DD_" + base, SET), self.const("DM_" + base, MAP), ty[1], ty[2]))
        elif hk == "set":
            self.hwrite("set", o, SetVal(self.const("ST_" + base, SET), ty[1]))
        else:
            fty = ty[2]  # ('field', _, fieldtype)
            self.hwrite(hk, Obj(ref, ty[1]), self.fresh_val(fty, hk[1]))

    def check_writes(self, info: dict, ih: tuple, entry: tuple, fr: Frame, ref0: int, key: tuple, s: Any, vars_: bool = True) -> None:
        """All writes of the iteration must be in the loop's havoc set; otherwise it grows and the unit restarts."""
        grew = False
        h0 = ih[0]
        for hk, log in self.heap.items():
            for e in log[len(h0.get(hk, [])) :]:
                if e[0] == "h":
                    lk: tuple = (hk, None)
                    if lk not in info["locs"]:
                        info["locs"][lk] = e[2]
                        grew = True
                    elif info["locs"][lk] is not None and info["locs"][lk] != e[2]:
                        was = info["locs"][lk]
                        new = None
                        if e[2] is not None and was[0] == e[2][0] == "cls":
                            new = was if issubclass(e[2][1], was[1]) else e[2] if issubclass(was[1], e[2][1]) else None
                        if new != was:
                            info["locs"][lk] = new
                            grew = True
                    continue
                ref = e[1]
                if is_num(ref) and ref.as_long() < -ref0 or self.hi.get(ref.get_id(), -1) >= ref0:
                    continue
                val, ty = e[2], e[3]
                if hk == "list":
                    et = self.elemtype(val)
                    ty = ("list", t_union(ty[1], et) if ty[1] != T_ANY or not val.segs else et) if val.segs else ty
                elif hk == "dict":
                    kt = t_union(val.kt, *([self.elemtype(val.keys)] if val.keys.segs else [])) if val.kt != T_ANY else (self.elemtype(val.keys) if val.keys.segs else T_ANY)
                    ty = ("dict", kt, val.vt)
                elif hk == "set":
                    ty = ("set", val.et)
                else:
                    fty = None
                    if ty[0] == "cls":
                        fty = prog.field_type(ty[1], hk[1])
                    if fty is None or fty == T_ANY:
                        fty = type_of(val)
                    ty = ("field", ty, fty)
                if self._loopvar(ref):
                    if (hk, None) not in info["locs"]:
                        info["locs"][(hk, None)] = e[3]
                        grew = True
                    elif info["locs"][(hk, None)] is not None and info["locs"][(hk, None)] != e[3]:
                        was = info["locs"][(hk, None)]
                        new = None
                        if was[0] == e[3][0] == "cls":
                            new = was if issubclass(e[3][1], was[1]) else e[3] if issubclass(was[1], e[3][1]) else None
                        if new != was:
                            info["locs"][(hk, None)] = new
                            grew = True
                else:
                    lk = (hk, ref.sexpr())
                    if self.is_old(ref) and self._entryterm(ref):
                        self.u.oldlocs.add(lk)
                    cur = info["locs"].get(lk)
                    if cur is None:
                        info["locs"][lk] = (ref, ty)
                        grew = True
                    elif hk in ("list", "dict", "set"):
                        j = self.join_ty(cur[1], ty)
                        if j != cur[1]:
                            info["locs"][lk] = (ref, j)
                            grew = True
                    elif hk not in ("list", "dict", "set"):
                        j = t_union(cur[1][2], ty[2])
                        if j != cur[1][2]:
                            info["locs"][lk] = (ref, ("field", cur[1][1], j))
                            grew = True
        if vars_:
            tgt = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            own = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)} if isinstance(s, ast.For) else set()
            lc = self.loop_contract(s)
            for name in tgt:
                if name not in entry[1] or name not in fr.loc:
                    continue
                a, b = ih[1].get(name), fr.loc[name]
                if a is b:
                    continue
                if lc and name in lc.types:
                    ty = prog.ann_type(ast.parse(lc.types[name], mode="eval").body, fr.g)
                else:
                    try:
                        ta, tb = type_of(entry[1][name]), type_of(b)
                    except Unsupported:
                        continue
                    ty = self.join_ty(ta, tb)
                cur = info["vars"].get(name)
                ty2 = ty if cur is None else self.join_ty(cur, ty)
                if cur != ty2:
                    info["vars"][name] = ty2
                    grew = True
                if ty2[0] in ("list", "dict", "set") and isinstance(b, Obj) and isinstance(a, Obj) and not b.t.eq(a.t):
                    if not (is_num(b.t) and b.t.as_long() < -ref0):
                        raise Unsupported("a loop variable is rebound to a shared container")
                    if name not in own and self._escapes(b.t, h0):
                        raise Unsupported("a container made in the loop is shared and kept in a variable")
        if grew:
            raise Restart()

    def join_ty(self, a: tuple, b: tuple) -> tuple:
        if a[0] == b[0] and a[0] in ("list", "set"):
            return (a[0], b[1] if a[1] == T_ANY else (a[1] if b[1] == T_ANY else t_union(a[1], b[1])))
        if a[0] == b[0] == "dict":
            return ("dict", b[1] if a[1] == T_ANY else a[1] if b[1] == T_ANY else t_union(a[1], b[1]), b[2] if a[2] == T_ANY else a[2] if b[2] == T_ANY else t_union(a[2], b[2]))
        if a[0] == b[0] == "cls":
            if issubclass(a[1], b[1]):
                return b
            if issubclass(b[1], a[1]):
                return a
        return t_union(a, b)

    def _escapes(self, ref: Any, h0: dict) -> bool:
        for hk, log in self.heap.items():
            for e in log[len(h0.get(hk, [])) :]:
                if e[0] != "w":
                    continue
                vs = [e[2]] if isinstance(e[2], Obj) else [g[1] for g in e[2].segs if g[0] == "u"] if isinstance(e[2], SeqVal) else []
                if any(isinstance(v, Obj) and v.t.eq(ref) for v in vs):
                    return True
        return False

    def _entryterm(self, t: Any) -> bool:
        """Made of the parameters and the heap at the entry only: means the same on every path."""
        todo = [t]
        while todo:
            x = todo.pop()
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name().split("!")
                if len(n) < 2 or not n[1].isdigit() or int(n[1]) > self.entrycc:
                    return False
            todo += x.children()
        return True

    def _loopvar(self, t: Any) -> bool:
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!it" in x.decl().name():
                return True
            todo += x.children()
        return False

    # -------------------------------------------------------------- expressions
    def ev(self, n: ast.AST) -> Any:
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        return m(n)

    def ev_Constant(self, n: ast.Constant) -> Val:
        return Con(n.value)

    def ev_Name(self, n: ast.Name) -> Val:
        f: Frame | None = self.fr
        while f is not None:
            if n.id in f.loc:
                return f.loc[n.id]
            f = f.parent
        fr = self.fr
        if n.id in fr.g:
            v = fr.g[n.id]
            return Con(v)
        if n.id in SPECCONST:
            return Con(SPECCONST[n.id])
        if hasattr(builtins, n.id):
            return Con(getattr(builtins, n.id))
        if n.id in prog.CLASSES and self.spec:
            return Con(prog.CLASSES[n.id])
        if self.spec:
            raise Unsupported(f"name {n.id} in a specification")
        raise PyExc(NameError, where=n.id)

    def ev_JoinedStr(self, n: ast.JoinedStr) -> Val:
        parts: list[Val] = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(Con(v.value))
            else:
                assert isinstance(v, ast.FormattedValue)
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    raise Unsupported("format spec")
                parts.append(self.tostr(self.ev(v.value)))
        return self.strcat(parts)

    def strcat(self, parts: list[Val]) -> Val:
        out: list[Any] = []
        for p in parts:
            if isinstance(p, Con):
                if p.v == "":
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p.v
                else:
                    out.append(p.v)
            else:
                t = self.raw(p)
                if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                    ks = t.children()
                else:
                    ks = [t]
                for k in ks:
                    c = pyconst(k)
                    if c is not None:
                        if out and isinstance(out[-1], str):
                            out[-1] += c
                        else:
                            out.append(c)
                    else:
                        out.append(k)
        if not out:
            return Con("")
        if len(out) == 1 and isinstance(out[0], str):
            return Con(out[0])
        ts = [lit(x) if isinstance(x, str) else x for x in out]
        return Sy("str", ts[0] if len(ts) == 1 else z3.Concat(*ts))

    def tostr(self, v: Val) -> Val:
        if isinstance(v, Con):
            return Con(str(v.v))
        if isinstance(v, Sy):
            if v.sort == "str":
                return v
            if v.sort == "int":
                return Sy("str", I2S(v.t))
            return Sy("str", z3.If(v.t, lit("True"), lit("False")))
        if isinstance(v, Opq):
            return Sy("str", TXT(v.t))
        if isinstance(v, U):
            # str of a parameter: by its kind
            t = PSTR(v.t)
            self.assume(z3.Implies(V.is_mk_int(v.t), t == I2S(un_int(v.t))))
            self.assume(z3.Implies(V.is_mk_str(v.t), t == un_str(v.t)))
            self.assume(z3.Implies(V.is_mk_opq(v.t), t == TXT(un_opq(v.t))))
            return Sy("str", t)
        if isinstance(v, Obj) and v.ty[0] == "cls":
            m = prog.has_class_attr(v.ty[1], "__str__")
            if v.exact and isinstance(m, types.FunctionType) and prog.in_repo(v.ty[1]) and is_num(v.t):
                return self.call_fn(m, [v], {}, v.ty[1])
            return Sy("str", PSTR(box(v)))
        raise Unsupported("str")

    def ev_Tuple(self, n: ast.Tuple) -> Val:
        return Tup(self.ev_list(n.elts))

    def ev_list(self, elts: list) -> list:
        out: list = []
        for e in elts:
            if isinstance(e, ast.Starred):
                s = self.iter_seq(self.ev(e.value))
                if any(g[0] == "s" for g in s.segs):
                    raise Unsupported("star of a symbolic sequence")
                out += [g[1] for g in s.segs]
            else:
                out.append(self.ev(e))
        return out

    def ev_List(self, n: ast.List) -> Val:
        segs: list = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                segs += list(self.iter_seq(self.ev(e.value)).segs)
            else:
                segs.append(("u", self.ev(e)))
        if self.spec:
            return SeqVal(segs)
        return self.new_list(SeqVal(segs))

    def ev_Set(self, n: ast.Set) -> Val:
        xs = self.ev_list(n.elts)
        if all(isinstance(x, Con) for x in xs):
            return Con({x.v for x in xs})
        t = z3.EmptySet(V)
        for x in xs:
            t = z3.SetAdd(t, box(x))
        return SetVal(t)

    def ev_Dict(self, n: ast.Dict) -> Val:
        o = self.alloc(("dict", T_ANY, T_ANY))
        self.hwrite("dict", o, DictVal(SeqVal([]), z3.EmptySet(V), self.const("emptymap", MAP)))
        for k, v in zip(n.keys, n.values):
            if k is None:
                raise Unsupported("dict unpacking")
            self.dict_set(o, self.ev(k), self.ev(v))
        return o

    def dict_set(self, o: Obj, k: Val, v: Val) -> None:
        d = self.dict(o)
        kb = box(k)
        known = False
        for g in d.keys.segs:
            if g[0] == "u" and (box(g[1]).eq(kb)):
                known = True
        if not known:
            has = self.contains(o, k)
            if isinstance(has, bool):
                known = has
            else:
                known = self.branch(has)
        keys = d.keys if known else self.seqcat(d.keys, SeqVal([("u", k)]))
        kt = type_of(k) if d.kt == T_ANY and not d.keys.segs else (d.kt if d.kt == T_ANY else t_union(d.kt, type_of(k)))
        try:
            tv = type_of(v)
        except Unsupported:
            tv = T_ANY
        vt = tv if d.vt == T_ANY and not d.keys.segs else (d.vt if d.vt == T_ANY else t_union(d.vt, tv))
        vals = {kk: x for kk, x in d.vals.items() if self.provable(kk != kb)} if d.vals else {}
        vals[kb] = v
        self.hwrite("dict", o, DictVal(keys, z3.SetAdd(d.dom, kb), z3.Store(d.m, kb, box(v)), kt, vt, vals))

    def dict_at(self, d: DictVal, k: Val) -> Val:
        kb = box(k)
        for kk, v in d.vals.items():
            if kk.eq(kb):
                return v
        for kk, v in d.vals.items():
            if not self.provable(kk != kb) and self.provable(kk == kb):
                return v
        t = z3.simplify(z3.Select(d.m, kb))
        return self.unbox(t, d.vt, self.is_old(d.m))

    def ev_Attribute(self, n: ast.Attribute) -> Val:
        return self.getattr_(self.ev(n.value), n.attr)

    def getattr_(self, o: Val, name: str) -> Val:
        if isinstance(o, U):
            if o.ty == T_ANY and self.spec:
                raise Unsupported("attribute of a value of unknown type")
            o = self.force(o)
        if isinstance(o, Con):
            if o.v is None:
                if self.spec:
                    raise PyExc(AttributeError, where=f"None.{name}")
                raise PyExc(AttributeError, where=f"None.{name}")
            if isinstance(o.v, (str, int, tuple, list, dict, set, frozenset)) and not is_enum(o.v):
                return Meth(o, name)
            try:
                v = getattr(o.v, name)
            except AttributeError:
                raise PyExc(AttributeError, where=name)
            return Con(v)
        if isinstance(o, Opq):
            ty = prog.ann_type(ast.parse(core.OPQ_ATTR.get(name, "opaque"), mode="eval").body, {})
            t = z3.Function("OA_" + name, INT, V)(o.t)
            self.mark_old(t)
            return self.unbox(t, ty, True)
        if isinstance(o, Obj) and o.ty[0] == "cls":
            return self.obj_attr(o, name)
        if isinstance(o, (Sy, Tup, SeqVal, Obj, DictVal)):
            return Meth(o, name)
        if isinstance(o, ClassOf):
            if name == "__name__":
                return Sy("str", z3.Function("CLSNAME", INT, STR)(TAG(o.o.t)))
            raise Unsupported("class attribute")
        if isinstance(o, Sup):
            for k in o.cls.__mro__[o.cls.__mro__.index(o.after) + 1 :]:
                if name in vars(k):
                    f = vars(k)[name]
                    if isinstance(f, types.FunctionType):
                        return Meth(o.slf, name, (f, k))
                    if f is object.__init__:
                        return Meth(o.slf, "__init__", ("object_init", k))
            raise Unsupported(f"super().{name}")
        raise Unsupported(f"attribute {name} of {type(o).__name__}")

    def obj_attr(self, o: Obj, name: str) -> Val:
        cls = o.ty[1]
        if name == "__class__":
            return Con(cls) if o.exact else ClassOf(o)
        cands = [cls] if o.exact else list(subs(cls))
        groups: dict[Any, list[type]] = {}
        for c in cands:
            a = prog.has_class_attr(c, name)
            ft = None
            if isinstance(a, (types.FunctionType, property, staticmethod, classmethod)):
                k: Any = ("a", id(a))
            elif prog.class_constant(c, name) is not None:
                k = ("a", id(a))
            else:
                ft = prog.field_type(c, name)
                if ft is not None:
                    k = ("f", ft)
                elif a is not None:
                    k = ("a", id(a))
                else:
                    k = None
            groups.setdefault(k, []).append(c)
        # a contract for the method of the static class stands for all overrides
        a0 = prog.has_class_attr(cls, name)
        if isinstance(a0, types.FunctionType) and len(groups) > 1:
            gc = self.find_contract(a0)
            if gc is not None and gc.interface:
                return Meth(o, name, (a0, cls))
        if len(groups) > 1:
            feas = {}
            for k, cs in groups.items():
                if self.feasible(z3.Or([TAG(o.t) == tag_of(c) for c in cs])):
                    feas[k] = cs
            ks = list(feas)
            pick = ks[-1] if ks else None
            for k in ks[:-1]:
                if self.branch(z3.Or([TAG(o.t) == tag_of(c) for c in feas[k]])):
                    pick = k
                    break
            cs = feas.get(pick, [])
        else:
            pick, cs = next(iter(groups.items()))
        if pick is None:
            if not o.exact and cs and self.abstract_only(cs):
                raise PathEnd()
            raise PyExc(AttributeError, where=name)
        c0 = cs[0]
        if pick[0] == "f":
            return self.get_field(o, name, pick[1])
        a = prog.has_class_attr(c0, name)
        if isinstance(a, property):
            return self.call_fn(a.fget, [o], {}, c0)
        if isinstance(a, staticmethod):
            return Con(a.__func__)
        if isinstance(a, classmethod):
            return Meth(Con(c0), name, (a.__func__, c0))
        if isinstance(a, types.FunctionType):
            return Meth(o, name, (a, c0))
        return Con(a)

    def abstract_only(self, cs: list[type]) -> bool:
        return all(inspect.isabstract(c) for c in cs)

    def setattr_(self, o: Val, name: str, v: Val) -> None:
        if isinstance(o, U):
            o = self.force(o)
        if isinstance(o, Obj) and o.ty[0] == "cls":
            a = prog.has_class_attr(o.ty[1], name)
            if isinstance(a, property):
                if a.fset is None:
                    raise PyExc(AttributeError, where=name)
                self.call_fn(a.fset, [o, v], {}, o.ty[1])
                return
            ft = prog.field_type(o.ty[1], name)
            if ft is not None and isinstance(v, Obj) and v.ty in (("list", T_ANY), ("set", T_ANY), ("dict", T_ANY, T_ANY)) and ft[0] == v.ty[0]:
                v = Obj(v.t, ft, v.exact)
            self.set_field(o, name, v)
            return
        if isinstance(o, Con) and o.v is None:
            raise PyExc(AttributeError, where=name)
        if isinstance(o, Opq):
            raise Unsupported(f"write to an external object (.{name})")
        raise Unsupported(f"attribute assignment to {type(o).__name__}")

    def ev_index(self, n: ast.AST) -> Any:
        if isinstance(n, ast.Slice):
            f = lambda x: None if x is None else self.ev(x)
            if n.step is not None:
                raise Unsupported("slice step")
            return ("slice", f(n.lower), f(n.upper))
        return self.ev(n)

    def ev_Subscript(self, n: ast.Subscript) -> Val:
        return self.subscript(self.ev(n.value), self.ev_index(n.slice))

    def pyint(self, v: Any) -> Any:
        if v is None:
            return None
        v = self.force(v)
        if isinstance(v, Con):
            if isinstance(v.v, bool):
                return int(v.v)
            if not isinstance(v.v, int):
                raise PyExc(TypeError, where="index")
            return v.v
        if isinstance(v, Sy) and v.sort == "int":
            c = pyconst(z3.simplify(v.t))
            return c if c is not None else v.t
        raise Unsupported("index")

    def subscript(self, o: Val, i: Any) -> Val:
        if isinstance(o, U):
            if self.spec and o.ty == T_ANY:
                raise Unsupported("subscript of unknown")
            o = self.force(o)
        if isinstance(o, Con) and o.v is None:
            raise PyExc(TypeError, where="None[...]")
        if isinstance(i, tuple):
            lo, hi = self.pyint(i[1]), self.pyint(i[2])
            if isinstance(o, Con) and isinstance(o.v, (str, list, tuple)) and (lo is None or isinstance(lo, int)) and (hi is None or isinstance(hi, int)):
                return Con(o.v[lo:hi])
            if isinstance(o, Tup):
                return Tup(o.items[lo:hi])
            if (isinstance(o, Sy) and o.sort == "str") or (isinstance(o, Con) and isinstance(o.v, str)):
                return self.str_slice(self.raw(o), lo, hi)
            r = self.seq_slice(self.items(o), lo, hi)
            return r if self.spec or isinstance(o, SeqVal) else self.new_list(r, self.elemtype(self.items(o)))
        if isinstance(o, Con):
            if isinstance(i, Con):
                try:
                    return Con(o.v[i.v])
                except (KeyError, IndexError, TypeError) as e:
                    raise PyExc(type(e), where="subscript")
            if isinstance(o.v, dict):
                i = self.force(i)
                for k in o.v:
                    if self.branch(self.zb(self.eq(i, Con(k)))):
                        return Con(o.v[k])
                raise PyExc(KeyError, where="subscript")
            if isinstance(o.v, (list, tuple)):
                return self.seq_at(SeqVal([("u", Con(x)) for x in o.v]), self.pyint(i))
            if isinstance(o.v, type) and issubclass(o.v, enum.Enum):
                raise Unsupported("enum by name")
            raise Unsupported("subscript of a constant")
        if isinstance(o, Tup):
            k = self.pyint(i)
            if isinstance(k, int):
                if not -len(o.items) <= k < len(o.items):
                    raise PyExc(IndexError, where="tuple")
                return o.items[k]
            raise Unsupported("symbolic tuple index")
        if isinstance(o, Sy) and o.sort == "str":
            k = self.pyint(i)
            n = z3.Length(o.t)
            kk = (n + k) if isinstance(k, int) and k < 0 else (k if not isinstance(k, int) else z3.IntVal(k))
            if not self.spec and not self.branch(z3.And(kk >= 0, kk < n)):
                raise PyExc(IndexError, where="string index")
            return Sy("str", z3.SubString(o.t, kk, 1))
        if isinstance(o, Obj) and o.ty[0] == "dict":
            if not self.spec:
                if not self.branch(self.zb(self.contains(o, i))):
                    raise PyExc(KeyError, where="dict")
            return self.dict_at(self.dict(o), i)
        if isinstance(o, DictVal):
            return self.dict_at(o, i)
        if isinstance(o, SeqVal) or (isinstance(o, Obj) and o.ty[0] == "list"):
            return self.seq_at(self.items(o), self.pyint(i))
        if isinstance(o, Opq):
            kb = box(i)
            t = z3.Function("OI", INT, V, V)(o.t, kb)
            self.mark_old(t)
            ik = pyconst(un_str(kb)) if isinstance(i, Con) and isinstance(i.v, str) else None
            ty = core.OPQ_ATTR.get(f"[{ik}]", "opaque") if ik else "opaque"
            return self.unbox(t, prog.ann_type(ast.parse(ty, mode="eval").body, self.fr.g), True)
        raise Unsupported(f"subscript of {type(o).__name__}")

    def str_slice(self, t: Any, lo: Any, hi: Any) -> Val:
        n = z3.Length(t)

        def norm(x: Any, d: Any) -> Any:
            if x is None:
                return d
            x = z3.IntVal(x) if isinstance(x, int) else x
            if "IndexOf" in str(x)[:200] and self.provable(z3.And(0 <= x, x <= n)):
                return x
            return z3.simplify(z3.If(x < 0, z3.If(x + n < 0, 0, x + n), z3.If(x > n, n, x)))

        a, b = norm(lo, z3.IntVal(0)), norm(hi, n)
        ln = z3.simplify(b - a)
        if "IndexOf" in str(ln)[:400] and self.provable(ln >= 0):
            return Sy("str", z3.SubString(t, a, ln))
        return Sy("str", z3.SubString(t, a, z3.simplify(z3.If(b - a < 0, 0, b - a))))

    def setitem(self, o: Val, i: Any, v: Val) -> None:
        if isinstance(o, U):
            o = self.force(o)
        if isinstance(o, Obj) and o.ty[0] == "dict":
            self.dict_set(o, i, v)
            return
        if isinstance(o, Obj) and o.ty[0] == "list" and not isinstance(i, tuple):
            s = self.items(o)
            k = self.pyint(i)
            segs = list(s.segs)
            if isinstance(k, int):
                j = k if k >= 0 else len(segs) + k
                pre = segs[: j + 1] if k >= 0 else segs[j:]
                if 0 <= j < len(segs) and all(g[0] == "u" for g in pre):
                    segs[j] = ("u", v)
                    self.set_items(o, SeqVal(segs))
                    return
            n = self.seqlen(s)
            zk = z3.IntVal(k) if isinstance(k, int) else k
            if not self.branch(z3.And(zk >= 0, zk < n)):
                if self.branch(z3.And(zk < 0, zk >= -n)):
                    zk = zk + n
                else:
                    raise PyExc(IndexError, where="assignment index")
            # position among the segments
            off: Any = z3.IntVal(0)
            for j, g in enumerate(segs):
                if g[0] == "u":
                    if self.provable(zk == off):
                        segs[j] = ("u", v)
                        self.set_items(o, SeqVal(segs))
                        return
                    off = off + 1
                else:
                    off = off + z3.Length(g[1])
            a = self.seq_slice(s, 0, zk)
            b = self.seq_slice(s, zk + 1, None)
            self.set_items(o, self.seqcat(a, SeqVal([("u", v)]), b))
            return
        if isinstance(o, Con):
            raise Unsupported("write to a constant container")
        raise Unsupported("item assignment")

    def ev_BoolOp(self, n: ast.BoolOp) -> Val:
        if self.spec:
            isand = isinstance(n.op, ast.And)
            acc: list = []
            depth = 0
            saved = self.pc
            try:
                for v in n.values:
                    x = self.merged(lambda v=v: self.mk_truth(self.ev(v)))
                    t = self.truth(x) if isinstance(x, Val) else x
                    acc.append(self.zb(t))
                    if isinstance(t, bool) and t != isand:
                        break
                    if isinstance(t, bool):
                        continue
                    # later operands are evaluated under the earlier ones
                    self.sol.push()
                    depth += 1
                    g = t if isand else z3.Not(t)
                    self.pc = self.pc + [("g", g)]
                    self.sol.add(g)
                    if not self.feasible(z3.BoolVal(True)):
                        break
            finally:
                for _ in range(depth):
                    self.sol.pop()
                extra = self.pc[len(saved):]
                self.pc = saved
                gs: list = []
                for p in extra:
                    if p[0] == "g":
                        gs.append(p[1])
                    elif p[0] == "f":
                        self.assume(z3.Implies(z3.And(gs), p[1]) if gs else p[1])
            return self.mkbool(z3.And(acc) if isand else z3.Or(acc))
        v: Val = Con(None)
        for i, e in enumerate(n.values):
            v = self.ev(e)
            if i == len(n.values) - 1:
                return v
            t = self.branch(self.truth(v))
            if isinstance(n.op, ast.And) and not t:
                return v
            if isinstance(n.op, ast.Or) and t:
                return v
        return v

    def mk_truth(self, v: Val) -> Any:
        return self.zb(self.truth(v))

    def ev_IfExp(self, n: ast.IfExp) -> Val:
        if self.branch(self.truth(self.ev(n.test))):
            return self.ev(n.body)
        return self.ev(n.orelse)

    def ev_UnaryOp(self, n: ast.UnaryOp) -> Val:
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return self.mkbool(not t if isinstance(t, bool) else z3.Not(t))
        v = self.force(v)
        if isinstance(v, Con):
            return Con({ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(n.op)](v.v))
        if isinstance(n.op, ast.USub) and isinstance(v, Sy) and v.sort == "int":
            return Sy("int", -v.t)
        raise Unsupported("unary operator")

    def ev_BinOp(self, n: ast.BinOp) -> Val:
        return self.binop(n.op, self.ev(n.left), self.ev(n.right))

    def binop(self, op: ast.operator, a: Val, b: Val) -> Val:
        if isinstance(a, U):
            a = self.force(a)
        if isinstance(b, U):
            b = self.force(b)
        if isinstance(a, Con) and isinstance(b, Con):
            import operator as o

            f = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.FloorDiv: o.floordiv, ast.Mod: o.mod, ast.BitOr: o.or_, ast.BitAnd: o.and_, ast.Div: o.truediv, ast.BitXor: o.xor, ast.LShift: o.lshift, ast.RShift: o.rshift, ast.Pow: o.pow}[type(op)]
            try:
                return Con(f(a.v, b.v))
            except Exception as e:
                raise PyExc(type(e), where="operator")
        if isinstance(a, Obj) and isinstance(b, Obj) and a.ty[0] == b.ty[0] == "set" and isinstance(op, (ast.Sub, ast.BitAnd, ast.BitOr)):
            x, y = self.setterm(a), self.setterm(b)
            r = z3.SetDifference(x, y) if isinstance(op, ast.Sub) else z3.SetIntersect(x, y) if isinstance(op, ast.BitAnd) else z3.SetUnion(x, y)
            if self.spec:
                return SetVal(r)
            o2 = self.alloc(("set", T_ANY))
            self.hwrite("set", o2, SetVal(r))
            return o2
        if isinstance(a, SetVal) or isinstance(b, SetVal):
            x, y = self.setterm(a), self.setterm(b)
            if isinstance(op, ast.BitOr):
                return SetVal(z3.SetUnion(x, y))
            if isinstance(op, ast.BitAnd):
                return SetVal(z3.SetIntersect(x, y))
            if isinstance(op, ast.Sub):
                return SetVal(z3.SetDifference(x, y))
        if isinstance(op, ast.Add) and (isinstance(a, SeqVal) or isinstance(b, SeqVal)):
            return self.seqcat(self.items(a), self.items(b))
        if isinstance(op, ast.Add) and isinstance(a, Obj) and a.ty[0] == "list":
            if not (isinstance(b, Obj) and b.ty[0] == "list" or isinstance(b, SeqVal) or (isinstance(b, Con) and isinstance(b.v, list))):
                raise PyExc(TypeError, where="list + non-list")
            r = self.seqcat(self.items(a), self.items(b))
            return r if self.spec else self.new_list(r, a.ty[1] if a.ty[1] != T_ANY else None)
        if isinstance(op, ast.Add) and isinstance(a, Con) and isinstance(a.v, list):
            r = self.seqcat(self.items(a), self.items(b))
            return r if self.spec else self.new_list(r)
        if isinstance(op, ast.Mult) and isinstance(a, Con) and isinstance(a.v, str):
            if self.raw(b) is not None:
                return Sy("str", z3.Function("REPEAT", STR, INT, STR)(lit(a.v), self.raw(b)))
        ta, tb = type_of(a)[0], type_of(b)[0]
        if ta == tb == "int":
            x, y = self.raw(a), self.raw(b)
            if isinstance(op, ast.Add):
                return Sy("int", z3.simplify(x + y))
            if isinstance(op, ast.Sub):
                return Sy("int", z3.simplify(x - y))
            if isinstance(op, ast.Mult):
                return Sy("int", x * y)
            if isinstance(op, (ast.Mod, ast.FloorDiv)) and isinstance(b, Con) and b.v > 0:
                return Sy("int", x % y if isinstance(op, ast.Mod) else x / y)
        if ta == tb == "str" and isinstance(op, ast.Add):
            return self.strcat([a, b])
        if {ta, tb} == {"str", "none"} or {ta, tb} == {"int", "none"} or {ta, tb} == {"int", "str"} and isinstance(op, ast.Add):
            raise PyExc(TypeError, where="operator")
        if isinstance(a, Tup) and isinstance(b, Tup) and isinstance(op, ast.Add):
            return Tup(a.items + b.items)
        raise Unsupported(f"operator {type(op).__name__} on {ta}, {tb}")

    def ev_Compare(self, n: ast.Compare) -> Val:
        left = self.ev(n.left)
        acc: list = []
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r)
            f = self.compare(op, left, right)
            acc.append(f)
            left = right
            if len(n.ops) > 1 and not self.spec and not self.branch(f):
                return Con(False)
        if len(acc) == 1:
            return self.mkbool(acc[0])
        return self.mkbool(z3.And([self.zb(x) for x in acc]))

    def neg(self, f: Any) -> Any:
        return not f if isinstance(f, bool) else z3.Not(f)

    def compare(self, op: ast.cmpop, a: Val, b: Val) -> Any:
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.neg(self.eq(a, b))
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.neg(self.is_(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return self.neg(self.contains(b, a))
        if isinstance(a, Tup) and len(a.items) == 2 and a.items[0] is CHARSET and isinstance(op, ast.LtE) and isinstance(b, Con) and isinstance(b.v, (set, frozenset)):
            # set(string) <= {characters}
            cs = [z3.Re(z3.StringVal(c)) for c in sorted(b.v)]
            return z3.InRe(self.raw(a.items[1]), z3.Star(z3.Union(*cs) if len(cs) > 1 else cs[0]))
        if isinstance(a, SetVal) and isinstance(b, SetVal) and isinstance(op, ast.LtE):
            return z3.IsSubset(a.t, b.t)
        a, b = self.force(a), self.force(b)
        if isinstance(a, Con) and isinstance(b, Con):
            try:
                return CMP[type(op)](a.v, b.v)
            except TypeError:
                raise PyExc(TypeError, where="comparison")
        ta, tb = type_of(a)[0], type_of(b)[0]
        if ta == tb == "int":
            return CMP[type(op)](self.raw(a), self.raw(b))
        if "none" in (ta, tb):
            raise PyExc(TypeError, where="comparison with None")
        raise Unsupported(f"comparison of {ta} and {tb}")

    def ev_Lambda(self, n: ast.Lambda) -> Val:
        return Clo(n, self.fr)

    def ev_NamedExpr(self, n: ast.NamedExpr) -> Val:
        v = self.ev(n.value)
        self.assign(n.target, v)
        return v

    # -------------------------------------------------------------- comprehensions
    def ev_GeneratorExp(self, n: ast.GeneratorExp) -> Val:
        return Clo(n, self.fr)

    def ev_ListComp(self, n: ast.ListComp) -> Val:
        s = self.comp_seq(n, self.fr)
        return s if self.spec else self.new_list(s, self.elemtype(s))

    def new_comp(self, c: Clo) -> Obj:
        s = self.in_frame(c.frame, lambda: self.comp_seq(c.node, c.frame))
        return self.new_list(s, self.elemtype(s))

    def comp_seq(self, n: Any, fr: Frame) -> SeqVal:
        return self._comp(n.generators, 0, n.elt, fr, "cat", lambda f: SeqVal([("u", self.ev(n.elt))]), SeqVal([]))

    def _comp(self, gens: list, i: int, elt: Any, fr: Frame, kind: str, leaf: Any, zero: Any) -> Any:
        """Fold of a comprehension; evaluated with self.fr as the comprehension's own frame."""
        f2 = Frame(fr.fn, fr.g, None, parent=fr, cls=fr.cls)
        f2.spec = fr.spec
        g = gens[i]

        def run() -> Any:
            it = self.ev(g.iter)
            pairs = None
            en = None
            if isinstance(it, Tup) and len(it.items) == 3 and it.items[0] is ENUM:
                en, it = it.items[2], it.items[1]
            if isinstance(it, Tup) and len(it.items) == 2 and it.items[0] in (DITEMS, DVALS):
                pairs = (it.items[0], it.items[1])
                seq = self.dkeys(it.items[1])  # type: ignore
            elif isinstance(it, Con) and isinstance(it.v, (str,)):
                seq = self.iter_seq(it)
            else:
                seq = self.iter_seq(it)
            if en is not None:
                if any(s[0] == "s" for s in seq.segs):
                    raise Unsupported("enumerate in a comprehension over a symbolic sequence")
                st = self.pyint(en)
                seq = SeqVal([("u", Tup([Con(st + k), s[1]])) for k, s in enumerate(seq.segs)])

            def elem(x: Val) -> Any:
                if pairs is not None:
                    v = self.dict_at(self.dict(pairs[1]), x)  # type: ignore
                    x = Tup([x, v]) if pairs[0] is DITEMS else v
                self.assign(g.target, x)
                for cnd in g.ifs:
                    if not self.branch(self.truth(self.ev(cnd))):
                        return zero
                if i + 1 < len(gens):
                    return self._comp(gens, i + 1, elt, self.fr, kind, leaf, zero)
                return leaf(self.fr)

            if kind == "cat" and not self.spec and self.local is None and all(s[0] == "u" for s in seq.segs):
                # concrete shape: evaluate directly (may allocate)
                out: list = []
                for s in seq.segs:
                    out += list(elem(s[1]).segs)
                return SeqVal(out)
            return self.fold(kind, seq, elem)

        return self.in_frame(f2, run)

    def ev_SetComp(self, n: ast.SetComp) -> Val:
        def leaf(f: Frame) -> Any:
            return z3.SetAdd(z3.EmptySet(V), box(self.ev(n.elt)))

        t = self._comp(n.generators, 0, n.elt, self.fr, "set", leaf, z3.EmptySet(V))
        if self.spec:
            return SetVal(t)
        o = self.alloc(("set", T_ANY))
        self.hwrite("set", o, SetVal(t))
        return o

    def ev_DictComp(self, n: ast.DictComp) -> Val:
        o = self.alloc(("dict", T_ANY, T_ANY))
        # keys must be distinct or come from a dict's keys unchanged; otherwise only concrete shapes
        g = n.generators[0]
        it = self.ev(g.iter)
        if len(n.generators) == 1 and isinstance(it, Tup) and it.items[0] is DITEMS:
            src = it.items[1]
            d = self.dict(src)  # type: ignore
            if any(s[0] == "s" for s in d.keys.segs):
                return self.dict_map(n, o, d)
        if isinstance(it, Tup) and it.items[0] is ENUM and self.unit_any_exc and not self.spec:
            return self.any_dict(o)
        self.hwrite("dict", o, DictVal(SeqVal([]), z3.EmptySet(V), self.const("emptymap", MAP)))
        f2 = Frame(self.fr.fn, self.fr.g, None, parent=self.fr, cls=self.fr.cls)
        if isinstance(it, Tup) and it.items[0] is DITEMS:
            d = self.dict(it.items[1])  # type: ignore
            seq = SeqVal([("u", Tup([s[1], self.dict_at(d, s[1])])) for s in d.keys.segs])
        else:
            seq = self.iter_seq(it)
        if any(s[0] == "s" for s in seq.segs) or len(n.generators) != 1:
            simple = len(n.generators) == 1 and not g.ifs and all(isinstance(x, (ast.Name, ast.Attribute, ast.expr_context)) for y in (g.target, n.key, n.value) for x in ast.walk(y))
            if not (self.unit_any_exc or simple) or self.spec:  # (fields of declared types: reading them does not fail)
                raise Unsupported("dict comprehension over a symbolic sequence")
            return self.any_dict(o)

        def go() -> None:
            for s in seq.segs:
                self.assign(g.target, s[1])
                if all(self.branch(self.truth(self.ev(c))) for c in g.ifs):
                    self.dict_set(o, self.ev(n.key), self.ev(n.value))

        self.in_frame(f2, go)
        return o

    def any_dict(self, o: Obj) -> Obj:
        """A new dict whose content is left open (its parts have no side effects in the code under contract; exceptions are
        allowed there)."""
        self.hwrite("dict", o, DictVal(SeqVal([("s", self.const("anykeys", SEQ), T_ANY)]), self.const("anydom", SET), self.const("anymap", MAP), T_ANY, T_ANY))
        return o

    def dict_map(self, n: ast.DictComp, o: Obj, d: DictVal) -> Val:
        """{k': f(k, v) for k, v in d.items()} with an injective key map: a lambda term over the key."""
        f2 = Frame(self.fr.fn, self.fr.g, None, parent=self.fr, cls=self.fr.cls)

        with self.elscope() as x:

            def head() -> None:
                k = self.unbox(x, d.kt)
                v = self.unbox(z3.Select(d.m, x), d.vt, self.is_old(d.m))
                self.assign(n.generators[0].target, Tup([k, v]))

            def elem() -> Any:
                head()
                return Tup([self.ev(n.key), self.ev(n.value)])

            def guard() -> Any:
                head()
                return self.mkbool(z3.And([self.zb(self.mk_truth(self.ev(c))) for c in n.generators[0].ifs] or [z3.BoolVal(True)]))

            c = z3.And(z3.Select(d.dom, x), z3.Or([kind_test(x, a) for a in alts(d.kt)]), self.raw(self.in_frame(f2, lambda: self.merged(guard))))
            self.sol.push()
            saved = self.pc
            self.pc = self.pc + [("g", c)]
            self.sol.add(c)
            try:
                r = self.in_frame(f2, lambda: self.merged(elem))
            finally:
                self.sol.pop()
                extra = [p for p in self.pc[len(saved) + 1 :] if p[0] == "f"]
                self.pc = saved
            for p in extra:
                self.assume(z3.Implies(c, p[1]))
        if not isinstance(r, Tup):
            raise Unsupported("dict comprehension")
        kb, vb = z3.simplify(box(r.items[0])), box(r.items[1])
        vt = type_of(r.items[1])
        if not n.generators[0].ifs and (kb.eq(z3.simplify(x)) or self.provable(z3.Implies(c, kb == x))):
            m = z3.Lambda([x], vb)
            self.hwrite("dict", o, DictVal(d.keys, d.dom, m, d.kt, vt))
            return o
        # the last entry that is written to a key stays
        self.mapcount = getattr(self, "mapcount", 0) + 1
        src = z3.Function(f"dsrc_{self.mapcount}_{self.cc}", V, V)
        self.cc += 1
        dom, m = self.const("DD", SET), self.const("DM", MAP)
        ks = self.const("DK", SEQ)
        j = z3.Const("dj", V)
        sub = lambda t, y: z3.substitute(t, (x, y))
        self.assume(z3.ForAll([j], z3.Implies(z3.Select(dom, j), z3.And(sub(c, src(j)), sub(kb, src(j)) == j, z3.Select(m, j) == sub(vb, src(j)))), patterns=[z3.Select(dom, j)]))
        self.assume(z3.ForAll([x], z3.Implies(c, z3.Select(dom, kb)), patterns=[z3.Select(d.dom, x)]))
        if self.is_old(d.m) and vb.eq(z3.Select(d.m, x)):
            self.mark_old(m)
        self.hwrite("dict", o, DictVal(SeqVal([("s", ks, type_of(r.items[0]))]), dom, m, type_of(r.items[0]), vt))
        return o

    # -------------------------------------------------------------- calls
    def ev_Call(self, n: ast.Call) -> Any:
        if self.spec and isinstance(n.func, ast.Name) and n.func.id in SPECFN and n.func.id not in self.fr.loc:
            return getattr(self, "sp_" + n.func.id)(n)
        if isinstance(n.func, ast.Attribute):
            o = self.ev(n.func.value)
            if isinstance(o, Con) and type(o.v).__name__ == "Logger":
                return Con(None)
            if isinstance(o, U):
                if o.ty != T_ANY:
                    o = self.force(o)
            if isinstance(o, Opq):
                args = [self.ev(a) for a in n.args]
                return self.opq_call(o, n.func.attr, args)
            f = self.getattr_(o, n.func.attr)
        else:
            if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
                fr: Frame | None = self.fr
                while fr and fr.cls is None:
                    fr = fr.parent
                assert fr is not None
                slf = fr.loc["self"]
                return Sup(slf, slf.ty[1], fr.cls)  # type: ignore
            f = self.ev(n.func)
        if isinstance(f, Con) and f.v in _LAZY:
            return self.lazy_fn(f.v, n)
        args = self.ev_args(n.args)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                raise Unsupported("** in a call")
            kw[k.arg] = self.ev(k.value)
        return self.call(f, args, kw)

    def ev_args(self, ns: list) -> list:
        out: list = []
        for a in ns:
            if isinstance(a, ast.Starred):
                v = self.force(self.ev(a.value))
                if isinstance(v, Tup):
                    out += list(v.items)
                    continue
                s = self.iter_seq(v)
                if any(g[0] == "s" for g in s.segs):
                    raise Unsupported("* of a symbolic sequence in a call")
                out += [g[1] for g in s.segs]
            else:
                out.append(self.ev(a))
        return out

    def lazy_fn(self, f: Any, n: ast.Call) -> Any:
        """any/all/sum/... over a generator expression."""
        if f in (any, all) and len(n.args) == 1:
            a = n.args[0]
            v = self.ev(a)
            if isinstance(v, Clo):
                kind = "any" if f is any else "all"
                node = v.node
                r = self.in_frame(v.frame, lambda: self._comp(node.generators, 0, node.elt, v.frame, kind, lambda fr: self.zb(self.truth(self.ev(node.elt))), z3.BoolVal(kind == "all")))
                return self.mkbool(r)
            s = self.iter_seq(v)
            r = self.fold("any" if f is any else "all", s, lambda x: self.zb(self.truth(x)))
            return self.mkbool(r)
        if f is sum and len(n.args) == 1:
            v = self.ev(n.args[0])
            if isinstance(v, Clo):
                node = v.node
                r = self.in_frame(v.frame, lambda: self._comp(node.generators, 0, node.elt, v.frame, "sum", lambda fr: self.raw(self.force(self.ev(node.elt))), z3.IntVal(0)))
                return Sy("int", r)
            return Sy("int", self.fold("sum", self.iter_seq(v), lambda x: self.raw(self.force(x))))
        raise Unsupported(f"{f.__name__} with several arguments")

    def opq_call(self, o: Opq, name: str, args: list) -> Val:
        bs = [box(self.force(a) if isinstance(a, U) and a.ty != T_ANY and False else a) for a in args]
        f = z3.Function(f"OM_{name}_{len(bs)}", INT, *[V] * len(bs), V)
        t = f(o.t, *bs)
        self.mark_old(t)
        ty = core.OPQ_METH.get(name, "opaque | None" if name[:1].isupper() or name in OPT_METH else "opaque")
        self.u.trusted.add(f"external: .{name}() is a function of its receiver and arguments")
        return self.unbox(t, prog.ann_type(ast.parse(ty, mode="eval").body, self.fr.g), True)

    def call(self, f: Val, args: list, kw: dict) -> Any:
        if isinstance(f, U):
            f = self.force(f)
        if isinstance(f, Meth):
            if f.fn is not None:
                if f.fn[0] == "object_init":
                    return Con(None)
                return self.call_fn(f.fn[0], [f.slf, *args], kw, f.fn[1])
            return self.builtin_method(f.slf, f.name, args, kw)
        if isinstance(f, Clo):
            return self.call_clo(f, args)
        if isinstance(f, Con):
            return self.call_con(f.v, args, kw)
        if isinstance(f, Obj) and f.ty[0] == "cls":
            m = prog.has_class_attr(f.ty[1], "__call__")
            if isinstance(m, types.FunctionType):
                return self.call_fn(m, [f, *args], kw, f.ty[1])
        if isinstance(f, Opq):
            if not core.OPQ_CALL:
                raise Unsupported("call of an external object")
            self.u.trusted.add("callbacks modify nothing but " + ", ".join(core.OPQ_CALL))
            for m in core.OPQ_CALL:
                self.heap.setdefault(("f", m[2:]), []).append(("h", f"callback_{self.cc}", None))
                self.cc += 1
            if not self.unit_any_exc and self.choose():
                raise PyExc(Exception, where="callback")
            return self.fresh_val(T_BOOL, "callback")  # (the declared result)
        raise Unsupported(f"call of {type(f).__name__}")

    def call_clo(self, c: Clo, args: list) -> Val:
        if not isinstance(c.node, ast.Lambda):
            raise Unsupported("call of a generator")
        f2 = Frame(c.frame.fn, c.frame.g, None, parent=c.frame, cls=c.frame.cls)
        for a, v in zip(c.node.args.args, args):
            f2.loc[a.arg] = v
        return self.in_frame(f2, lambda: self.ev(c.node.body))

    def call_con(self, f: Any, args: list, kw: dict) -> Any:
        if isinstance(f, types.MethodType):
            if isinstance(f.__self__, type) and prog.in_repo(f.__func__):
                return self.call_fn(f.__func__, [Con(f.__self__), *args], kw, f.__self__)
            raise Unsupported(f"bound method {f}")
        name = f"{getattr(f, '__module__', '')}.{getattr(f, '__qualname__', getattr(f, '__name__', ''))}"
        if name in EXTERNAL:
            r = EXTERNAL[name](self, args, kw)
            if r is not NotImplemented:
                return r
        if isinstance(f, types.FunctionType) and prog.in_repo(f):
            return self.call_fn(f, args, kw, None)
        if isinstance(f, type):
            return self.instantiate(f, args, kw)
        raise Unsupported(f"external function {name}")

    def instantiate(self, c: type, args: list, kw: dict) -> Any:
        if issubclass(c, enum.Enum):
            x = self.force(args[0])
            if isinstance(x, Con):
                try:
                    return Con(c(x.v))
                except ValueError:
                    raise PyExc(ValueError, where=f"{c.__name__}()")
            for m in c:
                if type_of(x)[0] == type(m.value).__name__ and self.branch(self.raw(x) == lit(m.value)):
                    return Con(m)
            raise PyExc(ValueError, where=f"{c.__name__}()")
        if c in BUILTIN_CLS:
            return getattr(self, "bc_" + c.__name__)(args, kw)
        if issubclass(c, BaseException) and not prog.in_repo(c):
            return self.alloc(("cls", c))
        if prog.in_repo(c):
            o = self.alloc(("cls", c))
            init = prog.has_class_attr(c, "__init__")
            if isinstance(init, types.FunctionType):
                owner = next(k for k in c.__mro__ if "__init__" in vars(k))
                self.call_fn(init, [o, *args], kw, owner)
            return o
        raise Unsupported(f"class {c}")

    def bind(self, fn: Any, node: ast.FunctionDef, args: list, kw: dict) -> dict[str, Val]:
        a = node.args
        names = [p.arg for p in [*a.posonlyargs, *a.args]]
        loc: dict[str, Val] = {}
        if len(args) > len(names) and not a.vararg:
            raise PyExc(TypeError, where=f"{fn.__name__}() arguments")
        for n, v in zip(names, args):
            loc[n] = v
        if a.vararg:
            loc[a.vararg.arg] = Tup(args[len(names) :])
        extra = {}
        for k, v in kw.items():
            if k in loc:
                raise PyExc(TypeError, where=f"{fn.__name__}() arguments")
            if k in names or k in [p.arg for p in a.kwonlyargs]:
                loc[k] = v
            else:
                extra[k] = v
        if extra and not a.kwarg:
            raise PyExc(TypeError, where=f"{fn.__name__}() arguments")
        if a.kwarg:
            if extra:
                raise Unsupported("**kwargs")
            loc[a.kwarg.arg] = Con({})
        dfl = fn.__defaults__ or ()
        for n, d in zip(names[len(names) - len(dfl) :], dfl):
            if n not in loc:
                loc[n] = Con(d)
        for p in a.kwonlyargs:
            if p.arg not in loc:
                if fn.__kwdefaults__ and p.arg in fn.__kwdefaults__:
                    loc[p.arg] = Con(fn.__kwdefaults__[p.arg])
        for n in names + [p.arg for p in a.kwonlyargs]:
            if n not in loc:
                raise PyExc(TypeError, where=f"{fn.__name__}() misses {n}")
        return loc

    def find_contract(self, fn: Any) -> C | None:
        q = prog.qual(fn)
        for c in self.u.c.use:
            if c.target == q:
                return c
        c2 = core.GLOBAL_USE.get(q)
        return c2

    def call_fn(self, fn: Any, args: list, kw: dict, owner: type | None) -> Any:
        if not prog.in_repo(fn):
            raise Unsupported(f"external function {fn}")
        name = f"{fn.__module__}.{fn.__qualname__}"
        if name in EXTERNAL:
            r = EXTERNAL[name](self, args, kw)
            if r is not NotImplemented:
                return r
        node = prog.func_ast(fn)
        loc = self.bind(fn, node, args, kw)
        # the declared parameter types are known of untyped empty containers
        c = self.find_contract(fn)
        if c is not None and not (self.u.c is c and len(self.frames) == 0):
            if not self.spec or c.pure_spec():
                return self.apply(c, fn, node, loc, owner)
        if self.depth > core.DEPTH:
            raise Unsupported("recursion")
        qn = fn.__qualname__.split(".")
        cls = owner
        if len(qn) > 1 and qn[-2] != "<locals>":
            try:
                cls = prog.resolve(f"{fn.__module__}:{'.'.join(qn[:-1])}")
            except Exception:
                cls = owner
        fr = Frame(fn, fn.__globals__, node, cls=cls)
        fr.loc = loc
        if _is_gen(node):
            fr.yields = self.new_list([], it=True)
        self.frames.append(fr)
        self.depth += 1
        self.u.used.add(prog.qual(fn))
        sp, self.spec = self.spec, 0
        if sp:
            self.spec = 0
        try:
            try:
                self.ex_body(node.body)
                r: Any = Con(None)
            except Ret as e:
                r = e.v
            if fr.yields is not None:
                r = fr.yields
            return r
        finally:
            self.spec = sp
            self.depth -= 1
            self.frames.pop()

    def apply(self, c: C, fn: Any, node: ast.FunctionDef, loc: dict, owner: type | None) -> Any:
        """Use a callee's contract."""
        if self.local is not None and (c.modifies):
            raise Unsupported("effectful call in a pure expression")
        (self.u.trusted if c.trusted else self.u.assumed).add(c.name + (f" (trusted: {c.trusted})" if c.trusted else ""))
        fr = Frame(fn, fn.__globals__, node, cls=owner)
        fr.loc = dict(loc)
        fr.spec = c
        saved_old = self.saved.get("old")
        self.saved["old"] = (self.heap_copy(), dict(loc))
        try:
            for r in c.requires:
                self.prove(f"precondition of {c.name.split(':')[-1]}: {r}", self.zb(self.spec_bool(r, fr)))
                self.assume(self.zb(self.spec_bool(r, fr)))
            excs: list[tuple[type, str]] = [(getattr(builtins, exc, None) or prog.CLASSES[exc], cond) for exc, cond in c.raises.items()]
            if c.any_exc and (self.catching or not self.unit_any_exc):
                # any exception: those that are caught around here, or another one
                excs += [(k, "True") for k in dict.fromkeys([*self.catching, Exception]) if k.__name__ not in c.raises and k.__name__ not in c.never]
            for cls, cond in excs:
                t: Any = True if cond == "True" else self.spec_bool(cond, fr)
                if t is False:
                    continue
                if (cond == "True" and self.choose()) or (cond != "True" and f"iff {cls.__name__}" not in c.let and self.branch(self.zb(t)) and self.choose()):
                    self.apply_frame(c, fr)
                    for s in c.exc:
                        self.assume(self.zb(self.spec_bool(s, fr)))
                    raise PyExc(cls, where=f"from {c.name.split(':')[-1]}")
            base = self.apply_frame(c, fr)
            rty = prog.ann_type(ast.parse(c.result, mode="eval").body if c.result else node.returns, fn.__globals__)
            if c.result == "None" or (node.returns is not None and isinstance(node.returns, ast.Constant) and node.returns.value is None and not c.result):
                res: Val = Con(None)
            elif "result_is" in c.let:
                res = self.spec_val(c.let["result_is"], fr)
                if isinstance(res, SeqVal):
                    res = self.new_list(res, rty[1] if rty[0] == "list" else None)
            elif any(e.startswith("same(result, ") and e.endswith(")") and "," not in e[13:] for e in c.ensures):
                res = self.spec_val(next(e for e in c.ensures if e.startswith("same(result, "))[13:-1], fr)
            elif rty[0] in ("list", "dict", "set") and "fresh(result)" in c.ensures:
                res = self.alloc(rty)
                self.havoc_loc(rty[0], res.t, rty, "res")
            else:
                res = self.fresh_val(rty, "res")
            fr.loc["result"] = res
            for k, e in c.let.items():
                if k.startswith("iff ") or k in ("result_is", "old_result"):
                    continue
                fr.loc[k] = self.spec_val(e, fr)
            if any(k is not None and r is None for k, r, _ in self.loc_specs(c, fr, [m for m in c.modifies if m.startswith("*.") or m.startswith("items(*")])):
                for v in loc.values():
                    if isinstance(v, Obj) and is_num(v.t):
                        self.esc_refs.add(v.t.as_long())
            self.newbase = base
            for s in c.ensures:
                n = ast.parse(s, mode="eval").body
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "fresh":
                    o = self.spec_ev(n.args[0], fr)
                    if isinstance(o, U) and sum(a[0] in ("cls", "list", "dict", "set") for a in alts(o.ty)) == 1:
                        o = Obj(un_ref(o.t), next(a for a in alts(o.ty) if a[0] in ("cls", "list", "dict", "set")))
                    if isinstance(o, Obj) and not is_num(o.t):
                        self.keepalive.append(o.t)
                        self.hi[o.t.get_id()] = base
                try:
                    if s.startswith("same(") and not s.startswith("same(result, "):
                        self.assume_spec(s, fr)
                    else:
                        self.assume(self.zb(self.spec_bool(s, fr)))
                except Unsupported:
                    if self.local is None and c.raises and not self.feasible(z3.BoolVal(True)):
                        raise PathEnd()  # the callee cannot return here: its exceptions are other paths
                    raise
            if self.local is None and not self.feasible(z3.BoolVal(True)):
                if c.raises:
                    raise PathEnd()
                raise Unsupported(f"nothing satisfies the contract of {c.name} here")
            if self.local is None:
                self.rets.setdefault(fn.__name__, []).append(res)
            return res
        finally:
            self.newbase = 0
            if saved_old is not None:
                self.saved["old"] = saved_old

    def apply_frame(self, c: C, fr: Frame) -> int:
        """Forget what the callee may have modified."""
        ver = self.vname(c)
        base = self.reserve()
        for key, ref, ty in self.loc_specs(c, fr, c.modifies):
            if key == "*":
                raise Unsupported("callee modifies anything")
            if ref is None:
                self.heap.setdefault(key, []).append(("h", ver, ty))
            elif key in ("list", "dict", "set"):
                self.havoc_loc(key, ref, ty, ver)
            else:
                ob = self.spec_ev(ast.parse(next(m for m in c.modifies if m.endswith("." + key[1])), mode="eval").body.value, fr, at_old=True)  # type: ignore
                ft = prog.field_type(ob.ty[1], key[1]) or T_ANY
                self.hwrite(key, Obj(ref, ob.ty), self.fresh_val(ft, key[1]))
        return base

    def vname(self, c: C) -> str:
        self.cc += 1
        return f"{c.name.split('.')[-1].split(':')[-1]}_{self.cc}" + ("!it" if self.iterstack else "")

    # -------------------------------------------------------------- builtins
    def bc_list(self, args: list, kw: dict) -> Val:
        s = self.iter_seq(args[0]) if args else SeqVal([])
        return s if self.spec else self.new_list(s, self.elemtype(s) if s.segs else None)

    def bc_tuple(self, args: list, kw: dict) -> Val:
        s = self.iter_seq(args[0]) if args else SeqVal([])
        if any(g[0] == "s" for g in s.segs):
            raise Unsupported("tuple of a symbolic sequence")
        return Tup([g[1] for g in s.segs])

    def bc_dict(self, args: list, kw: dict) -> Val:
        if len(args) == 1 and not kw and isinstance(args[0], Tup) and args[0].items[0] is ZIP:
            return self.dict_zip(args[0].items[1], args[0].items[2])
        if args or kw:
            raise Unsupported("dict(...)")
        o = self.alloc(("dict", T_ANY, T_ANY))
        self.hwrite("dict", o, DictVal(SeqVal([]), z3.EmptySet(V), self.const("emptymap", MAP)))
        return o

    def dict_zip(self, xs: SeqVal, ys: SeqVal) -> Val:
        """dict(zip(xs, ys)): every key is an element of xs, at its last place before the shorter of the two ends."""
        a, b = self.seqterm(xs), self.seqterm(ys)
        ty = lambda s: next((g[2] for g in s.segs if g[0] == "s"), T_ANY) if len({g[2] if g[0] == "s" else type_of(g[1]) for g in s.segs}) == 1 else T_ANY
        kt, vt = ty(xs), ty(ys)
        o = self.alloc(("dict", kt, vt))
        old = self.is_old(b)
        if not (z3.is_const(a) and z3.is_const(b)):
            a0, b0, a, b = a, b, self.const("ZA", SEQ), self.const("ZB", SEQ)
            self.assume(z3.And(a == a0, b == b0))
        dom, m = self.const("ZD", SET), self.const("ZM", MAP)
        self.assume(z3.And(dom == z3.Function("ZIPDOM", SEQ, SEQ, SET)(a, b), m == z3.Function("ZIPMAP", SEQ, SEQ, MAP)(a, b)))
        at = z3.Function("ZIPAT", SEQ, SEQ, V, INT)
        k, i = z3.Const("zk", V), z3.Int("zi")
        n = z3.If(z3.Length(a) <= z3.Length(b), z3.Length(a), z3.Length(b))
        self.assume(z3.ForAll([k], z3.Implies(z3.Select(dom, k), z3.And(0 <= at(a, b, k), at(a, b, k) < n, a[at(a, b, k)] == k, z3.Select(m, k) == b[at(a, b, k)])), patterns=[z3.Select(dom, k)]))
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Select(dom, a[i]), i <= at(a, b, a[i]))), patterns=[a[i]]))
        if old:
            self.mark_old(m)
        self.hwrite("dict", o, DictVal(SeqVal([("s", z3.Function("ZIPKEYS", SEQ, SEQ, SEQ)(a, b), kt)]), dom, m, kt, vt))
        return o

    def bc_set(self, args: list, kw: dict) -> Val:
        if args and isinstance(args[0], U):
            args = [self.force(args[0])]
        if args and isinstance(args[0], Sy) and args[0].sort == "str":
            return Tup([CHARSET, args[0]])
        if args and isinstance(args[0], Con) and isinstance(args[0].v, str):
            return Con(frozenset(args[0].v))
        o = self.alloc(("set", T_ANY))
        t = z3.EmptySet(V)
        if args:
            s = self.iter_seq(args[0])
            t = self.fold("set", s, lambda x: z3.SetAdd(z3.EmptySet(V), box(x)))
        self.hwrite("set", o, SetVal(t))
        return o

    def bc_str(self, args: list, kw: dict) -> Val:
        return self.tostr(args[0]) if args else Con("")

    def bc_int(self, args: list, kw: dict) -> Val:
        a = self.force(args[0])
        if isinstance(a, Con):
            try:
                return Con(int(a.v, *[self.force(x).v for x in args[1:]]))
            except (ValueError, TypeError) as e:
                raise PyExc(type(e), where="int()")
        if isinstance(a, Sy) and a.sort == "int":
            return a
        if isinstance(a, Sy) and a.sort == "bool":
            return Sy("int", z3.If(a.t, 1, 0))
        if isinstance(a, Sy):
            b = z3.IntVal(10) if len(args) < 2 else self.raw(args[1])
            ok = z3.Function("INT_OK", STR, INT, BOOL)(a.t, b)
            if not self.branch(ok):
                raise PyExc(ValueError, where="int()")
            self.u.trusted.add("int(text, base) is a function of the text")
            return Sy("int", z3.Function("INT_OF", STR, INT, INT)(a.t, b))
        if isinstance(a, Obj) and (a.ty[0] in ("list", "dict", "set", "tuple") or a.ty[0] == "cls" and not any(hasattr(k, m) for k in subs(a.ty[1]) for m in ("__int__", "__index__", "__trunc__"))):
            raise PyExc(TypeError, where="int()")
        if isinstance(a, Obj) and a.ty[0] == "cls" and len(args) == 1:
            ms = {prog.has_class_attr(k, "__int__") for k in subs(a.ty[1])}
            m = next(iter(ms))
            if len(ms) == 1 and isinstance(m, types.FunctionType):
                return self.call_fn(m, [a], {}, a.ty[1])
        raise Unsupported("int()")

    def bc_bool(self, args: list, kw: dict) -> Val:
        return self.mkbool(self.truth(args[0]))

    def bc_range(self, args: list, kw: dict) -> Val:
        if all(isinstance(a, Con) for a in args):
            return Con(range(*[a.v for a in args]))
        if len(args) == 1:
            return Tup([RANGE, Con(0), args[0]])
        if len(args) == 2:
            return Tup([RANGE, *args])
        raise Unsupported("range with a step")

    def bc_enumerate(self, args: list, kw: dict) -> Val:
        return Tup([ENUM, args[0], kw.get("start", args[1] if len(args) > 1 else Con(0))])

    def bc_reversed(self, args: list, kw: dict) -> Val:
        s = self.iter_seq(args[0])
        if all(g[0] == "u" for g in s.segs):
            return self.new_list(SeqVal(list(reversed(s.segs))))
        segs = []
        for g in reversed(s.segs):
            if g[0] == "u":
                segs.append(g)
            else:
                r = z3.Function("REV", SEQ, SEQ)(g[1])
                self.assume(z3.Length(r) == z3.Length(g[1]))
                if self.is_old(g[1]):
                    self.mark_old(r)
                segs.append(("s", r, g[2]))
        return self.new_list(SeqVal(segs))

    def bc_zip(self, args: list, kw: dict) -> Val:
        ss = [self.iter_seq(a) for a in args]
        if any(g[0] == "s" for s in ss for g in s.segs):
            return Tup([ZIP, *ss])
        return self.new_list([Tup([g[1] for g in t]) for t in zip(*[s.segs for s in ss])])

    def bc_type(self, args: list, kw: dict) -> Val:
        v = self.force(args[0])
        if isinstance(v, Obj) and v.ty[0] == "cls":
            if v.exact:
                return Con(v.ty[1])
            cs = [c for c in subs(v.ty[1])]
            for c in cs[:-1]:
                if self.feasible(TAG(v.t) == tag_of(c)) and self.branch(TAG(v.t) == tag_of(c)):
                    return Con(c)
            return Con(cs[-1])
        if isinstance(v, Con):
            return Con(type(v.v))
        raise Unsupported("type()")

    def builtin_method(self, o: Val, name: str, args: list, kw: dict) -> Any:
        if isinstance(o, Con) and isinstance(o.v, str) or isinstance(o, Sy) and o.sort == "str":
            return self.str_method(o, name, args, kw)
        if isinstance(o, Con):
            if name in ("keys", "values", "items") and isinstance(o.v, dict) and not args:
                return Con(list(getattr(o.v, name)()) if name != "keys" else o.v)
            if name in _MUT:
                raise Unsupported("mutation of a constant container")
            if all(isinstance(a, Con) for a in args):
                try:
                    return Con(getattr(o.v, name)(*[a.v for a in args]))
                except Exception as e:
                    raise PyExc(type(e), where=name)
            if name == "get" and isinstance(o.v, dict):
                k = self.force(args[0])
                for kk in o.v:
                    if self.branch(self.zb(self.eq(k, Con(kk)))):
                        return Con(o.v[kk])
                return args[1] if len(args) > 1 else Con(None)
            raise Unsupported(f"method {name} of a constant")
        if isinstance(o, SeqVal):
            raise Unsupported(f"method {name} of a sequence")
        if isinstance(o, Obj) and o.ty[0] == "list":
            return self.list_method(o, name, args, kw)
        if isinstance(o, Obj) and o.ty[0] == "dict":
            return self.dict_method(o, name, args, kw)
        if isinstance(o, Obj) and o.ty[0] == "set":
            if name == "add":
                s = self.setv(o)
                self.hwrite("set", o, SetVal(z3.SetAdd(s.t, box(args[0])), s.et))
                return Con(None)
            if name in ("discard", "remove"):
                s = self.setv(o)
                if name == "remove" and not self.branch(z3.Select(s.t, box(args[0]))):
                    raise PyExc(KeyError, where="remove")
                self.hwrite("set", o, SetVal(z3.SetDel(s.t, box(args[0])), s.et))
                return Con(None)
        raise Unsupported(f"method {name} of {type(o).__name__}")

    def list_pop(self, o: Obj, i: Any) -> Val:
        s = self.items(o)
        k = self.pyint(i)
        v = self.seq_at(s, k)
        segs = list(s.segs)
        if isinstance(k, int):
            j = k if k >= 0 else len(segs) + k
            pre = segs[: j + 1] if k >= 0 else segs[j:]
            if 0 <= j < len(segs) and all(g[0] == "u" for g in pre):
                del segs[j]
                self.set_items(o, SeqVal(segs))
                return v
        if isinstance(k, int) and k == -1:
            self.set_items(o, self.seq_slice(s, 0, -1) if False else SeqVal([("s", z3.SubSeq(self.seqterm(s), 0, self.seqlen(s) - 1), self.elemtype(s))]))
            return v
        n = self.seqlen(s)
        zk = z3.IntVal(k) if isinstance(k, int) else k
        if not isinstance(k, int) and not self.provable(zk >= 0):
            raise Unsupported("pop index")
        if isinstance(k, int) and k < 0:
            zk = n + k
        t = self.seqterm(s)
        a = z3.SubSeq(t, 0, zk)
        b = z3.SubSeq(t, zk + 1, n - zk - 1)
        if isinstance(k, int) and k == 0:
            self.set_items(o, SeqVal([("s", b, self.elemtype(s))]))
            self.assume(t == z3.Concat(z3.Unit(box(v)), b))
        else:
            self.set_items(o, SeqVal([("s", a, self.elemtype(s)), ("s", b, self.elemtype(s))]))
            self.assume(t == z3.Concat(a, z3.Unit(box(v)), b))
        return v

    def list_method(self, o: Obj, name: str, args: list, kw: dict) -> Any:
        s = self.items(o)
        if name == "append":
            self.set_items(o, self.seqcat(s, SeqVal([("u", args[0])])))
            return Con(None)
        if name == "extend":
            self.list_extend(o, args[0])
            return Con(None)
        if name == "insert":
            k = self.pyint(args[0])
            x = SeqVal([("u", args[1])])
            if k == 0 and isinstance(k, int):
                self.set_items(o, self.seqcat(x, s))
                return Con(None)
            n = self.seqlen(s)
            if isinstance(n, int) and isinstance(k, int):
                segs = list(s.segs)
                segs.insert(k, ("u", args[1]))
                self.set_items(o, SeqVal(segs))
                return Con(None)
            self.set_items(o, self.seqcat(self.seq_slice(s, 0, k), x, self.seq_slice(s, k, None)))
            return Con(None)
        if name == "pop":
            return self.list_pop(o, args[0] if args else Con(-1))
        if name == "copy":
            return self.new_list(s, o.ty[1])
        if name == "clear":
            self.set_items(o, SeqVal([]))
            return Con(None)
        if name == "reverse":
            self.set_items(o, self.items(self.bc_reversed([o], {})))
            return Con(None)
        if name == "index" and all(g[0] == "u" for g in s.segs):
            for i, g in enumerate(s.segs):
                if self.branch(self.zb(self.eq(g[1], args[0]))):
                    return Con(i)
            raise PyExc(ValueError, where="index")
        raise Unsupported(f"list.{name}")

    def dict_method(self, o: Obj, name: str, args: list, kw: dict) -> Any:
        if name == "keys":
            return o
        if name == "items":
            return Tup([DITEMS, o])
        if name == "values":
            return Tup([DVALS, o])
        if name == "get":
            if self.branch(self.zb(self.contains(o, args[0]))):
                return self.dict_at(self.dict(o), args[0])
            return args[1] if len(args) > 1 else Con(None)
        if name == "copy":
            o2 = self.alloc(o.ty)
            self.hwrite("dict", o2, self.dict(o))
            return o2
        if name == "clear":
            self.hwrite("dict", o, DictVal(SeqVal([]), z3.EmptySet(V), self.const("emptymap", MAP)))
            return Con(None)
        raise Unsupported(f"dict.{name}")

    def str_method(self, o: Val, name: str, args: list, kw: dict) -> Any:
        args = [self.force(a) if isinstance(a, U) else a for a in args]
        if name == "join":
            return self.str_join(o, args[0])
        if isinstance(o, Con) and all(isinstance(a, Con) for a in args):
            return Con(getattr(o.v, name)(*[a.v for a in args], **{k: v.v for k, v in kw.items()}))
        t = self.raw(o)
        if name == "startswith" and not isinstance(args[0], Tup):
            return self.mkbool(z3.PrefixOf(self.raw(args[0]), t))
        if name == "endswith" and not isinstance(args[0], Tup):
            return self.mkbool(z3.SuffixOf(self.raw(args[0]), t))
        bs = [box(a) for a in args]
        self.u.trusted.add(f"str.{name} is a function of its arguments")
        if name in ("strip", "lstrip", "rstrip", "replace", "lower", "upper", "capitalize", "title", "rjust", "ljust", "zfill", "expandtabs"):
            r = z3.Function(f"STR_{name}_{len(bs)}", STR, *[V] * len(bs), STR)(t, *bs)
            if name in ("lstrip", "rstrip") and len(args) == 1 and isinstance(args[0], Con) and isinstance(args[0].v, str) and len(args[0].v) == 1:
                # what is taken away is a run of this character, the rest does not begin (end) with it
                c = z3.StringVal(args[0].v)
                cut = z3.Function(f"STR_{name}_cut", STR, V, STR)(t, bs[0])
                self.assume(t == (z3.Concat(cut, r) if name == "lstrip" else z3.Concat(r, cut)))
                self.assume(z3.InRe(cut, z3.Star(z3.Re(c))))
                self.assume(z3.Not(z3.PrefixOf(c, r) if name == "lstrip" else z3.SuffixOf(c, r)))
            return Sy("str", r)
        if name in ("isdigit", "isalpha", "isidentifier", "isspace", "isnumeric"):
            return self.mkbool(z3.Function(f"STR_{name}", STR, BOOL)(t))
        if name in ("split", "splitlines"):
            r = z3.Function(f"STR_{name}_{len(bs)}", STR, *[V] * len(bs), SEQ)(t, *bs)
            if name == "split" and bs:
                self.assume(z3.Length(r) >= 1)
                if isinstance(args[0], Con) and isinstance(args[0].v, str) and len(args[0].v) == 1 and not kw and (len(args) == 1 or isinstance(args[1], Con) and args[1].v == 1):
                    c = z3.StringVal(args[0].v)
                    i = z3.IndexOf(t, c, 0)
                    rest = z3.SubString(t, i + 1, z3.simplify(z3.Length(t) - (i + 1)))
                    one = SeqVal([("u", Sy("str", t))])
                    two = SeqVal([("u", Sy("str", z3.SubString(t, 0, i))), ("u", Sy("str", rest))])
                    if not self.branch(z3.Contains(t, c)):
                        return self.new_list(one, T_STR)
                    self.assume(i >= 0)
                    if len(args) == 2 or not self.branch(z3.Contains(rest, c)):
                        return self.new_list(two, T_STR)
                    self.assume(z3.Length(r) > 2)
            return self.new_list(SeqVal([("s", r, T_STR)]), T_STR)
        if name == "count":
            return Sy("int", self.str_count(t, bs[0]))
        if name in ("find", "rfind", "index"):
            n = z3.Function(f"STR_{name}", STR, V, INT)(t, bs[0])
            if name == "find" and len(args) == 1:
                return Sy("int", z3.IndexOf(t, self.raw(args[0]), 0))
            return Sy("int", n)
        raise Unsupported(f"str.{name}")

    def str_count(self, t: Any, needle: Any) -> Any:
        c = pyconst(un_str(needle)) if z3.is_app(needle) and needle.decl().name() == "mk_str" else None
        w = pyconst(t)
        if c is not None and len(c) == 1:
            # a single character occurs in a concatenation as often as in its parts
            if w is not None:
                return z3.IntVal(w.count(c))
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                return z3.Sum([self.str_count(x, needle) for x in t.children()])
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                return z3.If(t.arg(0), self.str_count(t.arg(1), needle), self.str_count(t.arg(2), needle))
            if z3.is_app(t) and t.decl().name() == "REPEAT" and pyconst(t.arg(0)) is not None:
                k = pyconst(t.arg(0)).count(c)
                return z3.IntVal(0) if not k else k * z3.If(t.arg(1) > 0, t.arg(1), 0)
        n = z3.Function("STR_count", STR, V, INT)(t, needle)
        self.assume(n >= 0)
        return n

    def str_join(self, sep: Val, it: Val) -> Val:
        s = self.iter_seq(it)
        if all(g[0] == "u" for g in s.segs):
            parts: list[Val] = []
            for i, g in enumerate(s.segs):
                if i:
                    parts.append(sep)
                x = self.force(g[1])
                if type_of(x)[0] != "str":
                    raise PyExc(TypeError, where="join")
                parts.append(x)
            return self.strcat(parts)
        return Sy("str", z3.Function("JOIN", STR, SEQ, STR)(self.raw(sep), self.seqterm(s)))

    # -------------------------------------------------------------- specification functions
    def sp_old(self, n: ast.Call) -> Any:
        return self._at("old", n)

    def _at(self, which: str, n: ast.Call) -> Any:
        st = self.saved["old"] if which == "old" else self.saved["$" + which][-1]
        f2 = Frame(self.fr.fn, self.fr.g, None, cls=self.fr.cls)
        f2.loc = {**{k: v for k, v in self.fr.loc.items() if k not in st[1]}, **st[1]}
        p: Any = self.fr.parent
        while p is not None:  # comprehension variables stay visible
            for k, v in p.loc.items():
                if k not in f2.loc and k not in st[1]:
                    f2.loc[k] = v
            p = p.parent
        f2.spec = self.fr.spec
        saved = self.heap
        self.heap = {k: list(v) for k, v in st[0].items()}
        try:
            return self.in_frame(f2, lambda: self._val(self.ev(n.args[0])))
        finally:
            self.heap = saved

    def _val(self, v: Any) -> Any:
        """The value independent of the heap it was read in."""
        if isinstance(v, Obj) and v.ty[0] == "list":
            return Snap(self.items(v), v) if False else v
        return v

    def sp_entry(self, n: ast.Call) -> Any:
        return self._at("entry", n)

    def sp_after(self, n: ast.Call) -> Any:
        """after(k, e): e in the state in which loop k ended"""
        k = n.args[0].value  # type: ignore
        if k not in self.afters:
            raise Unsupported(f"loop {k} has not ended here")
        self.saved["$after"] = [self.afters[k]]  # type: ignore
        return self._at("after", ast.Call(n.func, [n.args[1]], []))

    def sp_returned(self, n: ast.Call) -> Any:
        """returned('f'): the result of the last call of f (returned('f', i): of the i-th one)"""
        i = self.pyint(self.ev(n.args[1])) if len(n.args) > 1 else -1
        r = self.rets.get(n.args[0].value, [])  # type: ignore
        if not -len(r) <= i < len(r):
            raise PyExc(IndexError, where="no such call")
        return r[i]

    def sp_called(self, n: ast.Call) -> Any:
        """called('f'): how often f was called"""
        return Con(len(self.rets.get(n.args[0].value, [])))  # type: ignore

    def sp_before(self, n: ast.Call) -> Any:
        return self._at("it", n)

    def sp_items(self, n: ast.Call) -> Any:
        return self.items(self.ev(n.args[0]))

    def sp_domain(self, n: ast.Call) -> Any:
        return SetVal(self.dict(self.force(self.ev(n.args[0]))).dom)  # type: ignore

    def sp_content(self, n: ast.Call) -> Any:
        return SetVal(self.setterm(self.force(self.ev(n.args[0]))))

    def sp_mapping(self, n: ast.Call) -> Any:
        return self.dict(self.force(self.ev(n.args[0])))  # type: ignore

    sp_table = sp_mapping

    def sp_without(self, n: ast.Call) -> Any:
        """without(mapping(d), k): the mapping with k left out."""
        d, k = self.ev(n.args[0]), box(self.ev(n.args[1]))
        if not isinstance(d, DictVal):
            d = self.dict(self.force(d))  # type: ignore
        return DictVal(SeqVal([]), z3.SetDel(d.dom, k), z3.Store(d.m, k, V.nil), d.kt, d.vt)

    def sp_implies(self, n: ast.Call) -> Any:
        a = self.merged(lambda: self.mk_truth(self.ev(n.args[0])))
        self.sol.push()
        saved = self.pc
        self.pc = self.pc + [("g", a)]
        self.sol.add(a)
        try:
            if z3.is_false(z3.simplify(a)) or not self.feasible(z3.BoolVal(True)):
                return Con(True)
            b = self.merged(lambda: self.mk_truth(self.ev(n.args[1])))
        finally:
            self.sol.pop()
            extra = [p for p in self.pc[len(saved) + 1 :] if p[0] == "f"]
            self.pc = saved
        for p in extra:
            self.assume(z3.Implies(a, p[1]))
        return self.mkbool(z3.Implies(a, b))

    def sp_iff(self, n: ast.Call) -> Any:
        a = self.merged(lambda: self.mk_truth(self.ev(n.args[0])))
        b = self.merged(lambda: self.mk_truth(self.ev(n.args[1])))
        return self.mkbool(a == b)

    def sp_fresh(self, n: ast.Call) -> Any:
        v = self.ev(n.args[0])
        if isinstance(v, U):
            v = self.force(v)
        return self.mkbool(v.t < -self.newbase) if isinstance(v, Obj) else Con(False)

    def sp_same(self, n: ast.Call) -> Any:
        return self.mkbool(box(self.ev(n.args[0])) == box(self.ev(n.args[1])))

    def sp_ghost(self, n: ast.Call) -> Any:
        """ghost("name", "type", args...): an uninterpreted function."""
        name, ty = n.args[0].value, n.args[1].value  # type: ignore
        args = [self.ev(a) for a in n.args[2:]]
        bs = []
        for a in args:
            if isinstance(a, SeqVal) or (isinstance(a, Obj) and a.ty[0] == "list"):
                bs.append(self.seqterm(self.items(a)))
            else:
                bs.append(box(a))
        t = prog.ann_type(ast.parse(ty, mode="eval").body, self.fr.g)
        if t[0] == "list":
            r = z3.Function("G_" + name, *[b.sort() for b in bs], SEQ)(*bs)
            return SeqVal([("s", r, t[1])])
        r = z3.Function("G_" + name, *[b.sort() for b in bs], V)(*bs)
        return self.unbox(r, t)

    def sp_now(self, n: ast.Call) -> Any:
        return self.ev(n.args[0])

    def sp_forall(self, n: ast.Call) -> Any:
        """forall(lambda k: ..., "type")"""
        lam = n.args[0]
        assert isinstance(lam, ast.Lambda)
        ty = prog.ann_type(ast.parse(n.args[1].value, mode="eval").body, self.fr.g)  # type: ignore
        f2 = Frame(self.fr.fn, self.fr.g, None, parent=self.fr, cls=self.fr.cls)
        with self.elscope() as x:
            f2.loc[lam.args.args[0].arg] = self.unbox(x, ty, fact=False)
            b = self.in_frame(f2, lambda: self.merged(lambda: self.mk_truth(self.ev(lam.body))))
        kt = z3.Or([kind_test(x, a) for a in alts(ty)])
        return self.mkbool(z3.ForAll([x], z3.Implies(kt, b)))

    def sp_listof(self, n: ast.Call) -> Any:
        return self.items(self.ev(n.args[0]))

    def sp_text(self, n: ast.Call) -> Any:
        return self.tostr(self.ev(n.args[0]))

    def sp_typename(self, n: ast.Call) -> Any:
        raise Unsupported("typename")

    def sp_exactly(self, n: ast.Call) -> Any:
        """exactly(x, C): x is an instance of C itself."""
        v = self.ev(n.args[0])
        c = self.ev(n.args[1])
        t = box(v)
        return self.mkbool(z3.And(V.is_mk_ref(t), TAG(un_ref(t)) == tag_of(c.v)))


class ClassOf(Val):
    def __init__(self, o: Obj):
        self.o = o


class Sup(Val):
    def __init__(self, slf: Val, cls: type, after: type):
        self.slf, self.cls, self.after = slf, cls, after


CHARSET = Con("$chars")
ENUM, DITEMS, DVALS, RANGE, ZIP = Con("$enumerate"), Con("$items"), Con("$values"), Con("$range"), Con("$zip")
_LAZYF = (any, all, sum)


class _Lazy:
    def __contains__(self, f: Any) -> bool:
        return any(f is x for x in _LAZYF)


_LAZY = _Lazy()
BUILTIN_CLS = (list, tuple, dict, set, str, int, bool, range, enumerate, reversed, zip, type)
SPECFN = {"after", "returned", "called", "old", "entry", "before", "items", "domain", "content", "mapping", "implies", "iff", "fresh", "same", "ghost", "now", "forall", "text", "exactly", "without", "table"}
SPECCONST: dict[str, Any] = {}
# rule accessors whose rule the grammar makes optional where it uses it and which the code compares with None
OPT_METH: set[str] = {"inline_ctx", "func_alias"}
C.pure_spec = lambda self: not self.modifies and not self.raises  # type: ignore


@external("builtins.isinstance")
def _isinstance(x: Interp, args: list, kw: dict) -> Any:
    c = args[1]
    if isinstance(c, ClassOf):
        # isinstance(x, y.__class__): whichever class y has
        rs = [z3.And(TAG(c.o.t) == tag_of(k), x.zb(x.isinst(args[0], k))) for k in subs(c.o.ty[1])]
        return x.mkbool(z3.Or(rs))
    cv = c.v if isinstance(c, Con) else tuple(i.v for i in c.items)
    if isinstance(cv, types.UnionType):
        cv = cv.__args__
    import typing

    def norm(k: Any) -> Any:
        if isinstance(k, tuple):
            return tuple(norm(i) for i in k)
        if typing.get_origin(k) is typing.Union:
            return tuple(norm(i) for i in typing.get_args(k))
        return typing.get_origin(k) or k

    return x.mkbool(x.isinst(args[0], norm(cv)))


@external("typing.cast")
def _cast(x: Interp, args: list, kw: dict) -> Any:
    return args[1]


@external("builtins.len")
def _len(x: Interp, args: list, kw: dict) -> Any:
    v = x.force(args[0]) if isinstance(args[0], U) else args[0]
    if isinstance(v, Con):
        return Con(len(v.v))
    if isinstance(v, Tup):
        return Con(len(v.items))
    if isinstance(v, Sy):
        if v.sort != "str":
            raise PyExc(TypeError, where="len")
        return Sy("int", z3.Length(v.t))
    if isinstance(v, SeqVal):
        n = x.seqlen(v)
    elif isinstance(v, DictVal):
        n = x.seqlen(v.keys)
    elif isinstance(v, Obj) and v.ty[0] == "dict":
        n = x.seqlen(x.dict(v).keys)
    elif isinstance(v, SetVal) or isinstance(v, Obj) and v.ty[0] == "set":
        t = v.t if isinstance(v, SetVal) else x.setv(v).t
        n = z3.Function("CARD", SET, INT)(t)
        x.assume(z3.And(n >= 0, (n == 0) == (t == z3.EmptySet(V))))
    elif isinstance(v, Opq):
        n = z3.Function("OLEN", INT, INT)(v.t)
        x.assume(n >= 0)
    else:
        n = x.seqlen(x.items(v))
    return Con(n) if isinstance(n, int) else Sy("int", n)


@external("builtins.hasattr")
def _hasattr(x: Interp, args: list, kw: dict) -> Any:
    v = x.force(args[0])
    name = args[1].v
    if isinstance(v, Con):
        return Con(hasattr(v.v, name))
    if isinstance(v, Sy):
        return Con(hasattr({"int": 0, "str": "", "bool": True}[v.sort], name))
    if isinstance(v, Obj) and v.ty[0] == "cls":
        yes = [c for c in ([v.ty[1]] if v.exact else subs(v.ty[1])) if prog.field_type(c, name) is not None or prog.has_class_attr(c, name) is not None]
        no = [c for c in ([v.ty[1]] if v.exact else subs(v.ty[1])) if c not in yes]
        if not no:
            return Con(True)
        if not yes:
            return Con(False)
        return x.mkbool(z3.Or([TAG(v.t) == tag_of(c) for c in yes]))
    raise Unsupported("hasattr")


@external("builtins.callable")
def _callable(x: Interp, args: list, kw: dict) -> Any:
    raise Unsupported("callable")


@external("builtins.iter")
def _iter(x: Interp, args: list, kw: dict) -> Any:
    s = x.iter_seq(args[0])
    return x.new_list(s, x.elemtype(s) if s.segs else None, it=True)


@external("builtins.next")
def _next(x: Interp, args: list, kw: dict) -> Any:
    o = x.force(args[0])
    if not isinstance(o, Obj) or o.ty[0] != "list":
        raise Unsupported("next")
    n = x.seqlen(x.items(o))
    if not x.branch(n > 0):
        if len(args) > 1:
            return args[1]
        raise PyExc(StopIteration, where="next")
    return x.list_pop(o, Con(0))


@external("builtins.print")
def _print(x: Interp, args: list, kw: dict) -> Any:
    return Con(None)


@external("builtins.id")
def _id(x: Interp, args: list, kw: dict) -> Any:
    return Sy("int", z3.Function("ID", V, INT)(box(args[0])))


@external("builtins.min")
def _min(x: Interp, args: list, kw: dict) -> Any:
    return _minmax(x, args, kw, "min")


@external("builtins.max")
def _max(x: Interp, args: list, kw: dict) -> Any:
    return _minmax(x, args, kw, "max")


def _minmax(x: Interp, args: list, kw: dict, which: str) -> Any:
    if len(args) == 1:
        v = args[0]
        if isinstance(v, Clo):
            v = x.new_comp(v)
        s = x.iter_seq(v)
        if not s.segs and "default" in kw:
            return kw["default"]
        if "key" in kw:  # some element (which one is left open)
            n = x.seqlen(s)
            if not x.branch(n > 0 if not isinstance(n, int) else z3.BoolVal(n > 0)):
                if "default" in kw:
                    return kw["default"]
                raise PyExc(ValueError, where=which)
            i = x.const("chosen", INT)
            x.assume(z3.And(i >= 0, i < n))
            x.u.trusted.add(f"{which}(key=...) is one of the elements and the key function changes nothing")
            return x.seq_at(s, i, False)
        if any(g[0] == "s" and g[2][0] not in ("int", "any") for g in s.segs):
            raise Unsupported(f"{which} of a sequence of {s.segs}")
        if all(g[0] == "u" for g in s.segs) and s.segs:
            args = [g[1] for g in s.segs]
        else:
            t = x.seqterm(s)
            if not x.branch(z3.Length(t) > 0):
                if "default" in kw:
                    return kw["default"]
                raise PyExc(ValueError, where=which)
            m = z3.Function(which.upper() + "SEQ", SEQ, INT)(t)
            e = z3.Const("el!q", V)
            b = un_int(e) <= m if which == "max" else un_int(e) >= m
            dom = getattr(x, "keyof", {}).get(t.get_id())
            if dom is not None:
                x.assume(z3.ForAll([e], z3.Implies(z3.Select(dom, e), b), patterns=[z3.Select(dom, e)]))
                x.assume(z3.Select(dom, V.mk_int(m)))
                return Sy("int", m)
            x.assume(z3.ForAll([e], z3.Implies(z3.Contains(t, z3.Unit(e)), b), patterns=[z3.Contains(t, z3.Unit(e))]))
            x.assume(z3.Contains(t, z3.Unit(V.mk_int(m))))
            return Sy("int", m)
    r = x.raw(x.force(args[0]))
    for a in args[1:]:
        b = x.raw(x.force(a))
        r = z3.If(b > r if which == "max" else b < r, b, r)
    return Sy("int", z3.simplify(r))


@external("builtins.abs")
def _abs(x: Interp, args: list, kw: dict) -> Any:
    v = x.raw(x.force(args[0]))
    return Sy("int", z3.If(v < 0, -v, v))


@external("builtins.repr")
def _repr(x: Interp, args: list, kw: dict) -> Any:
    return Sy("str", z3.Function("REPR", V, STR)(box(args[0])))


@external("explorerscript.util.f")
def _f(x: Interp, args: list, kw: dict) -> Any:
    return Sy("str", x.const("msg", STR))


@external("explorerscript.util._")
def __(x: Interp, args: list, kw: dict) -> Any:
    return args[0]


@external("warnings.warn")
def _warn(x: Interp, args: list, kw: dict) -> Any:
    return Con(None)


@external("_warnings.warn")
def _warn2(x: Interp, args: list, kw: dict) -> Any:
    return Con(None)


core.Exec = Interp  # type: ignore
