"""Comparisons shared by the bounded contract checks."""
from __future__ import annotations

import random
from typing import Any, Optional

from . import gen as G
from . import impl
from . import lang as L
from . import sem
from .check import Bad, Skip


def table_of(r: L.Routine) -> tuple:
    return (r.kind, None if r.target is None else tuple(r.target), r.name if r.kind == "coro" else None)


def table_of_compiled(c: impl.Compiled) -> list:
    out = []
    for (k, lt, ln), nm in zip(c.infos, c.coros):
        t = None
        if k not in ("gen", "coro"):
            t = ("c", ln) if ln is not None else ("i", lt)
        out.append((k, t, nm if k == "coro" else None))
    return out


def table_of_rs(rs: dict) -> list:
    return [(k, tuple(t) if t is not None else None, nm if k == "coro" else None)
            for (k, t), nm in zip(rs["infos"], rs["coros"])]  # fmt: skip


def check_tables(c: impl.Compiled, **data: Any) -> None:
    n = len(c.ops)
    if not (len(c.infos) == n and len(c.coros) == n):
        raise Bad("routine tables differ in length", lens=(len(c.infos), len(c.coros), n), **data)
    if any(i is None for i in c.infos):
        raise Bad("routine without info", infos=c.infos, **data)


def same_behaviour(la: sem.LTS, ea: list, lb: sem.LTS, eb: list, sig: str, eq: Any = None, on_pair: Any = None, **data: Any) -> None:
    seen: dict = {}
    if len(ea) != len(eb):
        raise Bad(sig + ": number of routines", a=len(ea), b=len(eb), **data)
    for i, (a, b) in enumerate(zip(ea, eb)):
        if a is None or b is None:
            if a is None and b is None:
                continue
            raise Bad(sig + ": alias/empty routine", routine=i, **data)
        d = sem.bisim(la, a, lb, b, *( [eq] if eq else []), **({"on_pair": on_pair} if on_pair else {}))
        if d is not None:
            raise Bad(sig, routine=i, difference=d, **data)


def dm_eq(x: Any, y: Any) -> bool:
    """Equality of op/test keys where a dungeon-mode number 0..3 may stand as the configured constant."""
    if x == y:
        return True
    if x[0] != y[0] or len(x[1]) != len(y[1]):
        return False
    for i, (a, b) in enumerate(zip(x[1], y[1])):
        if a == b:
            continue
        if a[0] == "i" and 0 <= a[1] <= 3 and b == ("c", impl.DMODES[a[1]]) and (x[0] == "flag_SetDungeonMode" and i == 1 or x[0] == "Case" and i == 0):
            continue
        return False
    return True


def interp(p: L.Program, macros: dict | None = None, **kw: Any) -> tuple[sem.LTS, list]:
    it = sem.Interp(impl.PPL, macros, **kw)
    ents = it.program(p)
    return it.lts, ents


def entries(ents: list) -> list:
    return [e[4] for e in ents]


def walk(stmts: Any):
    for s in stmts:
        yield s
        for b in G.bodies(s):
            yield from walk(b)
        if isinstance(s, L.With):
            yield s.stmt
        if isinstance(s, L.For):
            yield s.init
            yield s.inc


def same_routine_set(rs: dict, c: impl.Compiled, sig: str, **data: Any) -> None:
    """Contract of the SsbScript spelling: the compiled result is the routine set, op for op, jumps denoting the same op."""
    if table_of_compiled(c) != table_of_rs(rs):
        raise Bad(sig + ": routine table differs", expected=table_of_rs(rs), got=table_of_compiled(c), **data)
    where_a = {o: (ri, i) for ri, rt in enumerate(rs["ops"]) for i, (o, _, _) in enumerate(rt)}
    where_b = {o: (ri, i) for ri, rt in enumerate(c.ops) for i, (o, _, _) in enumerate(rt)}
    for ri, (ra, rb) in enumerate(zip(rs["ops"], c.ops)):
        if len(ra) != len(rb):
            raise Bad(sig + ": number of ops differs", routine=ri, expected=len(ra), got=len(rb), **data)
        for i, ((_, na, pa), (_, nb, pb)) in enumerate(zip(ra, rb)):
            if na != nb:
                raise Bad(sig + ": opcode differs", routine=ri, index=i, expected=na, got=nb, **data)
            a, b = list(pa), list(pb)
            if na in sem.JUMP_PARAM_KINDS:
                ta, tb = a.pop(), (b.pop() if b else None)
                if tb is None or tb[0] != "i" or where_b.get(tb[1]) != where_a[ta[1]]:
                    raise Bad(sig + ": jump target differs", routine=ri, index=i, op=na, got=tb, **data)
            if sem.VS(a) != sem.VS(b):
                raise Bad(sig + ": parameters differ", routine=ri, index=i, op=na, expected=a, got=b, **data)


def show(rs: dict) -> dict:
    return {"infos": rs["infos"], "coros": rs["coros"], "ops": [[f"{o[0]} {o[1]} {o[2]}" for o in r] for r in rs["ops"]]}


UNSPELLABLE = "text that no literal of the language denotes"


def texts(rs: dict):
    for rt in rs["ops"]:
        for _, _, ps in rt:
            for p in ps:
                if p[0] == "s":
                    yield p[1], False
                elif p[0] == "l":
                    for _, t in p[1]:
                        yield t, False
                elif p[0] == "p":
                    yield p[1], True


def unspellable(rs: dict) -> bool:
    """Whether the routine set contains a text that no literal denotes (a known finding: C04, C06, C07)."""
    return any(("\\" in t or "\r" in t or "\f" in t) and L.literal_for(t, single) is None for t, single in texts(rs))
