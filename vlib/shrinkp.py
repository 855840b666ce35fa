"""Shrinks source programs (AST) that fail a check."""
from __future__ import annotations

import copy
import time
from typing import Any, Callable

from . import gen as G
from . import lang as L


def _lists(p: L.Program) -> list:
    out: list = []

    def rec(b: list) -> None:
        out.append(b)
        for s in b:
            for x in G.bodies(s):
                rec(x)

    for r in p.routines:
        if r.body:
            rec(r.body)
    for m in p.macros:
        rec(m.body)
    return out


def _variants(p: L.Program) -> Any:
    for i in reversed(range(len(p.routines))):
        if len(p.routines) > 1:
            q = copy.deepcopy(p)
            del q.routines[i]
            for n, r in enumerate(q.routines):
                if r.kind != "coro":
                    r.id = n
            yield q
    for li in range(len(_lists(p))):
        n = len(_lists(p)[li])
        for i in reversed(range(n)):
            q = copy.deepcopy(p)
            del _lists(q)[li][i]
            yield q
            s = _lists(p)[li][i]
            for bi in range(len(G.bodies(s))):
                q = copy.deepcopy(p)
                l2 = _lists(q)[li]
                l2[i:i + 1] = G.bodies(l2[i])[bi]
                yield q
            if isinstance(s, L.If):
                for k in range(len(s.branches)):
                    if len(s.branches) > 1:
                        q = copy.deepcopy(p)
                        del _lists(q)[li][i].branches[k]
                        yield q
                    if len(s.branches[k][1]) > 1:
                        for c in range(len(s.branches[k][1])):
                            q = copy.deepcopy(p)
                            del _lists(q)[li][i].branches[k][1][c]
                            yield q
                if s.els is not None:
                    q = copy.deepcopy(p)
                    _lists(q)[li][i].els = None
                    yield q
            if isinstance(s, L.Switch):
                for k in range(len(s.cases)):
                    if len(s.cases) > 1:
                        q = copy.deepcopy(p)
                        del _lists(q)[li][i].cases[k]
                        yield q
            if isinstance(s, L.Op) and s.args:
                q = copy.deepcopy(p)
                _lists(q)[li][i].args = []
                yield q


def shrink(p: L.Program, fails: Callable[[L.Program], bool], limit: float = 20.0) -> L.Program:
    t = time.time() + limit
    ch = True
    while ch and time.time() < t:
        ch = False
        for q in _variants(p):
            if time.time() > t:
                break
            try:
                if fails(q):
                    p = q
                    ch = True
                    break
            except Exception:
                continue
    return p
