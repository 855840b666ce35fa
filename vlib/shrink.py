"""Shrinks routine sets that fail a check (used to present and to classify failures)."""
from __future__ import annotations

import copy
import time
from typing import Callable


def _drop_op(rs: dict, ri: int, i: int) -> dict | None:
    o = rs["ops"][ri]
    off = o[i][0]
    if i + 1 < len(o):
        nxt = o[i + 1][0]
    else:
        return None
    q = copy.deepcopy(rs)
    del q["ops"][ri][i]
    for r in q["ops"]:
        for op in r:
            if _is_jump(op) and op[2] and op[2][-1] == ("i", off):
                op[2][-1] = ("i", nxt)
    return q


def _is_jump(op) -> bool:
    from .sem import JUMP_PARAM_KINDS

    return op[1] in JUMP_PARAM_KINDS


def shrink(rs: dict, fails: Callable[[dict], bool], limit: float = 20.0) -> dict:
    t_end = time.time() + limit
    rs = copy.deepcopy(rs)
    for r in rs["ops"]:
        for i, op in enumerate(r):
            r[i] = [op[0], op[1], list(op[2])]
    ch = True
    while ch and time.time() < t_end:
        ch = False
        for ri in reversed(range(len(rs["ops"]))):
            if len(rs["ops"]) > 1:
                q = copy.deepcopy(rs)
                del q["ops"][ri], q["infos"][ri], q["coros"][ri]
                if fails(q):
                    rs = q
                    ch = True
                    continue
            i = len(rs["ops"][ri]) - 1
            while i >= 0 and time.time() < t_end:
                q = _drop_op(rs, ri, i)
                if q is not None and fails(q):
                    rs = q
                    ch = True
                else:
                    op = rs["ops"][ri][i]
                    if op[2] and not _is_jump(op):
                        q = copy.deepcopy(rs)
                        q["ops"][ri][i][2] = []
                        if fails(q):
                            rs = q
                i -= 1
    return rs
