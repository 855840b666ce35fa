"""Thin access layer to the real code in /repo (imported from the current working tree)."""
from __future__ import annotations

import os
import sys
import warnings
from fractions import Fraction
from typing import Any, Optional

REPO = os.environ.get("VP_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.simplefilter("ignore")
import logging  # noqa: E402

logging.disable(logging.CRITICAL)

from explorerscript.error import ParseError, SsbCompilerError  # noqa: E402
from explorerscript.source_map import SourceMap  # noqa: E402
from explorerscript.ssb_converting.ssb_compiler import ExplorerScriptSsbCompiler  # noqa: E402
from explorerscript.ssb_converting.ssb_data_types import (  # noqa: E402
    DungeonModeConstants, SsbCoroutine, SsbOpCode, SsbOperation, SsbOpParamConstant, SsbOpParamConstString,
    SsbOpParamFixedPoint, SsbOpParamLanguageString, SsbOpParamPositionMarker, SsbRoutineInfo, SsbRoutineType,
)  # fmt: skip
from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler  # noqa: E402
from explorerscript.ssb_script.ssb_converting.ssb_compiler import SsbScriptSsbCompiler  # noqa: E402
from explorerscript.ssb_script.ssb_converting.ssb_decompiler import SsbScriptSsbDecompiler  # noqa: E402

from .lang import dec_value  # noqa: E402

PPL = "$PERFORMANCE_PROGRESS_LIST"
DMODES = ("DMODE_CLOSE", "DMODE_OPEN", "DMODE_REQUEST", "DMODE_OPEN_AND_REQUEST")
ALLOWED = (ParseError, SsbCompilerError, ValueError)
KIND = {"gen": SsbRoutineType.GENERIC, "actor": SsbRoutineType.ACTOR, "object": SsbRoutineType.OBJECT,
        "performer": SsbRoutineType.PERFORMER, "coro": SsbRoutineType.COROUTINE}  # fmt: skip
KIND_R = {v: k for k, v in KIND.items()}


def val(p: Any) -> tuple:
    if isinstance(p, bool):
        return ("?", repr(p))
    if isinstance(p, int):
        return ("i", p)
    if isinstance(p, SsbOpParamConstant):
        return ("c", p.name)
    if isinstance(p, SsbOpParamFixedPoint):
        try:
            return dec_value(str(p))
        except ValueError:
            return ("?", str(p))
    if isinstance(p, SsbOpParamConstString):
        return ("s", p.name)
    if isinstance(p, SsbOpParamLanguageString):
        return ("l", tuple(p.strings.items()))
    if isinstance(p, SsbOpParamPositionMarker):
        return ("p", p.name, p.x_offset, p.y_offset, p.x_relative, p.y_relative)
    return ("?", repr(p))


def unval(v: tuple) -> Any:
    k = v[0]
    if k == "i":
        return v[1]
    if k == "c":
        return SsbOpParamConstant(v[1])
    if k == "f":
        fr: Fraction = v[1]
        from .lang import frac_lit

        s = frac_lit(fr, v[2])
        w, d = s.split(".")
        if w == "-0":
            return SsbOpParamFixedPoint(SsbOpParamFixedPoint.NegativeZero, d)
        return SsbOpParamFixedPoint(int(w), d)
    if k == "s":
        return SsbOpParamConstString(v[1])
    if k == "l":
        return SsbOpParamLanguageString(dict(v[1]))
    if k == "p":
        return SsbOpParamPositionMarker(*v[1:])
    raise ValueError(v)


class Compiled:
    def __init__(self, c: Any):
        self.raw = c
        self.ops = [[(o.offset, o.op_code.name, [val(p) for p in o.params]) for o in r] for r in c.routine_ops]
        self.infos = []
        for i in c.routine_infos:
            if i is None:
                self.infos.append(None)
            else:
                self.infos.append((KIND_R[i.type], i.linked_to, i.linked_to_name))
        self.coros = list(c.named_coroutines)
        self.source_map = c.source_map

    @property
    def types(self) -> list:
        return [[type(o).__name__ for o in r] for r in self.raw.routine_ops]


def compile_text(text: str, file_name: str = "/nonexistent/x.exps", lookup: Optional[list] = None, ppl: str = PPL,
                 compiler: Any = None) -> Compiled:  # fmt: skip
    c = compiler or ExplorerScriptSsbCompiler(ppl, lookup)
    c.compile(text, file_name)
    return Compiled(c)


def compile_ssbscript(text: str) -> Compiled:
    c = SsbScriptSsbCompiler()
    c.compile(text)
    return Compiled(c)


def build_ops(routines: list[list[tuple]]) -> list[list[SsbOperation]]:
    return [[SsbOperation(off, SsbOpCode(-1, n), [unval(p) for p in ps]) for off, n, ps in r] for r in routines]


def build_infos(infos: list[tuple]) -> list[SsbRoutineInfo]:
    """(kind, target value|None)"""
    out = []
    for k, t in infos:
        if k in ("gen", "coro"):
            out.append(SsbRoutineInfo(KIND[k], 0))
        elif t[0] == "i":
            out.append(SsbRoutineInfo(KIND[k], t[1]))
        else:
            out.append(SsbRoutineInfo(KIND[k], -1, t[1]))
    return out


def build_coros(names: list) -> list[SsbCoroutine]:
    return [SsbCoroutine(i, n if n is not None else "n/a") for i, n in enumerate(names)]


def decompiler(rs: dict) -> ExplorerScriptSsbDecompiler:
    return ExplorerScriptSsbDecompiler(
        build_infos(rs["infos"]), build_ops(rs["ops"]), build_coros(rs["coros"]), PPL, DungeonModeConstants(*DMODES)
    )


def decompile(rs: dict) -> tuple[str, SourceMap]:
    return decompiler(rs).convert()


def decompile_ssbscript(rs: dict) -> tuple[str, SourceMap]:
    return SsbScriptSsbDecompiler(build_infos(rs["infos"]), build_ops(rs["ops"]), build_coros(rs["coros"])).convert()


def to_routine_set(c: Compiled) -> dict:
    """A compiled program as input for the decompilers."""
    infos = []
    for k, lt, ln in c.infos:
        infos.append((k, None if k in ("gen", "coro") else ("c", ln) if ln is not None else ("i", lt)))
    names = [n if isinstance(n, str) else None for n in c.coros]
    return {"infos": infos, "ops": [[(o, n, list(p)) for o, n, p in r] for r in c.ops], "coros": names}
