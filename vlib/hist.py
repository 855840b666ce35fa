"""Inputs of all kinds (compile, decompile; valid and failing) and complete descriptions of their results (C11, C12)."""
from __future__ import annotations

import os
import pickle
import random
import signal
import struct
from typing import Any

from . import gen, impl, lang as L, proj

AVAILABLE = (Exception,)


# ----------------------------------------------------------------------------------------------------------- inputs
def item(rng: random.Random, small: bool = False) -> tuple:
    """(kind, content): content needs nothing but the standard library to be built again."""
    w = rng.random()
    size = rng.randint(1, 6 if small else 16)
    if w < 0.2:
        p = proj.random_project(rng, files=0, macros=rng.choice([0, 1, 2]), depth=rng.choice([0, 1] if small else [0, 1, 2]))
        t = p.texts["main.exps"]
        if rng.random() < 0.25:
            from checks.C10 import corrupt

            t = corrupt(rng, t)
        return ("exps", t)
    if w < 0.3:
        return ("exps", L.to_text(gen.flat_program(rng, empty=0.1), L.Style(rng)))
    if w < 0.4:
        p = proj.random_project(rng, files=rng.choice([1, 2, 3]), macros=rng.choice([1, 2, 3]), depth=0)
        return ("project", (dict(p.texts), dict(p.decoys), list(p.lookup), p.main))
    rs = gen.random_rs(rng, size=size, routines=rng.randint(1, 2 if small else 3), coherent=rng.random() < 0.85, calls=rng.choice([0, 0, 0.1]),
                       loops=rng.random() < 0.5)  # fmt: skip
    if rng.random() < 0.5:
        rs = gen.renumber(rs, rng)
    if w < 0.85:
        return ("decompile", rs)
    if w < 0.9:
        return ("decompile ssb", rs)
    return ("json", rs)


def leftover(rng: random.Random) -> list:
    """A program with macros (in the file, or imported), and the same program where a called macro has another name / without the import."""
    import re

    if rng.random() < 0.5:
        t = proj.random_project(rng, files=0, macros=rng.choice([1, 2]), depth=rng.choice([0, 1])).texts["main.exps"]
        names = re.findall(r"macro\s+(\w+)\s*\(", t)
        if not names:
            return []
        n = rng.choice(names)
        return [("exps", t), ("exps", re.sub(rf"(macro\s+){n}(\s*\()", rf"\1{n}_gone\2", t))]
    p = proj.random_project(rng, files=rng.choice([1, 2]), macros=rng.choice([1, 2, 3]), depth=0)
    a = dict(p.texts)
    b = {**a, p.main: re.sub(r"import\s+(\"[^\"]*\"|'[^']*')\s*;", "", a[p.main])}
    return [("project", (a, dict(p.decoys), list(p.lookup), p.main)), ("project", (b, dict(p.decoys), list(p.lookup), p.main))]


def structured(rng: random.Random) -> tuple:
    """A routine set compiled from a nested program (the common case for the decompiler). Compiles: use it in a child."""
    p = proj.random_project(rng, files=0, macros=0, depth=rng.choice([1, 2]))
    return ("exps then decompile", p.texts["main.exps"])


# ---------------------------------------------------------------------------------------------------------- results
def raw(p: Any) -> Any:
    return (type(p).__name__, impl.val(p))


def ops_digest(routine_ops: Any) -> Any:
    return [[(o.offset, type(o).__name__, o.op_code.id, o.op_code.name, [raw(p) for p in o.params]) for o in r] for r in routine_ops]


def compiled_digest(c: Any) -> Any:
    return ("compiled", ops_digest(c.routine_ops), [None if i is None else (str(i.type), i.linked_to, i.linked_to_name) for i in c.routine_infos],
            [str(x) for x in c.named_coroutines], c.source_map.serialize(), list(getattr(c, "imports", [])))  # fmt: skip


def err(e: BaseException) -> tuple:
    return ("raised", type(e).__name__)


class Held:
    """Something returned earlier: its description is taken again later."""

    def __init__(self, f: Any):
        self.f, self.d = f, f()

    def changed(self) -> bool:
        return self.f() != self.d


class Snapshot:
    """The routine sets handed to the decompilers, before."""

    def __init__(self, infos: Any, ops: Any, coros: Any):
        self.a = (infos, ops, coros)
        self.d = self.now()

    def now(self) -> Any:
        infos, ops, coros = self.a
        return (ops_digest(ops), [(str(i.type), i.linked_to, i.linked_to_name) for i in infos], [(c.id, c.name) for c in coros])

    def changed(self) -> bool:
        return self.now() != self.d


def run_item(it: tuple, *, compiler: Any = None, ssb_compiler: Any = None, again: int = 0, root: str | None = None, notes: list | None = None,
             held: list | None = None) -> Any:  # fmt: skip
    """The result of processing an item. again: what to do a second time on the same objects (0 nothing, 1 same decompiler, 2 same routine set)."""
    kind, x = it
    notes = notes if notes is not None else []
    held = held if held is not None else []
    try:
        if kind in ("exps", "exps then decompile"):
            c = compiler or impl.ExplorerScriptSsbCompiler(impl.PPL, [])
            c.compile(x, "/nonexistent/dir/x.exps")
            ops, sm, infos, coros = c.routine_ops, c.source_map, c.routine_infos, c.named_coroutines
            held.append(Held(lambda: (ops_digest(ops), sm.serialize())))
            r = compiled_digest(c)
            if kind == "exps":
                return r
            rs = impl.to_routine_set(impl.Compiled(c))
            return (r, run_item(("decompile", rs), again=again, notes=notes, held=held))
        if kind == "project":
            texts, decoys, lookup, main = x
            assert root is not None
            for f, t in {**texts, **decoys}.items():
                p = os.path.join(root, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w", encoding="utf-8", newline="") as h:
                    h.write(t.replace("{ROOT}", root))
            if compiler is None:
                c = impl.ExplorerScriptSsbCompiler(impl.PPL, [os.path.join(root, l) for l in lookup])
            else:
                c = compiler
                c.lookup_paths = [os.path.join(root, l) for l in lookup]
            c.compile(texts[main].replace("{ROOT}", root), os.path.join(root, main))
            return _strip(compiled_digest(c), root)
        if kind == "ssb":
            c = ssb_compiler or impl.SsbScriptSsbCompiler()
            c.compile(x)
            return compiled_digest(c)
        if kind == "json":
            from explorerscript.cli import decompile as D

            doc = json_doc(x)
            infos, coros, ops = D.read_routines(doc)
        else:
            infos, ops, coros = impl.build_infos(x["infos"]), impl.build_ops(x["ops"]), impl.build_coros(x["coros"])
        snap = Snapshot(infos, ops, coros)

        def make() -> Any:
            if kind == "decompile ssb":
                return impl.SsbScriptSsbDecompiler(infos, ops, coros)
            return impl.ExplorerScriptSsbDecompiler(infos, ops, coros, impl.PPL, impl.DungeonModeConstants(*impl.DMODES))

        d = make()
        text, sm = d.convert()
        held.append(Held(lambda: sm.serialize()))
        if snap.changed():
            notes.append("the routine set was altered")
        r = ("text", text, sm.serialize())
        if again:
            d2 = d if again == 1 else make()
            t2, sm2 = d2.convert()
            if (t2, sm2.serialize()) != r[1:]:
                notes.append("the second conversion of the same " + ("decompiler" if again == 1 else "routine set") + " gives another result")
        return r
    except RecursionError:
        return ("resource",)
    except Exception as e:
        return err(e)


def _strip(x: Any, root: str) -> Any:
    """Results do not depend on where the scratch directory is."""
    if isinstance(x, str):
        return x.replace(root, "{ROOT}")
    if isinstance(x, (list, tuple)):
        return type(x)(_strip(y, root) for y in x)
    return x


def json_doc(rs: dict) -> list:
    from checks.C15 import doc_of

    d = doc_of(rs)
    return d["routines"] if isinstance(d, dict) else d


# ------------------------------------------------------------------------------------------------- forked children
def in_child(f: Any, limit: int = 60) -> Any:
    """f() in a forked child of this process (which has not processed anything). None when the child gave no answer."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(limit)
            data = pickle.dumps(f())
            with os.fdopen(w, "wb") as h:
                h.write(struct.pack(">Q", len(data)) + data)
                h.flush()
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as h:
            data = h.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    if len(data) < 8 or len(data) - 8 != struct.unpack(">Q", data[:8])[0]:
        return None
    return pickle.loads(data[8:])
