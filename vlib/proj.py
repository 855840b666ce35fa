"""Projects: a main file with macros and imported macro files, written to a scratch directory, and their meaning."""
from __future__ import annotations

import os
import random
import shutil
import tempfile
from contextlib import contextmanager
from typing import Any

from . import gen, impl, lang as L, sem

BASE = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
PNAMES = ["$p", "$q", "$A", "$VAR_B", "$x1"]


@contextmanager
def scratch():
    d = os.path.realpath(tempfile.mkdtemp(prefix="verif_", dir=BASE))
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Project:
    """files: path relative to the root -> Program (AST); main: one of them; lookup: lookup directories (relative to the root)."""

    def __init__(self) -> None:
        self.files: dict[str, L.Program] = {}
        self.main = "main.exps"
        self.lookup: list[str] = []
        self.decoys: dict[str, str] = {}
        self.edges: dict[str, list[str]] = {}

    def describe(self) -> dict:
        return {"files": dict(self.texts), "decoys": self.decoys, "lookup": self.lookup, "main": self.main}

    def render(self, rng: random.Random | None = None) -> None:
        """Texts of the files (with {ROOT} standing for the root directory in absolute imports)."""
        self.texts = {f: L.to_text(p, L.Style(rng) if rng else None) for f, p in self.files.items()}

    def write(self, root: str) -> None:
        for f, t in {**self.texts, **self.decoys}.items():
            p = os.path.join(root, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="utf-8", newline="") as h:
                h.write(t.replace("{ROOT}", root))

    def compile(self, root: str, compiler: Any = None) -> impl.Compiled:
        main = os.path.join(root, self.main)
        return impl.compile_text(self.texts[self.main].replace("{ROOT}", root), main,
                                 [os.path.join(root, x) for x in self.lookup], compiler=compiler)  # fmt: skip

    def parse(self) -> dict[str, L.Program]:
        """The files read again by the specification's grammar (this gives the positions)."""
        return {f: L.parse(t) for f, t in self.texts.items()}

    def meaning(self, progs: dict[str, L.Program] | None = None) -> tuple[sem.Interp, list]:
        progs = progs or self.parse()
        macros = {m.name: (m, f) for f, p in progs.items() for m in p.macros}
        it = sem.Interp(impl.PPL, macros)
        ents = it.program(progs[self.main])
        return it, ents


def closure(p: Project, f: str) -> set[str]:
    out: set[str] = set()
    todo = list(p.edges.get(f, []))
    while todo:
        x = todo.pop()
        if x not in out:
            out.add(x)
            todo += p.edges.get(x, [])
    return out


def random_project(rng: random.Random, *, files: int | None = None, macros: int | None = None, flow: bool = True,
                   depth: int | None = None, pg: dict | None = None, used_args: bool = False) -> Project:  # fmt: skip
    p = Project()
    nf = rng.choice([0, 0, 1, 2, 3, 4]) if files is None else files
    names = rng.sample(["a.exps", "lib/b.exps", "lib/deep/c.exps", "other/d.exps", "lp1/e.exps", "lp2/sub/f.exps", "lib/g.exps"], nf)
    order = ["main.exps"] + names
    p.lookup = rng.choice([["lp1", "lp2"], ["lp2", "lp1"], ["lp0", "lp1", "lp2"]])
    for i, f in enumerate(order):
        p.edges[f] = []
    for i, f in enumerate(order[1:], 1):
        imps = rng.sample(order[:i], rng.randint(1, min(i, 2)))
        for x in imps:
            p.edges[x].append(f)
    imp_text: dict[str, list[str]] = {}
    for f, ts in p.edges.items():
        rng.shuffle(ts)
        out = []
        for t in ts:
            rel = os.path.relpath(t, os.path.dirname(f) or ".")
            if not rel.startswith("."):
                rel = "./" + rel
            opts = [rel, rel, "{ROOT}/" + t]
            for lp in p.lookup:
                if t.startswith(lp + "/"):
                    opts += [t[len(lp) + 1:]] * 3
                    # a decoy of the same name in a later lookup path must not be taken
                    later = p.lookup[p.lookup.index(lp) + 1:]
                    if later and rng.random() < 0.5:
                        p.decoys[later[-1] + "/" + t[len(lp) + 1:]] = "macro decoy_" + t.replace("/", "_").replace(".", "_") + "() { decoy(); }\n"
            out.append(rng.choice(opts))
        imp_text[f] = out
    # macros: those of files further down first
    nm = rng.choice([1, 1, 2, 3, 4, 6]) if macros is None else macros
    where: dict[str, list[str]] = {f: [] for f in order}
    for k in range(nm):
        where[rng.choice(order)].append(f"m{k}")
    for f in order[1:]:
        if not where[f] and rng.random() < 0.8:
            where[f].append(f"mf_{f.replace('/', '_').split('.')[0]}")
    arity: dict[str, int] = {}
    defs: dict[str, list[L.Macro]] = {f: [] for f in order}
    pg = pg or {}
    for f in reversed(order):
        cl = closure(p, f)
        vis = {n for x in cl for n in where[x]}
        for n in where[f]:
            ar = rng.choice([0, 1, 1, 2, 3])
            prm = rng.sample(PNAMES, ar)
            g = gen.ProgGen(rng, depth=rng.choice([0, 0, 1, 2]) if depth is None else depth, width=rng.randint(1, 3),
                            macros={x: arity[x] for x in vis}, flow_ops=flow, **pg)  # fmt: skip
            g.n = 100 * len(arity) + 1000
            g.macro_params = prm
            g.in_macro = True
            body = g.routine_body()
            if used_args:
                body[:0] = [L.Op(f"use_{n}_{i}", [("c", x)]) for i, x in enumerate(prm)]
            arity[n] = ar
            defs[f].append(L.Macro(n, prm, body))
            vis.add(n)
    for f in order:
        ms = defs[f]
        rng.shuffle(ms)
        if f == "main.exps":
            g = gen.ProgGen(rng, depth=rng.choice([0, 1, 2]) if depth is None else depth, width=rng.randint(1, 4),
                            macros={n: arity[n] for x in closure(p, f) | {f} for n in where[x]}, flow_ops=flow, **pg)  # fmt: skip
            prog = g.program()
            prog.macros = ms
            prog.order = list(ms)
            for r in prog.routines:  # (macros may be written anywhere between the routines)
                prog.order.append(r)
            for m in ms:
                if rng.random() < 0.4:
                    prog.order.remove(m)
                    prog.order.insert(rng.randint(0, len(prog.order)), m)
        else:
            prog = L.Program([], ms, [])
            prog.order = list(ms)
        prog.imports = imp_text[f]
        p.files[f] = prog
    avoid_ppl(p)
    p.render(rng)
    return p


def avoid_ppl(p: Project) -> None:
    """Known finding (C05): the performance list variable handed to a macro; those arguments are replaced."""
    def fix(stmts: Any) -> None:
        for s in stmts:
            if isinstance(s, L.MacroCall):
                s.args = [("c", "$OTHER") if a == ("c", gen.PPL) else a for a in s.args]
            for b in gen.bodies(s):
                fix(b)

    for prog in p.files.values():
        for x in prog.macros + prog.routines:
            fix(x.body or [])


def order_of(prog: L.Program) -> list:
    return prog.order
