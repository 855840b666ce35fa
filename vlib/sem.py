"""Meaning of programs and of SSB routine sets as labelled transition systems, and their comparison for every outcome
of every test (bisimulation of deterministic LTSs: complete for the given pair, no bound on path length)."""
from __future__ import annotations

from dataclasses import dataclass
from typing import Any, Callable, Optional

from . import lang as L

JUMP_PARAM_KINDS = {
    "Case": 1, "CaseMenu": 1, "CaseMenu2": 1, "CaseScenario": 2, "CaseValue": 2, "CaseVariable": 2, "Jump": 0,
    "Call": 0, "Branch": 2, "BranchBit": 2, "BranchDebug": 1, "BranchEdit": 1, "BranchExecuteSub": 1,
    "BranchPerformance": 2, "BranchScenarioNow": 3, "BranchScenarioNowAfter": 3, "BranchScenarioNowBefore": 3,
    "BranchScenarioAfter": 3, "BranchScenarioBefore": 3, "BranchSum": 3, "BranchValue": 3, "BranchVariable": 3,
    "BranchVariation": 1,
}  # fmt: skip
FLOW_END = {"Return", "End", "Hold", "Destroy", "JumpCommon"}
COND_OPS = {"FALSE": 0, "TRUE": 1, "==": 2, ">": 3, "<": 4, ">=": 5, "<=": 6, "!=": 7, "&": 8, "^": 9, "&<<": 10}
CALC_OPS = {"=": 0, "-=": 1, "+=": 2, "*=": 3, "/=": 4}
CTX = {"actor": "lives", "object": "object", "performer": "performer"}


class Meaningless(Exception):
    """The program has no meaning (must be rejected)."""


class LTS:
    def __init__(self) -> None:
        self.nodes: list[Any] = []  # ("op", label, nxt) ("test", label, taken, not) ("stop", label) ("tau", nxt)
        self.meta: list[Any] = []

    def add(self, node: Any, meta: Any = None) -> int:
        self.nodes.append(node)
        self.meta.append(meta)
        return len(self.nodes) - 1

    def res(self, n: int) -> Any:
        """Follow silent steps; None means divergence."""
        seen = set()
        while self.nodes[n][0] == "tau":
            if n in seen:
                return None
            seen.add(n)
            n = self.nodes[n][1]
            if n is None:
                raise Meaningless("jump to an undefined label")
        return n

    def stop(self, name: str = "Return", params: tuple = (), meta: Any = None) -> int:
        return self.add(("stop", (name, params)), meta)


def V(v: tuple) -> Any:
    """Observable form of a value."""
    if v[0] == "f":
        return ("f", v[1])
    if v[0] == "l":
        return ("l", tuple(sorted(v[1])))
    return v


def VS(vs: Any) -> tuple:
    return tuple(V(v) for v in vs)


I = lambda n: ("i", n)  # noqa


@dataclass
class Env:
    labels: dict
    params: dict
    ret: Optional[int]
    loop: Optional[tuple] = None
    brk: Optional[int] = None
    macro: Any = None  # chain of expansions
    in_with: bool = False


class Interp:
    """AST -> LTS. `macros`: name -> (Macro, file tag)."""

    def __init__(self, ppl: str, macros: dict | None = None, scenario_cases: bool = True):
        self.ppl = ppl
        self.macros = macros or {}
        self.lts = LTS()
        self.scenario_cases = scenario_cases
        self.expanding: list[str] = []
        self.label_uses: list = []

    # ---- values
    def val(self, v: tuple, env: Env) -> tuple:
        if v[0] == "c" and v[1] in env.params:
            return env.params[v[1]]
        return v

    def vals(self, vs: Any, env: Env) -> list:
        return [self.val(v, env) for v in vs]

    # ---- conditions: (opname, params)
    def cond(self, c: L.Cond, env: Env) -> tuple:
        a = c.a
        if c.kind == "op":
            var, o, v = self.val(a[0], env), a[1], self.val(a[2], env)
            if a[3]:
                return ("BranchVariable", VS([var, I(COND_OPS[o]), v]))
            if o == "==":
                return ("Branch", VS([var, v]))
            return ("BranchValue", VS([var, I(COND_OPS[o]), v]))
        if c.kind == "bit":
            neg, var, idx = a[0], self.val(a[1], env), a[2]
            if var == ("c", self.ppl):
                return ("BranchPerformance", VS([I(idx), I(0 if neg else 1)]))
            if neg:
                raise Meaningless("not on a bit test of an ordinary variable")
            return ("BranchBit", VS([var, I(idx)]))
        if c.kind == "neg":
            return ({"debug": "BranchDebug", "edit": "BranchEdit", "variation": "BranchVariation"}[a[1]],
                    VS([I(0 if a[0] else 1)]))  # fmt: skip
        if c.kind == "scn":
            m = {"==": "Now", ">": "After", "<": "Before", ">=": "NowAfter", "<=": "NowBefore"}
            if a[1] not in m:
                raise Meaningless("operator of scenario condition")
            return ("BranchScenario" + m[a[1]], VS([self.val(a[0], env), I(a[2]), I(a[3])]))
        o = a[0]
        if o.ctx is not None or o.name not in JUMP_PARAM_KINDS or not o.name.startswith("Branch"):
            raise Meaningless("operation as condition")
        return (o.name, VS(self.vals(o.args, env)))

    def assign(self, s: L.Assign, env: Env) -> tuple:
        a = s.a
        k = s.kind
        if k == "clear":
            return ("flag_Clear", VS([self.val(a[0], env)]))
        if k == "init":
            return ("flag_Initial", VS([self.val(a[0], env)]))
        if k == "reset_dr":
            return ("flag_ResetDungeonResult", ())
        if k == "reset_scn":
            return ("flag_ResetScenario", VS([self.val(a[0], env)]))
        if k == "adv":
            return ("flag_SetAdventureLog", VS([self.val(a[0], env)]))
        if k == "dmode":
            return ("flag_SetDungeonMode", VS(self.vals(a, env)))
        if k == "scn":
            return ("flag_SetScenario", VS([self.val(a[0], env), I(a[1]), I(a[2])]))
        var, idx, o, v, isv = self.val(a[0], env), a[1], a[2], self.val(a[3], env), a[4]
        if idx is not None:
            if isv:
                raise Meaningless("value() with an index based assignment")
            if var == ("c", self.ppl):
                return ("flag_SetPerformance", VS([I(idx), v]))
            return ("flag_CalcBit", VS([var, I(idx), v]))
        if isv:
            return ("flag_CalcVariable", VS([var, I(CALC_OPS[o]), v]))
        if o == "=":
            return ("flag_Set", VS([var, v]))
        return ("flag_CalcValue", VS([var, I(CALC_OPS[o]), v]))

    # ---- statements
    def mk(self, name: str, params: tuple, nxt: int, env: Env, pos: Any) -> int:
        meta = (pos, env.macro)
        if name in FLOW_END:
            return self.lts.add(("stop", (name, params)), meta)
        return self.lts.add(("op", (name, params), nxt), meta)

    def seq(self, stmts: list, nxt: int, env: Env) -> int:
        for s in reversed(stmts):
            nxt = self.stmt(s, nxt, env)
        return nxt

    def label(self, name: str, env: Env) -> int:
        if name not in env.labels:
            env.labels[name] = self.lts.add(("tau", None))
        return env.labels[name]

    def bind(self, node: int, nxt: int) -> int:
        self.lts.nodes[node] = ("tau", nxt)
        return node

    def tests(self, cs: list, yes: int, no: int, env: Env) -> int:
        for c in reversed(cs):
            no = self.lts.add(("test", self.cond(c, env), yes, no), (c.pos, env.macro))
        return no

    def stmt(self, s: Any, nxt: int, env: Env) -> int:
        A = self.lts.add
        if isinstance(s, L.Op):
            if s.name in JUMP_PARAM_KINDS:
                raise Meaningless("jump-carrying opcode written as an operation")
            n = self.mk(s.name, VS(self.vals(s.args, env)), nxt, env, s.pos)
            if s.ctx:
                if s.ctx[0] not in CTX:
                    raise Meaningless("context kind")
                n = A(("op", (CTX[s.ctx[0]], VS([self.val(s.ctx[1], env)])), n), (s.pos, env.macro))
            return n
        if isinstance(s, L.Assign):
            name, ps = self.assign(s, env)
            return self.mk(name, ps, nxt, env, s.pos)
        if isinstance(s, L.Label):
            n = self.label(s.name, env)
            if self.lts.nodes[n][1] is not None:
                raise Meaningless(f"label {s.name} defined twice")
            return self.bind(n, nxt)
        if isinstance(s, L.Ctl):
            if s.kind == "return":
                if env.ret is not None:
                    return env.ret
                return self.lts.stop("Return", (), (s.pos, env.macro))
            if s.kind in ("end", "hold"):
                return self.lts.stop(s.kind.capitalize(), (), (s.pos, env.macro))
            if s.kind == "break":
                if env.brk is None:
                    raise Meaningless("break outside a case")
                return env.brk
            if env.loop is None:
                raise Meaningless(f"{s.kind} outside a loop")
            return env.loop[0 if s.kind == "continue" else 1]
        if isinstance(s, L.Jump):
            n = self.label(s.label, env)
            self.label_uses.append(n)
            return A(("tau", n))
        if isinstance(s, L.Call):
            n = self.label(s.label, env)
            self.label_uses.append(n)
            return A(("test", ("Call", ()), n, nxt), (s.pos, env.macro))
        if isinstance(s, L.With):
            if s.kind not in CTX:
                raise Meaningless("context kind")
            if isinstance(s.stmt, L.Label) or isinstance(s.stmt, L.Op) and s.stmt.ctx:
                raise Meaningless("label or context in a with-block")
            n = self.stmt(s.stmt, nxt, env)
            return A(("op", (CTX[s.kind], VS([self.val(s.value, env)])), n), (s.pos, env.macro))
        if isinstance(s, L.If):
            no = self.seq(s.els or [], nxt, env)
            for neg, cs, body in reversed(s.branches):
                b = self.seq(body, nxt, env)
                no = self.tests(cs, no, b, env) if neg else self.tests(cs, b, no, env)
            return no
        if isinstance(s, L.Switch):
            return self.switch(s, nxt, env)
        if isinstance(s, L.MsgSwitch):
            ops = [(s.kind, VS([self.val(s.value, env)]), s.pos)]
            dfl = None
            for c in s.cases:
                if not isinstance(c.body, tuple):
                    raise Meaningless("statements in a message switch")
                if c.header is None:
                    if dfl is not None:
                        raise Meaningless("two defaults")
                    dfl = ("DefaultText", VS([c.body]), ("any", s.pos, c.pos))
                else:
                    if c.header.kind != "value":
                        raise Meaningless("message switch case header")
                    ops.append(("CaseText", VS([self.val(c.header.a[0], env), c.body]), ("any", s.pos, c.pos, c.header.pos)))
            if dfl:
                ops.append(dfl)
            for name, ps, pos in reversed(ops):
                nxt = self.mk(name, ps, nxt, env, pos)
            return nxt
        if isinstance(s, L.Forever):
            head = A(("tau", None))
            e = Env(env.labels, env.params, env.ret, (head, nxt), env.brk, env.macro)
            return self.bind(head, self.seq(s.body, head, e))
        if isinstance(s, L.While):
            head = A(("tau", None))
            e = Env(env.labels, env.params, env.ret, (head, nxt), env.brk, env.macro)
            b = self.seq(s.body, head, e)
            t = self.tests([s.cond], nxt, b, env) if s.neg else self.tests([s.cond], b, nxt, env)
            return self.bind(head, t)
        if isinstance(s, L.For):
            check = A(("tau", None))
            # the increment and the initialiser are statements of the loop construct itself
            outer = Env(env.labels, env.params, env.ret, env.loop, env.brk, env.macro)
            inc = self.stmt(s.inc, check, outer)
            e = Env(env.labels, env.params, env.ret, (inc, nxt), env.brk, env.macro)
            b = self.seq(s.body, inc, e)
            self.bind(check, self.tests([s.cond], b, nxt, env))
            return self.stmt(s.init, check, outer)
        if isinstance(s, L.MacroCall):
            return self.macro(s, nxt, env)
        raise TypeError(s)

    def switch(self, s: L.Switch, nxt: int, env: Env) -> int:
        A = self.lts.add
        h = s.header
        if h.kind == "operation":
            o = h.a[0]
            if o.ctx:
                raise Meaningless("context on a switch header")
            hop = (o.name, VS(self.vals(o.args, env)))
        elif h.kind == "scn":
            if h.a[1] not in (0, 1):
                raise Meaningless("scn index")
            hop = ("SwitchScenario" if h.a[1] == 0 else "SwitchScenarioLevel", VS([self.val(h.a[0], env)]))
        else:
            nm = {"value": "Switch", "random": "SwitchRandom", "dungeon_mode": "SwitchDungeonMode",
                  "sector": "SwitchSector"}[h.kind]  # fmt: skip
            hop = (nm, VS(self.vals(h.a, env)))
        e = Env(env.labels, env.params, env.ret, env.loop, nxt, env.macro)
        n_def = sum(1 for c in s.cases if c.header is None)
        if n_def > 1:
            raise Meaningless("two defaults")
        if any(isinstance(c.body, tuple) for c in s.cases):
            raise Meaningless("string in a switch")
        if s.cases and not s.cases[-1].body:
            raise Meaningless("switch ends in an empty case")
        entries: list[int] = []
        follow = nxt
        for c in reversed(s.cases):
            follow = self.seq(c.body, follow, e)
            entries.append(follow)
        entries.reverse()
        no = nxt
        for c, n in zip(s.cases, entries):
            if c.header is None:
                no = n
        for c, n in reversed(list(zip(s.cases, entries))):
            if c.header is None:
                continue
            k, a = c.header.kind, c.header.a
            if k == "value":
                t = ("Case", VS([self.val(a[0], env)]))
            elif k == "menu":
                t = ("CaseMenu", VS([a[0]]))
            elif k == "menu2":
                t = ("CaseMenu2", VS([self.val(a[0], env)]))
            else:
                nm = "CaseVariable" if a[2] else "CaseValue"
                if nm == "CaseValue" and hop[0] == "SwitchScenario" and self.scenario_cases:
                    nm = "CaseScenario"
                t = (nm, VS([I(COND_OPS[a[0]]), self.val(a[1], env)]))
            no = A(("test", t, n, no), (c.header.pos, env.macro))
        return self.mk(hop[0], hop[1], no, env, h.pos)

    def macro(self, s: L.MacroCall, nxt: int, env: Env) -> int:
        if s.name not in self.macros:
            raise Meaningless(f"unknown macro {s.name}")
        if s.name in self.expanding:
            raise Meaningless("recursive macro")
        m, tag = self.macros[s.name]
        if len(s.args) < len(m.params):
            raise Meaningless("too few macro arguments")
        args = self.vals(s.args, env)
        self.expanding.append(s.name)
        end = self.lts.add(("tau", nxt))
        e = Env({}, dict(zip(m.params, args)), end, None, None, (s, m, tag, env.macro))
        if m.body is None:
            raise Meaningless("macro alias")
        n = self.seq(m.body, end, e)
        for nm, node in e.labels.items():
            if self.lts.nodes[node][1] is None:
                raise Meaningless(f"undefined label {nm}")
        self.expanding.pop()
        return n

    def program(self, p: L.Program) -> list:
        """Returns routine entries: list of (kind, id, target, name, entry | None for alias) indexed by id."""
        labels: dict = {}
        out: dict[int, tuple] = {}
        last = -1
        for r in p.routines:
            rid = last + 1 if r.kind == "coro" else r.id
            last = rid
            entry = None
            if r.body is not None:
                entry = self.seq(r.body, self.lts.stop("Return"), Env(labels, {}, None))
            out[rid] = (r.kind, rid, r.target, r.name, entry)
        for nm, node in labels.items():
            if self.lts.nodes[node][1] is None:
                raise Meaningless(f"undefined label {nm}")
        if sorted(out) != list(range(len(out))):
            raise Meaningless("routine ids have gaps")
        return [out[i] for i in range(len(out))]


# --------------------------------------------------------------------------------------------- SSB
class SsbBad(Exception):
    """The op list is not closed / not addressable."""


def ssb_lts(routines: list[list[tuple]]) -> tuple[LTS, list[Optional[int]]]:
    """routines: list of lists of (offset, name, params) with params in value form; jump target is the parameter at the
    kind's index (last). Node meta is the offset."""
    lts = LTS()
    where: dict[int, int] = {}
    entries: list[Optional[int]] = []
    todo = []
    for r in routines:
        ids = []
        for off, name, params in r:
            n = lts.add(None, off)
            if off in where:
                raise SsbBad(f"offset {off} used twice")
            where[off] = n
            ids.append(n)
        end = lts.stop("Return", (), "end")
        entries.append(ids[0] if ids else None)
        for j, (off, name, params) in enumerate(r):
            todo.append((ids[j], off, name, params, ids[j + 1] if j + 1 < len(ids) else end))
    for n, off, name, params, nxt in todo:
        if name in JUMP_PARAM_KINDS:
            if not params or params[-1][0] != "i" or params[-1][1] not in where:
                raise SsbBad(f"op {off} {name}: target {params[-1] if params else None} is not an op of the result")
            t = where[params[-1][1]]
            if name == "Jump":
                lts.nodes[n] = ("tau", t)
            else:
                lts.nodes[n] = ("test", (name, VS(params[:-1])), t, nxt)
        elif name in FLOW_END:
            lts.nodes[n] = ("stop", (name, VS(params)))
        else:
            lts.nodes[n] = ("op", (name, VS(params)), nxt)
    return lts, entries


def bisim(
    la: LTS, a: int, lb: LTS, b: int, eq: Callable = lambda x, y: x == y, on_pair: Callable | None = None,
    seen: set | None = None,
) -> Optional[dict]:  # fmt: skip
    """None when both behave the same for every outcome of every test; else the shortest distinguishing history."""
    from collections import deque

    seen = set() if seen is None else seen
    q: Any = deque([(a, b, None)])
    while q:
        a, b, tr = q.popleft()
        ra, rb = la.res(a), lb.res(b)
        if (ra, rb) in seen:
            continue
        seen.add((ra, rb))

        def fail(why: str) -> dict:
            hist = []
            t = tr
            while t is not None:
                hist.append(t[0])
                t = t[1]
            return {"why": why, "history": [repr(x) for x in reversed(hist)]}

        if ra is None or rb is None:
            if ra is not rb:
                return fail(f"one side loops silently: expected {ra and la.nodes[ra][:2]}, got {rb and lb.nodes[rb][:2]}")
            continue
        na, nb = la.nodes[ra], lb.nodes[rb]
        if na[0] != nb[0] or not eq(na[1], nb[1]):
            return fail(f"expected {na[0]} {na[1]}, got {nb[0]} {nb[1]}")
        if on_pair:
            w = on_pair(ra, rb)
            if w:
                return fail(w)
        if na[0] == "op":
            q.append((na[2], nb[2], (na[1], tr)))
        elif na[0] == "test":
            q.append((na[2], nb[2], ((na[1], "taken"), tr)))
            q.append((na[3], nb[3], ((na[1], "not taken"), tr)))
    return None
