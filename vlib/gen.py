"""Seeded generators: programs (AST), routine sets, values."""
from __future__ import annotations

import random
from fractions import Fraction
from typing import Any

from . import lang as L

PPL = "$PERFORMANCE_PROGRESS_LIST"
VARS = ["$A", "$SCENARIO_MAIN", "$VAR_B", "GLOBAL_C", PPL]
COND_OPS = list(L.Parser.CONDOPS)
SCN_OPS = ["==", "<", ">", "<=", ">="]
CALC = ["=", "-=", "+=", "*=", "/="]


# texts which, taken for source text, would mean something
SOURCE_LIKE = ["a\n//?: is-ssb-script: 0\nb", "//?: is-ssb-script: true\nb", "// note", "x /* y", "*/", "l1\n// note\nl2", "import 'x.exps';\n", "end;\n}\ndef 9 {\n", "@label_0;\n@label_1;", "§x", "%a", "$A", "~m();", "Position<'a', 1, 2>"]
EXOTIC = ["\x0b", "\x1c", "\x1e", "\x85", "\u2028", "\u2029", "\t", "\x00", "\xa0", "\U0001f600"]


class Vals:
    def __init__(self, rng: random.Random, wild: bool = False):
        self.r = rng
        self.wild = wild

    def int(self) -> tuple:
        return ("i", self.r.choice([0, 1, 2, 3, 7, 10, 100, -1, -5, 0x3FFF, 255]))

    def const(self) -> tuple:
        return ("c", self.r.choice(["ACTOR_PLAYER", "CONST_A", "X_1", "LEVEL_S00P01A"] + VARS))

    def var(self) -> tuple:
        if self.r.random() < 0.15:
            return self.int()
        return ("c", self.r.choice(VARS))

    def fixed(self) -> tuple:
        r = self.r
        n = r.choice([Fraction(1, 2), Fraction(5, 4), Fraction(-1, 4), Fraction(-3, 2), Fraction(1, 100), Fraction(63), Fraction(0)])
        return ("f", n, False if n else r.random() < 0.3)

    def intlike(self) -> tuple:
        x = self.r.random()
        return self.int() if x < 0.6 else self.const() if x < 0.95 else self.fixed()

    def text(self) -> str:
        r = self.r
        if not self.wild:
            if r.random() < 0.07:
                return "p" + r.choice(EXOTIC) + "q"
            if r.random() < 0.06:
                return r.choice(SOURCE_LIKE)
            return r.choice(["Hello", "a b", "it's", 'say "x"', "l1\nl2", "", " lead", "ä é"])
        return wild_text(r)

    def string(self) -> tuple:
        if self.r.random() < 0.5:
            return ("s", self.text())
        ls = self.r.sample(["english", "french", "german", "italian"], self.r.randint(1, 3))
        return ("l", tuple((k, self.text()) for k in ls))

    def pos(self) -> tuple:
        r = self.r
        nm = r.choice(["m0", "Mark 1", "x"])
        return ("p", nm, r.choice([0, 2]), r.choice([0, 2]), self.coord(), self.coord())

    def coord(self) -> int:
        x = self.r.random()
        return self.r.randint(0, 60) if x < 0.85 else self.r.choice([-1, -3, -27, 0, 1000, 70000])

    def arg(self) -> tuple:
        x = self.r.random()
        if x < 0.6:
            return self.intlike()
        if x < 0.85:
            return self.string()
        return self.pos()

    def args(self) -> list:
        return [self.arg() for _ in range(self.r.choice([0, 0, 1, 1, 2, 3]))]


def wild_text(r: random.Random) -> str:
    pieces = ["a", "b c", " ", "  ", "\n", "'", '"', "'''", '"""', "\\", "\\n", "\\'", '\\"', "\t", "é", "{", "//", "/*", "\n ", "\n    ", "\n\n", r.choice(EXOTIC)]
    return "".join(r.choice(pieces) for _ in range(r.randint(0, 7)))


class ProgGen:
    def __init__(self, rng: random.Random, *, depth: int = 3, width: int = 3, jumps: bool = True, calls: bool = True,
                 loops: bool = True, switches: bool = True, ifs: bool = True, withs: bool = True, msg: bool = True,
                 inline_ctx: bool = True, macros: dict | None = None, flow_ops: bool = True, with_flow: float = 0.0,
                 wild: bool = False, plain_args: bool = False, case_ops: bool = True):  # fmt: skip
        self.r = rng
        self.v = Vals(rng, wild)
        self.o = dict(depth=depth, width=width, jumps=jumps, calls=calls, loops=loops, switches=switches, ifs=ifs,
                      withs=withs, msg=msg, inline_ctx=inline_ctx, flow_ops=flow_ops, with_flow=with_flow,
                      plain_args=plain_args, case_ops=case_ops)  # fmt: skip
        self.n = 0
        self.labels_wanted: list[str] = []
        self.labels_defined: list[str] = []
        self.macros = macros or {}
        self.macro_params: list[str] = []
        self.in_macro = False

    def op(self, ctx: bool = True) -> L.Op:
        self.n += 1
        c = None
        if ctx and self.o["inline_ctx"] and self.r.random() < 0.12:
            c = (self.r.choice(["actor", "object", "performer"]), self.param_or(self.v.const))
        args = [("i", self.n)] if self.o["plain_args"] else self.v.args()
        args = [self.param_or(lambda a=a: a, 0.3) for a in args]
        return L.Op(f"op_{self.n}", args, c)

    def param_or(self, f: Any, p: float = 0.35) -> tuple:
        if self.macro_params and self.r.random() < p:
            return ("c", self.r.choice(self.macro_params))
        return f()

    def assign(self) -> L.Assign:
        r, v = self.r, self.v
        k = r.choice(["regular"] * 6 + ["clear", "init", "reset_dr", "reset_scn", "adv", "dmode", "scn"])
        var = lambda: self.param_or(v.var)  # noqa
        if k in ("clear", "init", "reset_scn"):
            return L.Assign(k, (var(),))
        if k == "reset_dr":
            return L.Assign(k, ())
        if k == "adv":
            return L.Assign(k, (v.intlike(),))
        if k == "dmode":
            return L.Assign(k, (v.intlike(), ("i", r.randint(0, 3)) if r.random() < 0.5 else ("c", "DMODE_OPEN")))
        if k == "scn":
            return L.Assign(k, (var(), r.randint(0, 40), r.randint(0, 9)))
        if r.random() < 0.3:
            return L.Assign(k, (var(), r.randint(0, 15), "=", ("i", r.randint(0, 1)), False))
        return L.Assign(k, (var(), None, r.choice(CALC), self.param_or(v.intlike), r.random() < 0.3))

    def cond(self, loop: bool = False) -> L.Cond:
        r, v = self.r, self.v
        x = r.random()
        if x < 0.5:
            return L.Cond("op", (self.param_or(v.var), r.choice(COND_OPS), self.param_or(v.intlike), r.random() < 0.3))
        if x < 0.65:
            if r.random() < 0.4:
                return L.Cond("bit", (r.random() < 0.5, ("c", PPL), r.randint(0, 50)))
            return L.Cond("bit", (False, v.var(), r.randint(0, 50)))
        if x < 0.8:
            return L.Cond("neg", (r.random() < 0.4, r.choice(["debug", "edit", "variation"])))
        if x < 0.92:
            return L.Cond("scn", (v.var(), r.choice(SCN_OPS), r.randint(0, 40), r.randint(0, 9)))
        if r.random() < 0.5:
            return L.Cond("operation", (L.Op("BranchSum", [v.var(), ("i", r.randint(0, 10)), v.int()]),))
        return L.Cond("operation", (L.Op("BranchExecuteSub", [v.int()]),))

    def label_ref(self) -> str:
        pool = self.labels_defined + self.labels_wanted
        if pool and self.r.random() < 0.6:
            return self.r.choice(pool)
        nm = f"lab_{len(self.labels_defined) + len(self.labels_wanted)}"
        self.labels_wanted.append(nm)
        return nm

    def label_def(self) -> L.Label:
        if self.labels_wanted and self.r.random() < 0.7:
            nm = self.labels_wanted.pop(self.r.randrange(len(self.labels_wanted)))
        else:
            nm = f"lab_{len(self.labels_defined) + len(self.labels_wanted)}"
        self.labels_defined.append(nm)
        return L.Label(nm)

    def ctl(self, env: dict) -> Any:
        r = self.r
        ks = ["return", "return", "end", "hold"]
        if env.get("loop"):
            ks += ["continue", "break_loop"] * 2
        if env.get("case"):
            ks += ["break"] * 2
        return L.Ctl(r.choice(ks))

    def simple(self, env: dict) -> Any:
        r = self.r
        x = r.random()
        if x < 0.55:
            return self.op()
        if x < 0.75:
            return self.assign()
        if x < 0.83 and self.o["jumps"]:
            return L.Jump(self.label_ref())
        if x < 0.87 and self.o["calls"]:
            return L.Call(self.label_ref())
        if x < 0.93 and self.o["jumps"]:
            return self.label_def()
        if x < 0.98:
            return self.ctl(env)
        if self.o["flow_ops"]:
            return L.Op(r.choice(["Destroy", "JumpCommon"]), [])
        return self.op()

    def plain(self) -> Any:
        return self.op(False) if self.r.random() < 0.7 else self.assign()

    def stmt(self, depth: int, env: dict) -> Any:
        r, o = self.r, self.o
        if depth <= 0 or r.random() < 0.5:
            if self.macros and r.random() < 0.25:
                return self.macro_call()
            if o["withs"] and r.random() < 0.08:
                s = self.plain()
                if r.random() < o["with_flow"]:
                    s = self.r.choice([L.Ctl("end"), L.Ctl("return"), L.Ctl("hold")])
                return L.With(r.choice(["actor", "object", "performer"]), self.v.const(), s)
            if o["msg"] and r.random() < 0.06:
                return self.msgswitch()
            return self.simple(env)
        ks = []
        if o["ifs"]:
            ks += ["if"] * 4
        if o["switches"]:
            ks += ["switch"] * 3
        if o["loops"]:
            ks += ["forever", "for", "while"]
        if not ks:
            return self.simple(env)
        k = r.choice(ks)
        if k == "if":
            brs = []
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                brs.append((r.random() < 0.3, [self.cond() for _ in range(r.choice([1, 1, 1, 2, 3]))], self.body(depth - 1, env)))
            return L.If(brs, self.body(depth - 1, env) if r.random() < 0.5 else None)
        if k == "switch":
            return self.switch(depth, env)
        e = dict(env, loop=True)
        if k == "forever":
            return L.Forever(self.body(depth - 1, e))
        if k == "while":
            return L.While(r.random() < 0.4, self.cond(), self.body(depth - 1, e))
        return L.For(self.plain(), self.cond(), self.plain(), self.body(depth - 1, e))

    def switch_header(self) -> L.SwitchHeader:
        r, v = self.r, self.v
        k = r.choice(["value", "value", "operation", "scn", "random", "dungeon_mode", "sector", "menu"])
        if k in ("operation", "menu"):
            nm = "message_SwitchMenu" if k == "menu" else r.choice(["ProcessSpecial", "message_Menu", "main_EnterAdventure"])
            return L.SwitchHeader("operation", (L.Op(nm, [v.int()] * r.randint(0, 2)),))
        if k == "scn":
            return L.SwitchHeader(k, (v.var(), r.randint(0, 1)))
        if k == "sector":
            return L.SwitchHeader(k, ())
        if k == "value":
            return L.SwitchHeader(k, (self.param_or(v.var),))
        return L.SwitchHeader(k, (self.param_or(v.intlike),))

    def case_header(self, menu: bool) -> L.CaseHeader:
        r, v = self.r, self.v
        if menu:
            return L.CaseHeader("menu", (v.string(),)) if r.random() < 0.7 else L.CaseHeader("menu2", (v.intlike(),))
        if not self.o["case_ops"] or r.random() < 0.6:
            return L.CaseHeader("value", (self.param_or(v.intlike),))
        return L.CaseHeader("op", (r.choice(COND_OPS), self.param_or(v.intlike), r.random() < 0.3))

    def switch(self, depth: int, env: dict) -> L.Switch:
        r = self.r
        h = self.switch_header()
        menu = h.kind == "operation" and h.a[0].name == "message_SwitchMenu"
        n = r.choice([0, 1, 1, 2, 2, 3, 4])
        e = dict(env, case=True)
        cases = []
        for _ in range(n):
            body = [] if r.random() < 0.2 else self.body(depth - 1, e)
            if body and r.random() < 0.6:
                body.append(L.Ctl("break"))
            cases.append(L.Case(self.case_header(menu), body))
        if r.random() < 0.5:
            body = [] if r.random() < 0.15 else self.body(depth - 1, e)
            if body and r.random() < 0.5:
                body.append(L.Ctl("break"))
            cases.insert(r.randint(0, len(cases)), L.Case(None, body))
        if cases and not cases[-1].body:
            cases[-1].body.append(self.op())
        return L.Switch(h, cases)

    def msgswitch(self) -> L.MsgSwitch:
        r, v = self.r, self.v
        cases = [L.Case(L.CaseHeader("value", (v.intlike(),)), v.string()) for _ in range(r.randint(0, 3))]
        if r.random() < 0.6:
            cases.append(L.Case(None, v.string()))
        return L.MsgSwitch(r.choice(["message_SwitchTalk", "message_SwitchMonologue"]), v.var(), cases)

    def body(self, depth: int, env: dict, lo: int = 0) -> list:
        return [self.stmt(depth, env) for _ in range(self.r.randint(lo, self.o["width"]))]

    def macro_call(self) -> L.MacroCall:
        nm = self.r.choice(sorted(self.macros))
        return L.MacroCall(nm, [self.param_or(self.v.arg, 0.3) for _ in range(self.macros[nm])])

    def routine_body(self) -> list:
        b = self.body(self.o["depth"], {}, 1)
        # define what is still wanted
        while self.labels_wanted:
            nm = self.labels_wanted.pop()
            self.labels_defined.append(nm)
            b.insert(self.r.randint(0, len(b)), L.Label(nm))
        if self.r.random() < 0.6:
            b.append(L.Ctl(self.r.choice(["return", "end", "hold"])))
        elif self.r.random() < 0.3:
            b.append(self.label_def())
        return b

    def program(self, nroutines: int | None = None, cross: bool = True) -> L.Program:
        r = self.r
        n = nroutines if nroutines is not None else r.choice([1, 1, 1, 2, 3])
        rs = []
        coro = r.random() < 0.2
        for i in range(n):
            if not cross:
                self.labels_defined = []
            base = len(self.labels_defined)
            body: Any = self.routine_body()
            if i > 0 and r.random() < 0.08 and len(self.labels_defined) == base:
                body = None
            if coro:
                rs.append(L.Routine("coro", None, f"CORO_{i}", None, body))
            else:
                k = r.choice(["gen", "gen", "actor", "object", "performer"])
                t = None if k == "gen" else r.choice([("i", r.randint(0, 20)), ("c", "ACTOR_PLAYER"), ("c", "$X")])
                rs.append(L.Routine(k, i, None, t, body))
        # label names must be unique per program: rename per routine when not crossing
        if not cross:
            for i, x in enumerate(rs):
                if x.body:
                    rename_labels(x.body, f"_r{i}")
        return L.Program([], [], rs)


def rename_labels(stmts: list, suffix: str) -> None:
    for s in stmts:
        if isinstance(s, L.Label):
            s.name += suffix
        elif isinstance(s, (L.Jump, L.Call)):
            s.label += suffix
        for b in bodies(s):
            rename_labels(b, suffix)


def bodies(s: Any) -> list:
    if isinstance(s, L.If):
        return [b for _, _, b in s.branches] + ([s.els] if s.els is not None else [])
    if isinstance(s, L.Switch):
        return [c.body for c in s.cases]
    if isinstance(s, (L.Forever, L.While, L.For)):
        return [s.body]
    return []


# --------------------------------------------------------------------------------------------- routine sets
BR_KINDS = ["Branch", "BranchBit", "BranchDebug", "BranchEdit", "BranchVariation", "BranchPerformance", "BranchScenarioNow",
            "BranchScenarioNowAfter", "BranchScenarioNowBefore", "BranchScenarioBefore", "BranchScenarioAfter", "BranchSum",
            "BranchValue", "BranchVariable", "BranchExecuteSub"]  # fmt: skip
SW_KINDS = ["Switch", "SwitchDirection", "SwitchDirection2", "SwitchDirectionLives", "SwitchDirectionLives2", "SwitchDungeonMode",
            "SwitchLives", "SwitchRandom", "SwitchScenario", "SwitchScenarioLevel", "SwitchSector", "SwitchValue",
            "SwitchVariable", "ProcessSpecial", "message_Menu", "message_SwitchMenu", "message_SwitchMenu2",
            "main_EnterAdventure"]  # fmt: skip
FLOW = ["Return", "End", "Hold", "Return", "End", "Hold", "Destroy", "JumpCommon"]


def br_params(v: Vals, k: str) -> list:
    r = v.r
    if k == "Branch":
        return [v.var(), v.intlike()]
    if k == "BranchBit":
        return [v.var(), ("i", r.randint(0, 20))]
    if k in ("BranchDebug", "BranchEdit", "BranchVariation"):
        return [("i", r.choice([0, 1]))]
    if k == "BranchPerformance":
        return [("i", r.randint(0, 20)), ("i", r.choice([0, 1]))]
    if k.startswith("BranchScenario"):
        return [v.var(), ("i", r.randint(0, 50)), ("i", r.randint(0, 9))]
    if k == "BranchSum":
        return [v.var(), ("i", r.randint(0, 10)), v.int()]
    if k in ("BranchValue", "BranchVariable"):
        return [v.var(), ("i", r.randint(0, 10)), v.intlike() if k == "BranchValue" else v.var()]
    return [v.int()]


def sw_params(v: Vals, k: str) -> list:
    r = v.r
    if k == "Switch":
        return [v.var()]
    if k in ("SwitchScenario", "SwitchScenarioLevel", "SwitchRandom", "SwitchDungeonMode"):
        return [v.var()]
    if k == "SwitchSector":
        return []
    if k.startswith("Switch"):
        return [v.int()] * r.randint(1, 2)
    return [v.int()] * r.randint(0, 2)


def case_op(v: Vals, sw: str) -> tuple:
    r = v.r
    if sw == "message_SwitchMenu":
        return ("CaseMenu", [v.string()]) if r.random() < 0.7 else ("CaseMenu2", [v.intlike()])
    x = r.random()
    if x < 0.7:
        return ("Case", [v.intlike()])
    if sw in ("SwitchScenario",):
        return ("CaseScenario", [("i", r.randint(0, 10)), v.intlike()])
    if x < 0.9:
        return ("CaseValue", [("i", r.randint(0, 10)), v.intlike()])
    return ("CaseVariable", [("i", r.randint(0, 10)), v.var()])


def random_rs(rng: random.Random, *, size: int = 14, routines: int = 3, coherent: bool = True, cross: float = 0.05,
              calls: bool = True, wild: bool = False, loops: float = 0.5) -> dict:  # fmt: skip
    """A well-formed routine set: increasing offsets, closed jumps, nothing runs off a routine, no Jump-only cycle."""
    v = Vals(rng, wild)
    r = rng
    n = r.randint(1, routines)
    ops: list[list[list]] = []
    uid = 0
    for ri in range(n):
        m = r.randint(1, size)
        out: list[list] = []
        while len(out) < m:
            x = r.random()
            uid += 1
            if x < 0.42:
                out.append([f"op_{uid}", v.args(), None])
            elif x < 0.47:
                out.append([*r.choice([("flag_Set", [v.var(), v.intlike()]), ("flag_Clear", [v.var()]),
                                       ("flag_CalcValue", [v.var(), ("i", r.randint(0, 4)), v.intlike()]),
                                       ("flag_CalcVariable", [v.var(), ("i", r.randint(0, 4)), v.var()]),
                                       ("flag_CalcBit", [v.var(), ("i", 3), ("i", 1)]),
                                       ("flag_SetPerformance", [("i", 3), ("i", 1)]), ("flag_Initial", [v.var()]),
                                       ("flag_ResetScenario", [v.var()]), ("flag_ResetDungeonResult", []),
                                       ("flag_SetAdventureLog", [v.intlike()]), ("flag_SetDungeonMode", [v.intlike(), ("i", r.randint(0, 3))]),
                                       ("flag_SetScenario", [v.var(), ("i", 3), ("i", 4)])]), None])  # fmt: skip
            elif x < 0.60:
                k = r.choice(BR_KINDS)
                out.append([k, br_params(v, k), "t"])
                if r.random() < 0.4:
                    out.append(["Jump", [], "t"])
            elif x < 0.70:
                out.append(["Jump", [], "t"])
            elif x < 0.73 and calls:
                out.append(["Call", [], "t"])
            elif x < 0.84:
                k = r.choice(SW_KINDS)
                out.append([k, sw_params(v, k), None])
                for _ in range(r.choice([0, 1, 1, 2, 3])):
                    c = case_op(v, k)
                    out.append([c[0], c[1], "t"])
                if r.random() < 0.7:
                    out.append(["Jump", [], "t"])
            elif x < 0.87:
                out.append([r.choice(["message_SwitchTalk", "message_SwitchMonologue"]), [v.var()], None])
                for _ in range(r.randint(0, 2)):
                    out.append(["CaseText", [v.intlike(), v.string()], None])
                if r.random() < 0.5:
                    out.append(["DefaultText", [v.string()], None])
            elif x < 0.91:
                out.append([r.choice(["lives", "object", "performer"]), [v.const()], None])
                out.append([f"op_{uid}", v.args(), None])
            elif x < 0.99:
                out.append([r.choice(FLOW), [], None])
            elif not coherent:
                out.append([*case_op(v, r.choice(SW_KINDS)), "t"])
        out.append([r.choice(FLOW[:6]), [], None])
        ops.append(out)
    flat = [(ri, i) for ri, o in enumerate(ops) for i in range(len(o))]
    # targets
    ctxs = {"lives", "object", "performer"}
    bad = set()
    for ri, o in enumerate(ops):
        for i in range(1, len(o)):
            if o[i - 1][0] in ctxs or o[i][0] in ("CaseText", "DefaultText") or o[i][0].startswith("Case"):
                bad.add((ri, i))
    good = [x for x in flat if x not in bad]
    tgt: dict = {}
    for ri, i in flat:
        if ops[ri][i][2] == "t":
            if r.random() < cross:
                c = good
            else:
                fwd = [x for x in good if x[0] == ri and x[1] > i]
                own = [x for x in good if x[0] == ri]
                c = fwd if fwd and r.random() > loops * 0.5 else own or good
            tgt[(ri, i)] = r.choice(c)
    # no Jump-only cycles: cut by re-targeting to the final op of the routine
    for ri, i in flat:
        if ops[ri][i][0] != "Jump":
            continue
        seen = set()
        cur = (ri, i)
        while ops[cur[0]][cur[1]][0] == "Jump":
            if cur in seen:
                tgt[(ri, i)] = (ri, len(ops[ri]) - 1)
                break
            seen.add(cur)
            cur = tgt[cur]
    off = r.choice([0, 1, 5])
    offs = {}
    for x in flat:
        offs[x] = off
        off += r.choice([1, 1, 2, 3, 7])
    res = []
    for ri, o in enumerate(ops):
        res.append([(offs[(ri, i)], nm, list(ps) + ([("i", offs[tgt[(ri, i)]])] if t == "t" else []))
                    for i, (nm, ps, t) in enumerate(o)])  # fmt: skip
    coro = r.random() < 0.2
    mixed = r.random() < 0.1
    infos, coros = [], []
    for i in range(n):
        if coro or (mixed and r.random() < 0.5):
            infos.append(("coro", None))
            coros.append(f"CORO_{i}")
        else:
            k = r.choice(["gen", "gen", "actor", "object", "performer"])
            infos.append((k, None if k == "gen" else r.choice([("i", r.randint(0, 20)), ("c", "ACTOR_X")])))
            coros.append(None)
    if n > 1 and r.random() < 0.1:
        # alias routine
        z = r.randrange(1, n)
        alias_offs = {o for o, _, _ in res[z]}
        if not any(ps and nm in _JUMPK and ps[-1][1] in alias_offs for i, rt in enumerate(res) if i != z for _, nm, ps in rt):
            res[z] = []
    return {"infos": infos, "ops": res, "coros": coros}


from .sem import JUMP_PARAM_KINDS as _JUMPK  # noqa: E402


def well_formed(rs: dict, name_ok: bool = True) -> str | None:
    """None when the routine set satisfies the precondition of the decompiler properties, else why not."""
    from .sem import FLOW_END

    all_offs = [o for r in rs["ops"] for o, _, _ in r]
    if any(b <= a for a, b in zip(all_offs, all_offs[1:])):
        return "offsets not increasing"
    where = {}
    for ri, rt in enumerate(rs["ops"]):
        for i, (o, nm, ps) in enumerate(rt):
            where[o] = (ri, i)
    for ri, rt in enumerate(rs["ops"]):
        for i, (o, nm, ps) in enumerate(rt):
            if nm in _JUMPK:
                if not ps or ps[-1][0] != "i" or ps[-1][1] not in where:
                    return "jump target"
        if rt and rt[-1][1] not in FLOW_END and rt[-1][1] != "Jump":
            return "runs off"
        if len(rt) > 1 and rt[-2][1] in ("lives", "object", "performer"):
            return "runs off (ctx)"
    for o0, (ri, i) in where.items():
        seen = set()
        o = o0
        while rs["ops"][where[o][0]][where[o][1]][1] == "Jump":
            if o in seen:
                return "jump cycle"
            seen.add(o)
            o = rs["ops"][where[o][0]][where[o][1]][2][-1][1]
    return None


def renumber(rs: dict, rng: random.Random | None = None) -> dict:
    """The same routine set with offsets increasing through the file."""
    m: dict = {}
    off = rng.choice([0, 1, 5]) if rng else 0
    for rt in rs["ops"]:
        for o, nm, ps in rt:
            m[o] = off
            off += rng.choice([1, 1, 2, 3, 7]) if rng else 1
    ops = [[(m[o], nm, (list(ps[:-1]) + [("i", m[ps[-1][1]])]) if nm in _JUMPK else list(ps)) for o, nm, ps in rt]
           for rt in rs["ops"]]  # fmt: skip
    return dict(rs, ops=ops)


# --------------------------------------------------------------------------------------------- flat programs (C13)
def flat_program(rng: random.Random, *, empty: float = 0.0, default_anywhere: bool = True, big: bool = False) -> L.Program:
    g = ProgGen(rng, jumps=False, calls=False, loops=False, flow_ops=False, inline_ctx=False)
    g.v = Vals(rng)

    def plain() -> Any:
        x = rng.random()
        if x < 0.6:
            return g.op(rng.random() < 0.3)
        if x < 0.82:
            return g.assign()
        if x < 0.92:
            return L.With(rng.choice(["actor", "object", "performer"]), g.v.const(), g.plain())
        return g.msgswitch()

    def block(brk: bool = False) -> list:
        b = [] if rng.random() < empty else [plain() for _ in range(rng.choice([1, 1, 2, 3]))]
        if brk:
            b.append(L.Ctl("break"))
        return b

    def stmt() -> Any:
        x = rng.random()
        if x < 0.4:
            return plain()
        if x < 0.7:
            brs = [(rng.random() < 0.3, [g.cond() for _ in range(rng.choice([1, 1, 1, 2, 3]))], block())
                   for _ in range(rng.choice([1, 1, 2, 3]) if not big else rng.choice([1, 5, 20, 30]))]  # fmt: skip
            return L.If(brs, block() if rng.random() < 0.5 else None)
        h = g.switch_header()
        menu = h.kind == "operation" and h.a[0].name == "message_SwitchMenu"
        cases = [L.Case(g.case_header(menu), block(True)) for _ in range(rng.choice([1, 1, 2, 3, 4]) if not big else rng.choice([1, 6, 20, 35]))]
        if rng.random() < 0.5:
            cases.insert(rng.randint(0, len(cases)) if default_anywhere else len(cases), L.Case(None, block(True)))
        return L.Switch(h, cases)

    rs = []
    for i in range(rng.choice([1, 1, 2])):
        body = [stmt() for _ in range(rng.randint(1, 5) if not big else rng.choice([2, 10, 40]))] + [L.Ctl(rng.choice(["return", "end", "hold"]))]
        rs.append(L.Routine("gen", i, None, None, body))
    return L.Program([], [], rs)
