"""An independent reading of the ExplorerScript language, written from docs/language_spec.rst and the .g4 grammars:
lexer, recursive-descent parser to an AST, and a printer. It shares no code with /repo.

Values (params):  ("i", int) ("c", name) ("f", Fraction, neg_zero: bool) ("s", str) ("l", ((lang, str), ...))
                  ("p", name, x_offset, y_offset, x, y)
"""
from __future__ import annotations

import re
from dataclasses import dataclass, field
from fractions import Fraction
from typing import Any, Optional


class LangError(Exception):
    pass


# --------------------------------------------------------------------------------------------- lexer
KEYWORDS = {
    "FALSE", "TRUE", "not", "jump", "call", "import", "macro", "if", "elseif", "else", "forever", "with", "switch",
    "return", "end", "hold", "continue", "break", "break_loop", "value", "debug", "edit", "variation", "random",
    "sector", "dungeon_mode", "menu2", "menu", "case", "default", "clear", "reset", "init", "scn", "dungeon_result",
    "adventure_log", "message_SwitchTalk", "message_SwitchMonologue", "while", "coro", "def", "for_actor",
    "for_object", "for_performer", "alias", "for", "previous", "Position",
}  # fmt: skip

PUNCT = ["&<<", "==", "<=", ">=", "!=", "-=", "+=", "*=", "/=", "||", "=", "<", ">", "&", "^", "[", "]", "(", ")",
         ",", ":", "+", "@", "§", "{", "}", ";"]  # fmt: skip

_TOK = re.compile(
    r"""
    (?P<skip>//[^\r\n]* | /\*.*?(?:\*/|\Z) | [ \t\n\r]+ | \\[ \t\n\r]*(?:\r?\n|\r|\f))
  | (?P<mstr>\'\'\'.*?\'\'\' | \"\"\".*?\"\"\")
  | (?P<str>'(?:\\.|[^\\\r\n\f'])*' | "(?:\\.|[^\\\r\n\f"])*")
  | (?P<dec>-?[0-9]+\.[0-9]+ | -?\.[0-9]+)
  | (?P<int>-?0[oO][0-7]+ | -?0[xX][0-9a-fA-F]+ | -?0[bB][01]+ | -?[1-9][0-9]* | -?0+)
  | (?P<var>[$][a-zA-Z_][0-9a-zA-Z_]*)
  | (?P<mac>[~][a-zA-Z_][0-9a-zA-Z_]*)
  | (?P<id>[a-zA-Z_][0-9a-zA-Z_]*)
  | (?P<punct>&<<|==|<=|>=|!=|-=|\+=|\*=|/=|\|\||[=<>&^\[\](),:+@§{};])
  """,
    re.X | re.S,
)


@dataclass
class Tok:
    kind: str
    text: str
    line: int
    col: int
    start: int
    end: int

    @property
    def pos(self):
        return (self.line, self.col)


def lex(text: str) -> list[Tok]:
    toks: list[Tok] = []
    i = 0
    line = 0
    line_start = 0
    n = len(text)
    while i < n:
        m = _TOK.match(text, i)
        if m is None:
            raise LangError(f"bad character {text[i]!r} at line {line}")
        kind = m.lastgroup
        s = m.group()
        if kind != "skip":
            k = kind
            if kind == "id" and s in KEYWORDS:
                k = "kw"
            toks.append(Tok(k, s, line, i - line_start, i, m.end()))
        nl = s.count("\n")
        if nl:
            line += nl
            line_start = i + s.rindex("\n") + 1
        i = m.end()
    toks.append(Tok("eof", "", line, i - line_start, i, i))
    return toks


# --------------------------------------------------------------------------------------------- literals (spec)
def int_value(s: str) -> int:
    neg = s.startswith("-")
    b = s[1:] if neg else s
    low = b[:2].lower()
    v = int(b[2:], 16) if low == "0x" else int(b[2:], 8) if low == "0o" else int(b[2:], 2) if low == "0b" else int(b)
    return -v if neg else v


def dec_value(s: str) -> tuple:
    neg = s.startswith("-")
    b = s[1:] if neg else s
    whole, frac = b.split(".")
    v = Fraction(int(whole or "0")) + Fraction(int(frac), 10 ** len(frac))
    return ("f", -v if neg else v, neg and v == 0)


def single_value(lit: str) -> str:
    """Single-line literal: \\" \\' and \\n (the only escapes the specification and the printer give a meaning to)."""
    b = lit[1:-1]
    out = []
    i = 0
    while i < len(b):
        if b[i] == "\\" and i + 1 < len(b) and b[i + 1] in "\"'n":
            out.append("\n" if b[i + 1] == "n" else b[i + 1])
            i += 2
        else:
            out.append(b[i])
            i += 1
    return "".join(out)


def multi_value(lit: str) -> str:
    """Multi-line literal, rules of language_spec.rst 'Constant strings'."""
    b = lit[3:-3].replace("\r\n", "\n")
    lines = b.split("\n")
    first = lines[0]
    rest = lines[1:]
    if rest:
        last = rest[-1]
        if last.strip(" ") == "":
            # "fully removed if it only consists of whitespace characters"; then empty -> line removed
            rest = rest[:-1]
    if rest:
        ind = min(len(x) - len(x.lstrip(" ")) for x in rest)
        rest = [x[ind:] for x in rest]
    parts = ([first] if first != "" else []) + rest
    return "\n".join(parts)


def str_value(tok: Tok) -> str:
    return multi_value(tok.text) if tok.kind == "mstr" else single_value(tok.text)


# --------------------------------------------------------------------------------------------- AST
def P(default=None):
    return field(default=default, compare=False, repr=False)


@dataclass
class Op:
    name: str
    args: list
    ctx: Optional[tuple] = None  # (kind, value)
    pos: Any = P()


@dataclass
class Label:
    name: str
    pos: Any = P()


@dataclass
class Ctl:
    kind: str
    pos: Any = P()


@dataclass
class Jump:
    label: str
    pos: Any = P()


@dataclass
class Call:
    label: str
    pos: Any = P()


@dataclass
class Assign:
    """kind: regular(var, idx|None, op, val, is_var) clear(v) init(v) reset_dr() reset_scn(v) adv(v) dmode(a, b)
    scn(var, a, b)"""

    kind: str
    a: tuple
    pos: Any = P()


@dataclass
class With:
    kind: str
    value: tuple
    stmt: Any
    pos: Any = P()


@dataclass
class Cond:
    """kind: op(var, op, val, is_var) bit(neg, var, idx) neg(neg, what) scn(var, op, a, b) operation(Op)"""

    kind: str
    a: tuple
    pos: Any = P()


@dataclass
class If:
    branches: list  # [(neg, [Cond], [stmt])]
    els: Optional[list]
    pos: Any = P()


@dataclass
class SwitchHeader:
    """kind: value(v) operation(Op) scn(v, idx) random(v) dungeon_mode(v) sector()"""

    kind: str
    a: tuple
    pos: Any = P()


@dataclass
class CaseHeader:
    """kind: value(v) op(op, v, is_var) menu(str) menu2(v) ; None for default"""

    kind: str
    a: tuple
    pos: Any = P()


@dataclass
class Case:
    header: Optional[CaseHeader]
    body: Any  # list of stmts or a string value
    pos: Any = P()


@dataclass
class Switch:
    header: SwitchHeader
    cases: list
    pos: Any = P()


@dataclass
class MsgSwitch:
    kind: str
    value: tuple
    cases: list
    pos: Any = P()


@dataclass
class Forever:
    body: list
    pos: Any = P()


@dataclass
class For:
    init: Any
    cond: Cond
    inc: Any
    body: list
    pos: Any = P()


@dataclass
class While:
    neg: bool
    cond: Cond
    body: list
    pos: Any = P()


@dataclass
class MacroCall:
    name: str
    args: list
    pos: Any = P()


@dataclass
class Routine:
    kind: str  # coro gen actor object performer
    id: Optional[int]
    name: Optional[str]
    target: Optional[tuple]
    body: Optional[list]  # None: alias previous
    pos: Any = P()


@dataclass
class Macro:
    name: str
    params: list
    body: list
    pos: Any = P()


@dataclass
class Program:
    imports: list
    macros: list
    routines: list
    order: list = field(default_factory=list, compare=False, repr=False)
    marks: list = field(default_factory=list, compare=False, repr=False)  # [(start, end, value)] Position literals


class Parser:
    def __init__(self, text: str):
        self.toks = lex(text)
        self.i = 0
        self.marks: list = []

    @property
    def t(self) -> Tok:
        return self.toks[self.i]

    def at(self, *texts: str) -> bool:
        t = self.t
        return t.kind in ("kw", "punct") and t.text in texts

    def nxt(self) -> Tok:
        t = self.t
        self.i += 1
        return t

    def eat(self, text: str) -> Tok:
        if not self.at(text):
            raise LangError(f"line {self.t.line}: expected {text!r}, found {self.t.text!r}")
        return self.nxt()

    def kind(self, k: str) -> Tok:
        if self.t.kind != k:
            raise LangError(f"line {self.t.line}: expected {k}, found {self.t.text!r}")
        return self.nxt()

    # --- values
    def is_intlike(self) -> bool:
        return self.t.kind in ("int", "dec", "id", "var")

    def intlike(self) -> tuple:
        t = self.nxt()
        if t.kind == "int":
            return ("i", int_value(t.text))
        if t.kind == "dec":
            return dec_value(t.text)
        if t.kind in ("id", "var"):
            return ("c", t.text)
        raise LangError(f"line {t.line}: expected a value, found {t.text!r}")

    def integer(self) -> int:
        return int_value(self.kind("int").text)

    def string(self) -> tuple:
        if self.t.kind in ("str", "mstr"):
            return ("s", str_value(self.nxt()))
        self.eat("{")
        d: dict = {}
        while True:
            k = self.kind("id").text
            self.eat("=")
            if self.t.kind not in ("str", "mstr"):
                raise LangError("expected string")
            d[k] = str_value(self.nxt())
            if self.at(","):
                self.nxt()
                if self.at("}"):
                    break
                continue
            break
        self.eat("}")
        return ("l", tuple(d.items()))

    def pos_arg(self) -> tuple[int, int]:
        t = self.nxt()
        if t.kind == "int":
            return int_value(t.text), 0
        if t.kind != "dec":
            raise LangError("position argument")
        v = dec_value(t.text)[1]
        w, fr = t.text.split(".")
        if fr.rstrip("0") not in ("5", ""):
            raise LangError("position argument must end in .5")
        return int(w or "0") if w not in ("", "-") else 0, 2 if fr.rstrip("0") == "5" else 0

    def position(self) -> tuple:
        s = self.eat("Position")
        self.eat("<")
        name = single_value(self.kind("str").text)
        self.eat(",")
        x, xo = self.pos_arg()
        self.eat(",")
        y, yo = self.pos_arg()
        e = self.eat(">")
        v = ("p", name, xo, yo, x, y)
        self.marks.append((s.pos, e.pos, v, s.start, e.end))
        return v

    def arg(self) -> tuple:
        if self.at("Position"):
            return self.position()
        if self.at("{") or self.t.kind in ("str", "mstr"):
            return self.string()
        return self.intlike()

    def arglist(self) -> list:
        self.eat("(")
        out: list = []
        if not self.at(")"):
            while True:
                out.append(self.arg())
                if self.at(","):
                    self.nxt()
                    if self.at(")"):
                        break
                    continue
                break
        self.eat(")")
        return out

    # --- statements
    def operation(self) -> Op:
        t = self.kind("id")
        ctx = None
        if self.at("<"):
            self.nxt()
            k = self.nxt().text
            ctx = (k, self.intlike())
            self.eat(">")
        return Op(t.text, self.arglist(), ctx, pos=t.pos)

    def simple(self) -> Any:
        t = self.t
        s = self._simple()
        s.pos = t.pos
        self.eat(";")
        return s

    def _simple(self) -> Any:
        t = self.t
        if t.kind == "kw":
            if t.text in ("return", "end", "hold", "continue", "break", "break_loop"):
                self.nxt()
                return Ctl(t.text)
            if t.text in ("jump", "call"):
                self.nxt()
                self.eat("@")
                return (Jump if t.text == "jump" else Call)(self.kind("id").text)
            if t.text in ("clear", "init"):
                self.nxt()
                return Assign(t.text, (self.intlike(),))
            if t.text == "reset":
                self.nxt()
                if self.at("dungeon_result"):
                    self.nxt()
                    return Assign("reset_dr", ())
                return Assign("reset_scn", (self.scn_var(),))
            if t.text == "adventure_log":
                self.nxt()
                self.eat("=")
                return Assign("adv", (self.intlike(),))
            if t.text == "dungeon_mode":
                self.nxt()
                self.eat("(")
                a = self.intlike()
                self.eat(")")
                self.eat("=")
                return Assign("dmode", (a, self.intlike()))
            raise LangError(f"line {t.line}: unexpected {t.text!r}")
        if self.at("@", "§"):
            self.nxt()
            return Label(self.kind("id").text)
        if t.kind == "id" and self.toks[self.i + 1].text in ("(", "<") and self.toks[self.i + 1].kind == "punct":
            return self.operation()
        v = self.intlike()
        idx = None
        if self.at("["):
            self.nxt()
            idx = self.integer()
            self.eat("]")
        o = self.nxt()
        if o.text not in ("=", "-=", "+=", "*=", "/="):
            raise LangError(f"line {o.line}: expected an assignment, found {o.text!r}")
        if self.at("scn"):
            if idx is not None or o.text != "=":
                raise LangError("scn assignment")
            self.nxt()
            self.eat("[")
            a = self.integer()
            self.eat(",")
            b = self.integer()
            self.eat("]")
            return Assign("scn", (v, a, b))
        if self.at("value"):
            return Assign("regular", (v, idx, o.text, self.value_of(), True))
        return Assign("regular", (v, idx, o.text, self.intlike(), False))

    def value_of(self) -> tuple:
        self.eat("value")
        self.eat("(")
        v = self.intlike()
        self.eat(")")
        return v

    def scn_var(self) -> tuple:
        self.eat("scn")
        self.eat("(")
        v = self.intlike()
        self.eat(")")
        return v

    CONDOPS = ("FALSE", "TRUE", "==", ">=", "<=", "<", ">", "!=", "&", "^", "&<<")

    def condop(self) -> str:
        if not self.at(*self.CONDOPS):
            raise LangError(f"line {self.t.line}: expected conditional operator, found {self.t.text!r}")
        return self.nxt().text

    def cond(self) -> Cond:
        p = self.t.pos
        c = self._cond()
        c.pos = p
        return c

    def _cond(self) -> Cond:
        neg = False
        if self.at("not"):
            self.nxt()
            neg = True
        if self.at("debug", "edit", "variation"):
            return Cond("neg", (neg, self.nxt().text))
        if self.at("scn") and not neg:
            v = self.scn_var()
            o = self.condop()
            self.eat("[")
            a = self.integer()
            self.eat(",")
            b = self.integer()
            self.eat("]")
            return Cond("scn", (v, o, a, b))
        if not neg and self.t.kind == "id":
            n = self.toks[self.i + 1]
            if n.kind == "punct" and n.text in ("(", "<"):
                # `a < b` or an operation with inline context
                save = self.i, len(self.marks)
                try:
                    return Cond("operation", (self.operation(),))
                except LangError:
                    self.i = save[0]
                    del self.marks[save[1]:]
        v = self.intlike()
        if self.at("["):
            self.nxt()
            idx = self.integer()
            self.eat("]")
            return Cond("bit", (neg, v, idx))
        if neg:
            raise LangError("not on a condition that has no negation")
        o = self.condop()
        if self.at("value"):
            return Cond("op", (v, o, self.value_of(), True))
        return Cond("op", (v, o, self.intlike(), False))

    def block(self) -> list:
        self.eat("{")
        out = self.stmts("}")
        self.eat("}")
        return out

    def stmts(self, *stop: str) -> list:
        out = []
        while not self.at(*stop):
            out.append(self.stmt())
        return out

    def stmt(self) -> Any:
        t = self.t
        s = self._stmt()
        s.pos = t.pos
        return s

    def conds(self) -> tuple:
        neg = False
        if self.at("not"):
            self.nxt()
            neg = True
        self.eat("(")
        cs = [self.cond()]
        while self.at("||"):
            self.nxt()
            cs.append(self.cond())
        self.eat(")")
        return neg, cs

    def _stmt(self) -> Any:
        t = self.t
        if t.kind == "mac":
            self.nxt()
            a = self.arglist()
            self.eat(";")
            return MacroCall(t.text[1:], a)
        if t.kind == "kw":
            if t.text == "with":
                self.nxt()
                self.eat("(")
                k = self.nxt().text
                v = self.intlike()
                self.eat(")")
                self.eat("{")
                s = self.simple()
                self.eat("}")
                return With(k, v, s)
            if t.text == "if":
                self.nxt()
                brs = []
                neg, cs = self.conds()
                brs.append((neg, cs, self.block()))
                els = None
                while self.at("elseif"):
                    self.nxt()
                    neg, cs = self.conds()
                    brs.append((neg, cs, self.block()))
                if self.at("else"):
                    self.nxt()
                    els = self.block()
                return If(brs, els)
            if t.text == "switch":
                self.nxt()
                self.eat("(")
                h = self.switch_header()
                self.eat(")")
                return Switch(h, self.cases())
            if t.text in ("message_SwitchTalk", "message_SwitchMonologue"):
                self.nxt()
                self.eat("(")
                v = self.intlike()
                self.eat(")")
                return MsgSwitch(t.text, v, self.cases())
            if t.text == "forever":
                self.nxt()
                return Forever(self.block())
            if t.text == "for":
                self.nxt()
                self.eat("(")
                a = self.simple()
                c = self.cond()
                self.eat(";")
                b = self.simple()
                self.eat(")")
                return For(a, c, b, self.block())
            if t.text == "while":
                self.nxt()
                neg = False
                if self.at("not"):
                    self.nxt()
                    neg = True
                self.eat("(")
                c = self.cond()
                self.eat(")")
                return While(neg, c, self.block())
        return self.simple()

    def switch_header(self) -> SwitchHeader:
        p = self.t.pos
        t = self.t
        if self.at("scn"):
            v = self.scn_var()
            self.eat("[")
            i = self.integer()
            self.eat("]")
            return SwitchHeader("scn", (v, i), pos=p)
        if self.at("random", "dungeon_mode"):
            self.nxt()
            self.eat("(")
            v = self.intlike()
            self.eat(")")
            return SwitchHeader(t.text, (v,), pos=p)
        if self.at("sector"):
            self.nxt()
            self.eat("(")
            self.eat(")")
            return SwitchHeader("sector", (), pos=p)
        if t.kind == "id" and self.toks[self.i + 1].text in ("(", "<"):
            return SwitchHeader("operation", (self.operation(),), pos=p)
        return SwitchHeader("value", (self.intlike(),), pos=p)

    def cases(self) -> list:
        self.eat("{")
        out = []
        while not self.at("}"):
            p = self.t.pos
            if self.at("default"):
                self.nxt()
                h = None
            else:
                self.eat("case")
                h = self.case_header()
            self.eat(":")
            if self.at("{") or self.t.kind in ("str", "mstr"):
                out.append(Case(h, self.string(), pos=p))
            else:
                out.append(Case(h, self.stmts("case", "default", "}"), pos=p))
        self.eat("}")
        return out

    def case_header(self) -> CaseHeader:
        p = self.t.pos
        if self.at("menu"):
            self.nxt()
            self.eat("(")
            s = self.string()
            self.eat(")")
            return CaseHeader("menu", (s,), pos=p)
        if self.at("menu2"):
            self.nxt()
            self.eat("(")
            v = self.intlike()
            self.eat(")")
            return CaseHeader("menu2", (v,), pos=p)
        if self.at(*self.CONDOPS):
            o = self.nxt().text
            if self.at("value"):
                return CaseHeader("op", (o, self.value_of(), True), pos=p)
            return CaseHeader("op", (o, self.intlike(), False), pos=p)
        return CaseHeader("value", (self.intlike(),), pos=p)

    # --- top level
    def suite(self) -> Optional[list]:
        self.eat("{")
        if self.at("alias"):
            self.nxt()
            self.eat("previous")
            self.eat(";")
            self.eat("}")
            return None
        out = self.stmts("}")
        self.eat("}")
        return out

    def program(self) -> Program:
        pr = Program([], [], [])
        while self.at("import"):
            self.nxt()
            pr.imports.append(single_value(self.kind("str").text))
            self.eat(";")
        while self.t.kind != "eof":
            p = self.t.pos
            if self.at("macro"):
                self.nxt()
                n = self.kind("id").text
                self.eat("(")
                ps = []
                while self.t.kind == "var":
                    ps.append(self.nxt().text)
                    if self.at(","):
                        self.nxt()
                self.eat(")")
                m = Macro(n, ps, self.suite(), pos=p)
                pr.macros.append(m)
                pr.order.append(m)
            elif self.at("coro"):
                self.nxt()
                n = self.kind("id").text
                r = Routine("coro", None, n, None, self.suite(), pos=p)
                pr.routines.append(r)
                pr.order.append(r)
            else:
                self.eat("def")
                i = self.integer()
                kind, target = "gen", None
                if self.at("for_actor", "for_object", "for_performer"):
                    kind = self.nxt().text[4:]
                elif self.at("for"):
                    self.nxt()
                    kind = self.nxt().text
                if kind != "gen":
                    par = self.at("(")
                    if par:
                        self.nxt()
                    target = self.intlike()
                    if par:
                        self.eat(")")
                r = Routine(kind, i, None, target, self.suite(), pos=p)
                pr.routines.append(r)
                pr.order.append(r)
        pr.marks = self.marks
        return pr


def parse(text: str) -> Program:
    return Parser(text).program()


# --------------------------------------------------------------------------------------------- SsbScript
@dataclass
class SOp:
    name: str
    args: list
    target: Optional[str]
    pos: Any = P()


# --------------------------------------------------------------------------------------------- printer
class Style:
    """Spelling choices; a random.Random may be given to vary them."""

    def __init__(self, rng=None, ws=0.0):
        self.rng = rng
        self.ws = ws

    def pick(self, *opts):
        return opts[0] if self.rng is None else self.rng.choice(opts)


def str_lit(s: str, st: Style | None = None) -> str:
    """A literal for s, by the language's own rules. Raises LangError when no single-line literal exists."""
    st = st or Style()
    q = st.pick('"', "'")
    if "\\" in s:
        # a backslash is only literal when it does not form an escape with what follows it
        b = s.replace("\n", "\\n").replace(q, "\\" + q)
        lit = q + b + q
        m = _TOK.match(lit)
        if m is None or m.end() != len(lit) or single_value(lit) != s:
            raise LangError("string has no single-line spelling")
        return lit
    for c in "\r\f":
        if c in s:
            raise LangError("string has no single-line spelling")
    return q + s.replace(q, "\\" + q).replace("\n", "\\n") + q


def literal_for(s: str, single: bool = False) -> str | None:
    """Some literal that denotes s by the rules of the language, or None when there is none: every candidate is read back by the
    rules above, and the candidates are all ways in which the escapes and the dedent rules can produce a text."""
    cands = []
    for q in "'\"":
        b = s.replace("\n", "\\n")
        cands.append(q + b.replace(q, "\\" + q) + q)
        cands.append(q + b.replace("'", "\\'").replace('"', '\\"') + q)
    if not single:
        for d in ("'''", '"""'):
            cands.append(d + s + d)
            cands.append(d + "\n" + s + "\n" + d)
            cands.append(d + "\n" + s + d)
            cands.append(d + s + "\n" + d)
    for lit in cands:
        m = _TOK.match(lit)
        if m is None or m.end() != len(lit):
            continue
        if lit[:3] in ("'''", '"""') and len(lit) >= 6:
            if multi_value(lit) == s:
                return lit
        elif single_value(lit) == s:
            return lit
    return None


def frac_lit(v: Fraction, neg_zero: bool) -> str:
    s = "-" if v < 0 or neg_zero else ""
    a = abs(v)
    w = a.numerator // a.denominator
    r = a - w
    digs = ""
    while r:
        r *= 10
        d = r.numerator // r.denominator
        digs += str(d)
        r -= d
        if len(digs) > 40:
            raise LangError("not a decimal")
    return f"{s}{w}.{digs or '0'}"


def val_lit(v: tuple, st: Style | None = None) -> str:
    st = st or Style()
    k = v[0]
    if k == "i":
        n = v[1]
        if st.rng is None:
            return str(n)
        sg = "-" if n < 0 else ""
        a = abs(n)
        return st.pick(str(n), str(n), f"{sg}0x{a:x}", f"{sg}0X{a:X}", f"{sg}0o{a:o}", f"{sg}0b{a:b}")
    if k == "c":
        return v[1]
    if k == "f":
        return frac_lit(v[1], v[2])
    if k == "s":
        return str_lit(v[1], st)
    if k == "l":
        return "{" + ", ".join(f"{a}={str_lit(b, st)}" for a, b in v[1]) + st.pick("", ",") + "}"
    if k == "p":
        _, n, xo, yo, x, y = v
        return f"Position<{str_lit(n, st)}, {x}{'.5' if xo else ''}, {y}{'.5' if yo else ''}>"
    raise LangError(f"no literal for {v}")


class Printer:
    def __init__(self, style: Style | None = None):
        self.st = style or Style()
        self.out: list[str] = []
        self.ind = 0

    def line(self, s: str) -> None:
        self.out.append("    " * self.ind + s)

    def v(self, x: tuple) -> str:
        return val_lit(x, self.st)

    def args(self, a: list) -> str:
        tr = self.st.pick("", ",") if a else ""
        return "(" + ", ".join(self.v(x) for x in a) + tr + ")"

    def op(self, o: Op) -> str:
        c = f"<{o.ctx[0]} {self.v(o.ctx[1])}>" if o.ctx else ""
        return f"{o.name}{c}{self.args(o.args)}"

    def simple(self, s: Any) -> str:
        if isinstance(s, Op):
            return self.op(s) + ";"
        if isinstance(s, Label):
            return f"{self.st.pick('@', '§')}{s.name};"
        if isinstance(s, Ctl):
            return s.kind + ";"
        if isinstance(s, Jump):
            return f"jump @{s.label};"
        if isinstance(s, Call):
            return f"call @{s.label};"
        if isinstance(s, Assign):
            a = s.a
            k = s.kind
            if k in ("clear", "init"):
                return f"{k} {self.v(a[0])};"
            if k == "reset_dr":
                return "reset dungeon_result;"
            if k == "reset_scn":
                return f"reset scn({self.v(a[0])});"
            if k == "adv":
                return f"adventure_log = {self.v(a[0])};"
            if k == "dmode":
                return f"dungeon_mode({self.v(a[0])}) = {self.v(a[1])};"
            if k == "scn":
                return f"{self.v(a[0])} = scn[{self.v(('i', a[1]))}, {self.v(('i', a[2]))}];"
            var, idx, o, val, isv = a
            i = "" if idx is None else f"[{self.v(('i', idx))}]"
            return f"{self.v(var)}{i} {o} {'value(' + self.v(val) + ')' if isv else self.v(val)};"
        raise LangError(f"not a simple statement: {s}")

    def cond(self, c: Cond) -> str:
        a = c.a
        if c.kind == "op":
            return f"{self.v(a[0])} {a[1]} {'value(' + self.v(a[2]) + ')' if a[3] else self.v(a[2])}"
        if c.kind == "bit":
            return f"{'not ' if a[0] else ''}{self.v(a[1])}[{self.v(('i', a[2]))}]"
        if c.kind == "neg":
            return f"{'not ' if a[0] else ''}{a[1]}"
        if c.kind == "scn":
            return f"scn({self.v(a[0])}) {a[1]} [{self.v(('i', a[2]))}, {self.v(('i', a[3]))}]"
        return self.op(a[0])

    def body(self, b: list) -> None:
        self.ind += 1
        for s in b:
            self.stmt(s)
        self.ind -= 1

    def stmt(self, s: Any) -> None:
        if isinstance(s, With):
            self.line(f"with ({s.kind} {self.v(s.value)}) {{")
            self.body([s.stmt])
            self.line("}")
        elif isinstance(s, If):
            for i, (neg, cs, b) in enumerate(s.branches):
                self.line(f"{'if' if i == 0 else 'elseif'} {'not ' if neg else ''}({' || '.join(map(self.cond, cs))}) {{")
                self.body(b)
                self.line("}")
            if s.els is not None:
                self.line("else {")
                self.body(s.els)
                self.line("}")
        elif isinstance(s, Switch):
            h = s.header
            if h.kind == "value":
                t = self.v(h.a[0])
            elif h.kind == "operation":
                t = self.op(h.a[0])
            elif h.kind == "scn":
                t = f"scn({self.v(h.a[0])})[{self.v(('i', h.a[1]))}]"
            elif h.kind == "sector":
                t = "sector()"
            else:
                t = f"{h.kind}({self.v(h.a[0])})"
            self.line(f"switch ({t}) {{")
            self.cases(s.cases)
            self.line("}")
        elif isinstance(s, MsgSwitch):
            self.line(f"{s.kind} ({self.v(s.value)}) {{")
            self.cases(s.cases)
            self.line("}")
        elif isinstance(s, Forever):
            self.line("forever {")
            self.body(s.body)
            self.line("}")
        elif isinstance(s, For):
            self.line(f"for ({self.simple(s.init)} {self.cond(s.cond)}; {self.simple(s.inc)}) {{")
            self.body(s.body)
            self.line("}")
        elif isinstance(s, While):
            self.line(f"while {'not ' if s.neg else ''}({self.cond(s.cond)}) {{")
            self.body(s.body)
            self.line("}")
        elif isinstance(s, MacroCall):
            self.line(f"~{s.name}{self.args(s.args)};")
        else:
            self.line(self.simple(s))

    def cases(self, cs: list) -> None:
        self.ind += 1
        for c in cs:
            h = c.header
            if h is None:
                self.line("default:")
            elif h.kind == "value":
                self.line(f"case {self.v(h.a[0])}:")
            elif h.kind == "menu":
                self.line(f"case menu({self.v(h.a[0])}):")
            elif h.kind == "menu2":
                self.line(f"case menu2({self.v(h.a[0])}):")
            else:
                o, v, isv = h.a
                self.line(f"case {o} {'value(' + self.v(v) + ')' if isv else self.v(v)}:")
            if isinstance(c.body, tuple):
                self.ind += 1
                self.line(self.v(c.body))
                self.ind -= 1
            else:
                self.body(c.body)
        self.ind -= 1

    def suite(self, head: str, body: Optional[list]) -> None:
        self.line(head + " {")
        if body is None:
            self.ind += 1
            self.line("alias previous;")
            self.ind -= 1
        else:
            self.body(body)
        self.line("}")

    def program(self, p: Program) -> str:
        for i in p.imports:
            self.line(f"import {str_lit(i, self.st)};")
        for x in p.order or (p.macros + p.routines):
            if isinstance(x, Macro):
                self.suite(f"macro {x.name}({', '.join(x.params)})", x.body)
            elif x.kind == "coro":
                self.suite(f"coro {x.name}", x.body)
            elif x.kind == "gen":
                self.suite(f"def {self.v(('i', x.id))}", x.body)
            else:
                t = self.v(x.target)
                self.suite(
                    f"def {self.v(('i', x.id))} "
                    + self.st.pick(f"for {x.kind} {t}", f"for_{x.kind}({t})", f"for {x.kind}({t})"),
                    x.body,
                )
        return "\n".join(self.out) + "\n"


def to_text(p: Program, style: Style | None = None) -> str:
    return Printer(style).program(p)
