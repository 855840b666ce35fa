"""Other spellings of the same token sequence: layout, comments, number bases, leading zeros, quote styles."""
from __future__ import annotations

import random

from . import lang as L

COMMENT_BODY = ["", " c", "x", " 'q", ' "', " {", "}", ";", " def 0 {", "/*", " //", "'''", '"""', " * /", "\u00e9\u3042", "\\", " a\\", " return;", "@l;"]


def comment(r: random.Random) -> str:
    if r.random() < 0.5:
        return "//" + r.choice(COMMENT_BODY) + r.choice(["\n", "\n", "\r\n", "\n\n"])
    b = "".join(r.choice(COMMENT_BODY + ["\n", "\n  ", "*", "**"]) for _ in range(r.randint(0, 3))).replace("*/", "* /")
    if b.startswith("/"):
        b = " " + b
    return "/*" + b + r.choice(["", " "]) + "*/"


def separator(r: random.Random, dense: float) -> str:
    x = r.random()
    if x < dense:
        return ""
    out = ""
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        y = r.random()
        if y < 0.3:
            out += " "
        elif y < 0.55:
            out += r.choice(["\n", "\n    ", "\r\n", "\t", "  ", "\r", "\n\n"])
        elif y < 0.65:
            out += r.choice(["\\\n", "\\\r\n", "\\ \n", "\\\f", "\\\n  "])
        else:
            out += comment(r)
    return out


def respell_token(r: random.Random, t: L.Tok, prev: str) -> str:
    if t.kind == "int":
        n = L.int_value(t.text)
        s = "-" if t.text.startswith("-") else ""
        a = abs(n)
        return r.choice([t.text, f"{s}{a}", f"{s}0x{a:x}", f"{s}0X{a:X}", f"{s}0o{a:o}", f"{s}0O{a:o}", f"{s}0b{a:b}", f"{s}0B{a:b}", f"{s}0x00{a:x}"] + ([s + "000"] if a == 0 else []))
    if t.kind == "dec":
        s = "-" if t.text.startswith("-") else ""
        w, f = t.text.lstrip("-").split(".")
        return r.choice([t.text, s + "0" + w + "." + f, s + "00" + w + "." + f])
    if t.kind in ("str", "mstr"):
        v = L.str_value(t)
        esc = v.replace("\n", "\\n")
        c = [t.text, "'" + esc.replace("'", "\\'") + "'", '"' + esc.replace('"', '\\"') + '"', "'" + esc.replace("'", "\\'").replace('"', '\\"') + "'"]
        if prev not in ("<", "import"):
            ind = "\n" + " " * r.choice([0, 2, 4])
            for q in ("'''", '"""'):
                c += [q + v + q, q + ind + v.replace("\n", ind) + ind + q, q + ind + v.replace("\n", ind) + q]
        r.shuffle(c)
        for x in c:
            try:
                ts = L.lex(x)
            except L.LangError:
                continue
            if len(ts) == 2 and ts[0].kind in ("str", "mstr") and ts[0].text == x and L.str_value(ts[0]) == v:
                return x
    return t.text


def relayout(r: random.Random, text: str, *, literals: bool = True, dense: float | None = None, at_ends: bool = True) -> str:
    toks = [t for t in L.lex(text) if t.kind != "eof"]
    dense = r.choice([0.1, 0.5, 0.9, 1.0]) if dense is None else dense
    parts: list[str] = []
    prev = ""
    for t in toks:
        parts.append(respell_token(r, t, prev) if literals else t.text)
        prev = t.text
    seps = [separator(r, dense) for _ in range(len(parts) + 1)]
    # (a comment in front of everything could be a meta attribute line; a plain one is not)
    if not at_ends:
        seps[0] = seps[-1] = ""
    elif r.random() < 0.1:
        seps[-1] += r.choice(["/* never closed", "// last line", "/*", "//"])
    # tokens must not grow together
    for i in range(1, len(parts)):
        if not seps[i]:
            a, b = parts[i - 1], parts[i]
            try:
                ts = [x.text for x in L.lex(a + b)][:-1]
            except L.LangError:
                ts = []
            if ts != [a, b] or parts[i - 1][-1] in "/\\" or a + b == "/*":
                seps[i] = " "
    out = seps[0]
    for p, s in zip(parts, seps[1:]):
        out += p + s
    try:
        if [x.text for x in L.lex(out)][:-1] == parts:
            return out
    except L.LangError:
        pass
    return " ".join(parts)
