"""C04: every parameter value survives being printed and parsed again; every literal spelling reads as specified."""
import itertools
import sys
from fractions import Fraction

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from vlib import common, gen, impl, lang as L, sem  # noqa: E402
from vlib.check import Bad, Check, Skip  # noqa: E402
from explorerscript.ssb_converting.ssb_data_types import SsbOpParamFixedPoint  # noqa: E402


def wrap(inner, depth, rng):
    for d in range(depth):
        inner = rng.choice([
            "if (debug) {{ {} }}", "if (debug) {{ a{d}(); }} else {{ {} }}", "switch ($A) {{ case 1: {} break; }}", "while (edit) {{ {} }}",
            "forever {{ {} }}", "switch ($A) {{ case 1: b(); break; default: {} }}",
        ]).format(inner, d=d)  # fmt: skip
    return inner


# context -> (statement text with placeholders for values, opcode whose parameters are replaced, indices)
CONTEXTS = {
    "argument": ("PLACE(1);", "PLACE", [0]),
    "arguments": ("PLACE(1, 2, 3);", "PLACE", [0, 1, 2]),
    "menu": ("switch (message_SwitchMenu(1)) { case menu('x'): m(); break; case menu('y'): n(); break; }", "CaseMenu", [0]),
    "text case": ("message_SwitchTalk ($A) { case 3: 'x' default: 'y' }", "CaseText", [1]),
    "text default": ("message_SwitchMonologue ($A) { case 3: 'x' default: 'y' }", "DefaultText", [0]),
    "case": ("switch ($A) { case 77: m(); break; case 78: n(); break; }", "Case", [0]),
    "case op": ("switch ($A) { case > 77: m(); break; }", "CaseValue", [1]),
    "menu2": ("switch (message_SwitchMenu(1)) { case menu2(5): m(); break; }", "CaseMenu2", [0]),
    "condition": ("if ($A == 4) { m(); }", "Branch", [1]),
    "condition op": ("if ($A <= 4) { m(); }", "BranchValue", [2]),
    "header": ("switch (ProcessSpecial(1, 2)) { case 1: m(); break; }", "ProcessSpecial", [0, 1]),
    "switch": ("switch (random(5)) { case 1: m(); break; }", "SwitchRandom", [0]),
    "assignment": ("$A = 5;", "flag_Set", [1]),
    "assignment op": ("$A += 5;", "flag_CalcValue", [2]),
    "adventure log": ("adventure_log = 5;", "flag_SetAdventureLog", [0]),
    "with": ("with (actor X) { m(); }", "lives", [0]),
    "text value": ("message_SwitchTalk ($A) { case 3: 'x' }", "CaseText", [0]),
}  # fmt: skip
STRINGS = {"argument", "arguments", "menu", "text case", "text default", "header"}
ONLY_STRINGS = {"menu", "text case", "text default"}


def roundtrip(ctx, vals, depth, rng, decomp):
    text, opname, idxs = CONTEXTS[ctx]
    c = impl.compile_text("def 0 { " + wrap(text, depth, rng) + " return; }")
    rs = gen.renumber(impl.to_routine_set(c), rng)
    hit = [o for r in rs["ops"] for o in r if o[1] == opname]
    tgt = hit[0]
    for i, v in zip(idxs, vals):
        tgt[2][i] = v
    data = {"context": ctx, "values": vals, "depth": depth, "decompiler": decomp}
    try:
        out = (impl.decompile if decomp == "exps" else impl.decompile_ssbscript)(rs)[0]
    except Exception as e:
        raise Bad("printing raised", error=repr(e), **data)
    data["text"] = out
    try:
        c2 = impl.compile_text(out) if decomp == "exps" else impl.compile_ssbscript(out)
    except Exception as e:
        raise Bad("printed text does not compile", error=repr(e) + str(e)[:200], **data)
    key = lambda ops: [o for r in ops for o in r if o[1] == opname]  # noqa
    got = key(c2.ops)
    if len(got) != len(hit):
        raise Skip("ops were regrouped")
    want = sorted(repr(strict(o)) for o in hit)
    have = sorted(repr(strict(o)) for o in got)
    if want != have:
        raise Bad("value changed by printing and parsing", expected=want, got=have, **data)
    return out.startswith("//?")


def strict(o):
    ps = o[2][:-1] if o[1] in sem.JUMP_PARAM_KINDS else o[2]
    return [("l", dict(p[1])) if p[0] == "l" else p for p in ps]


def text_value(rng):
    x = rng.random()
    if x < 0.5:
        return gen.wild_text(rng)
    al = rng.choice(["'\"\\n \n", "'\"\n ", "ab \n", "\\'\"n", " \n\t", "\u3042 \u00e9'\n", "'''\"\"\"\n ", "a\u2028\u0085\x0b\x1c\n '"])
    return "".join(rng.choice(al) for _ in range(rng.randint(0, 9)))


def num(rng):
    if rng.random() < 0.5:
        return ("i", rng.choice([0, 1, -1, 255, 256, -32768, 32767, 65535, rng.randint(-40000, 70000)]))
    if rng.random() < 0.5:
        return ("c", rng.choice(["CONST", "ACTOR_X1", "$VAR", "$GAME_MODE", "x", "_u"]))
    return fixed(rng)


def fixed(rng):
    fr = "".join(rng.choice("0123456789") for _ in range(rng.choice([1, 1, 2, 3, 5])))
    w = rng.choice(["0", "-0", "1", "-1", "12", "-120", "100", "0"])
    return L.dec_value(w + "." + fr)


def pos(rng):
    return ("p", rng.choice(["m", "", "a b", "it's", '"q"', "\u00e9", "a\nb", "'\"", text_value(rng)]), rng.choice([0, 2]), rng.choice([0, 2]),
            rng.choice([0, 1, 10, 100, 255, 305, -1, -12]), rng.choice([0, 5, 50, 120, 7, -3]))  # fmt: skip


def spellable(v):
    for t, single in common.texts({"ops": [[(0, "x", [v])]]}):
        if L.literal_for(t, single) is None:
            return False
    return True


def value(rng, strings):
    x = rng.random()
    if strings and x < 0.35:
        return ("s", text_value(rng))
    if strings and x < 0.6:
        return ("l", tuple((k, text_value(rng)) for k in rng.sample(["english", "french", "german", "italian", "spanish", "japanese"], rng.randint(1, 4))))
    if strings and x < 0.75:
        return pos(rng)
    return num(rng)


def t_print(rng, st):
    ctx = rng.choice(sorted(CONTEXTS)) if rng.random() < 0.6 else rng.choice(sorted(STRINGS))
    n = len(CONTEXTS[ctx][2])
    vals = []
    for _ in range(n):
        v = value(rng, ctx in STRINGS)
        while ctx in ONLY_STRINGS and v[0] not in "sl":
            v = value(rng, True)
        vals.append(v)
    if ctx in ("condition op", "assignment op") and rng.random() < 0.3:
        pass
    depth = rng.choice([0, 0, 1, 2, 3, 5])
    decomp = rng.choice(["exps", "exps", "ssbs"])
    st["h"] = (ctx, vals, depth, decomp)
    if not all(spellable(v) for v in vals):
        raise Skip(common.UNSPELLABLE)
    fb = roundtrip(ctx, vals, depth, rng, decomp)
    st["stat"]["fallback" if fb else ctx] += 1


def t_dmode(rng, st):
    n = rng.choice([0, 1, 2, 3, 4, 7, -1, 255])
    text, names = rng.choice([("dungeon_mode(5) = 9;", "flag_SetDungeonMode"), ("switch (dungeon_mode(5)) { case 9: m(); break; }", "Case"),
                              ("switch (dungeon_mode(5)) { case 9: case 10: m(); }", "Case")])  # fmt: skip
    depth = rng.choice([0, 1, 2])
    st["h"] = (n, text, depth)
    c = impl.compile_text("def 0 { " + wrap(text, depth, rng) + " return; }")
    rs = gen.renumber(impl.to_routine_set(c), rng)
    idx = 1 if names == "flag_SetDungeonMode" else 0
    hit = [o for r in rs["ops"] for o in r if o[1] == names and o[2][idx] == ("i", 9)]
    if not hit:
        raise Skip("no dungeon mode")
    hit[0][2][idx] = ("i", n)
    out = impl.decompile(rs)[0]
    c2 = impl.compile_text(out)
    l1, e1 = sem.ssb_lts(rs["ops"])
    l2, e2 = sem.ssb_lts(c2.ops)
    common.same_behaviour(l1, e1, l2, e2, "dungeon mode changed by printing and parsing", eq=common.dm_eq, text=out, n=n)


# ------------------------------------------------------------------ reading
def read_values(args, data):
    t = "def 0 { P(" + ", ".join(args) + "); return; }"
    res = []
    for nm, f in (("exps", lambda: impl.compile_text(t)), ("ssbs", lambda: impl.compile_ssbscript("def 0 { P(" + ", ".join(args) + "); }"))):
        try:
            c = f()
        except Exception as e:
            raise Bad("literal is rejected", error=repr(e) + str(e)[:200], compiler=nm, source=t, **data)
        res.append((nm, c.ops[0][0][2], c.raw.routine_ops[0][0].params))
    return res


def want_read(args, want, **data):
    for nm, got, raw in read_values(args, data):
        if [norm(x) for x in got] != [norm(x) for x in want]:
            raise Bad("literal does not denote the value the specification gives", compiler=nm, literals=args, expected=want, got=got, **data)


def norm(v):
    return ("l", dict(v[1])) if v[0] == "l" else v


def int_lit(rng):
    n = rng.choice([0, 1, 7, 8, 10, 255, 4096, 65535, rng.randint(0, 1 << 20)])
    sg = rng.choice(["", "", "-"])
    b = rng.choice(["{}", "{}", "0x{:x}", "0X{:X}", "0x0{:x}", "0o{:o}", "0O{:o}", "0b{:b}", "0B{:b}", "0x{:X}"])
    return sg + b.format(n), ("i", -n if sg else n)


def dec_lit(rng):
    w = rng.choice(["0", "00", "007", "10", "100", "5", "0010", "", "000"])
    f = rng.choice(["0", "5", "50", "05", "500", "25", "005", "000", "12340"])
    s = rng.choice(["", "", "-"]) + w + "." + f
    return s, L.dec_value(s)


def str_lit(rng):
    """A random literal token (the value is what the rules of the language give)."""
    for _ in range(50):
        q = rng.choice(["'", '"', "'''", '"""'])
        al = rng.choice(["a \n", "ab'\"\\n", " \n\t", "'\" ", "\\n'\"a", "a\r\n ", "\u3042\n   b", "x\u2028\u0085\n ", "  \n\n x"])
        b = "".join(rng.choice(al) for _ in range(rng.randint(0, 10)))
        if rng.random() < 0.3 and len(q) == 3:
            ind = " " * rng.choice([0, 2, 4, 8])
            ls = ["".join(rng.choice("ab c'\"\\n") for _ in range(rng.randint(0, 5))) for _ in range(rng.randint(1, 4))]
            b = rng.choice(["", "first", " "]) + "\n" + "\n".join(ind + rng.choice(["", "", "  "]) + x for x in ls) + rng.choice(["", "\n" + ind, "\n", "\n  " + ind])
        lit = q + b + q
        try:
            toks = L.lex(lit)
        except L.LangError:
            continue
        if len(toks) >= 1 and toks[0].text == lit and toks[0].kind in ("str", "mstr"):
            return lit, ("s", L.str_value(toks[0]))
    return '"x"', ("s", "x")


def pos_lit(rng):
    def one():
        if rng.random() < 0.4:
            t, v = int_lit(rng)
            return t, v[1], 0
        w = rng.choice(["0", "7", "10", "100", "", "007", "20"])
        f, o = rng.choice([("0", 0), ("5", 2), ("50", 2), ("500", 2), ("00", 0)])
        return f"{w}.{f}", int(w or "0"), o

    lit, v = str_lit(rng)
    while lit.startswith(("'''", '"""')):
        lit, v = str_lit(rng)
    x, y = one(), one()
    return f"Position<{lit}, {x[0]}, {y[0]}>", ("p", v[1], x[2], y[2], x[1], y[1])


def t_read(rng, st):
    args, want = [], []
    for _ in range(rng.randint(1, 4)):
        x = rng.random()
        if x < 0.2:
            a, v = int_lit(rng)
        elif x < 0.4:
            a, v = dec_lit(rng)
        elif x < 0.75:
            a, v = str_lit(rng)
        elif x < 0.85:
            ks = rng.sample(["english", "french", "german"], rng.randint(1, 3))
            ls = [str_lit(rng) for _ in ks]
            a = "{" + ", ".join(f"{k}={x[0]}" for k, x in zip(ks, ls)) + rng.choice(["", ","]) + "}"
            v = ("l", tuple((k, x[1][1]) for k, x in zip(ks, ls)))
        else:
            a, v = pos_lit(rng)
        args.append(a)
        want.append(v)
    st["h"] = args
    want_read(args, want)


def t_float(rng, st):
    """Fixed point numbers built from floats, as a binary reader does (16 bit, fractions of 256)."""
    n = rng.randint(-(1 << 15), (1 << 15) - 1) if rng.random() < 0.7 else rng.randint(-300, 300)
    den = rng.choice([256, 256, 64, 1 << 14, 10, 1000])
    x = n / den
    p = SsbOpParamFixedPoint.from_float(x)
    st["h"] = (n, den)
    lit = str(p)
    try:
        v = L.dec_value(lit)
    except ValueError:
        raise Bad("printed number is not a literal", value=repr(x), text=lit)
    if v[1] != Fraction(repr(x)):
        raise Bad("printed number has another value", value=repr(x), text=lit)
    want_read([lit], [v])
    q = SsbOpParamFixedPoint.from_str(lit)
    if L.dec_value(str(q)) != v:
        raise Bad("number changes when it is read again", value=repr(x), text=lit, got=str(q))


STR_ALPHA = ["'", '"', "\\", "n", "\n", " ", "a"]
EXH: list = []


def t_exhaustive(rng, st):
    """All strings up to the stated length, at all printing positions (argument, language string, mark name; two indentations)."""
    from explorerscript.ssb_converting.ssb_data_types import SsbOpParamConstString, SsbOpParamLanguageString, SsbOpParamPositionMarker

    for s in EXH[st["i"] * 50:(st["i"] + 1) * 50]:
        for indent in (0, 1):
            for mk in ("s", "l", "p"):
                if L.literal_for(s, mk == "p") is None:
                    continue
                if mk == "s":
                    p = SsbOpParamConstString(s)
                elif mk == "l":
                    p = SsbOpParamLanguageString({"english": s})
                else:
                    p = SsbOpParamPositionMarker(s, 0, 2, 1, 2)
                p.indent = indent
                lit = str(p)
                try:
                    q = L.Parser(lit)
                    v = q.arg()
                    end = q.t.kind
                except (L.LangError, ValueError, IndexError) as e:
                    raise Bad("printed value is not a literal", value=s, kind=mk, indent=indent, text=lit, error=repr(e))
                want = ("s", s) if mk == "s" else ("l", (("english", s),)) if mk == "l" else ("p", s, 0, 2, 1, 2)
                if v != want or end != "eof":
                    raise Bad("printed literal denotes another value", value=s, kind=mk, indent=indent, text=lit, got=v)
    st["stat"]["strings"] += 50


UNSPELL = ["  a\\n\n  b", "'''\\n\"\"\"", "a\r\nb"]


def unspellable(t):
    import random

    try:
        roundtrip("argument", [("s", t)], 0, random.Random(0), "exps")
    except Bad as e:
        raise Bad(common.UNSPELLABLE, cause=e.sig, **e.data)


if __name__ == "__main__":
    ck = Check("C04")
    n = 1 if ck.quick else 25
    ck.start_vc()
    ck.run("print", t_print, 8000 * n)
    ck.run("dungeon mode", t_dmode, 400 * n)
    ck.run("read", t_read, 8000 * n)
    ck.run("float", t_float, 1500 * n)
    k = 5 if ck.quick else 7
    EXH[:] = ["".join(x) for i in range(k + 1) for x in itertools.product(STR_ALPHA, repeat=i)]
    ck.run("exhaustive strings", t_exhaustive, (len(EXH) + 49) // 50)
    for t in UNSPELL:
        ck.case("unspellable/" + repr(t), unspellable, t)
    ck.bounds += [f"all strings over {STR_ALPHA} up to length {k}; other values random"]
    ck.finish()
