"""C18: the position-mark listing delimits every Position literal exactly."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from vlib import common, gen, impl, lang as L, proj, respell, sem  # noqa: E402
from vlib.check import Bad, Check, Skip  # noqa: E402
from explorerscript.explorerscript_reader import ExplorerScriptReader  # noqa: E402
from explorerscript.ssb_converting.compiler.compiler_visitor.position_mark_visitor import PositionMarkVisitor  # noqa: E402
from explorerscript.ssb_converting.ssb_data_types import SsbOpParamPositionMarker  # noqa: E402
from checks.C04 import pos_lit  # noqa: E402

ARG_INT = ["1", "$A", "X", "'s'", "1.5", "-3", '{english="x"}']


def one_mark(rng, n):
    """A Position literal with a name of its own."""
    lit, v = pos_lit(rng)
    nm = f"mark{n}"
    q = rng.choice("'\"")
    extra = rng.choice(["", "", " x", "<", ">", ", 1", "\\n", "//", "/*", "\\" + q])
    _, name, xo, yo, x, y = v
    val = nm + extra.replace("\\n", "\n").replace("\\" + q, q)
    tail = lit[lit.rindex(",", 0, lit.rindex(",")):]
    return f"Position<{q}{nm}{extra}{q}{tail}", ("p", val, xo, yo, x, y)


def source(rng, accepted=True):
    """A source full of Position literals; returns (text, values in source order)."""
    marks = []

    def args(p=0.6):
        out = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            if rng.random() < p:
                t, v = one_mark(rng, len(marks))
                marks.append(v)
                out.append(t)
            else:
                out.append(rng.choice(ARG_INT))
        return ", ".join(out) + ("," if out and rng.random() < 0.1 else "")

    macs = [f"m{i}" for i in range(rng.choice([0, 1, 2]))]

    def stmt(d, avail):
        x = rng.random()
        if x < 0.45 or d <= 0:
            return f"op{rng.randint(0, 99)}" + rng.choice(["", "", "<actor X>"]) + f"({args()});"
        if x < 0.6 and avail:
            return f"~{rng.choice(avail)}($x, {args() or '1'});"
        b = lambda: " ".join(stmt(d - 1, avail) for _ in range(rng.randint(0, 2)))  # noqa
        k = rng.randrange(7)
        if k == 0:
            return f"if (BranchSum({args()}) || debug) {{ {b()} }} elseif (BranchExecuteSub({args()})) {{ {b()} }} else {{ {b()} }}"
        if k == 1:
            return f"switch (ProcessSpecial({args()})) {{ case 1: {b()} a({args()}); break; default: {b()} z(); }}"
        if k == 2:
            return f"forever {{ {b()} break_loop; }}"
        if k == 3:
            return f"for (i({args()}); BranchSum({args()}); n({args()});) {{ {b()} }}"
        if k == 4:
            return f"with (actor X) {{ w({args()}); }}"
        if k == 5:
            return f"while not (BranchSum({args()})) {{ {b()} }}"
        return f"message_SwitchTalk ($A) {{ case 1: 'Position<' default: \"x\" }} op({args()});"

    parts = []
    for i, m in enumerate(macs):
        parts.append(f"macro {m}($p, $q) {{ {stmt(2, macs[:i])} {stmt(1, macs[:i])} }}")
    # (arguments are produced in text order, so the values are in source order)
    for i in range(rng.choice([1, 1, 2])):
        parts.append(f"def {i} {rng.choice(['', 'for actor X'])} {{ " + " ".join(stmt(2, macs) for _ in range(rng.randint(1, 4))) + " }")
    return "\n".join(parts), marks


def listing(t):
    return PositionMarkVisitor().visit(ExplorerScriptReader(t).read())


def offset_of(t, line, col):
    i = 0
    for _ in range(line):
        i = t.index("\n", i) + 1
    return i + col


def trial(rng, st):
    t, vals = source(rng)
    t = respell.relayout(rng, t, literals=False, dense=rng.choice([0.2, 0.6, 0.9, 1.0])) if rng.random() < 0.8 else t
    st["h"] = t
    data = {"source": t}
    toks = L.lex(t)
    spans = []
    for i, k in enumerate(toks):
        if k.text == "Position" and k.kind == "kw":
            j = i
            while toks[j].text != ">":
                j += 1
            spans.append((k, toks[j]))
    if len(spans) != len(vals):
        raise Skip("generator")
    try:
        got = listing(t)
    except impl.ALLOWED:
        raise Skip("does not parse")
    want = [(a.line, a.col, b.line, b.col) + v[1:] for (a, b), v in zip(spans, vals)]
    have = [(m.line_number, m.column_number, m.end_line_number, m.end_column_number, m.name, m.x_offset, m.y_offset, m.x_relative, m.y_relative) for m in got]
    if want != have:
        raise Bad("the listing differs from the Position literals of the source", expected=want, got=have, **data)
    st["stat"]["marks"] += len(want)
    try:
        c = impl.compile_text(t)
    except impl.ALLOWED:
        raise Skip("rejected by the compiler")
    seen = {v[1:] for r in c.ops for _, _, ps in r for v in ps if v[0] == "p"}
    for s in seen:
        if ("p",) + s not in vals:
            raise Bad("the compiler's parameter differs from the listed mark", parameter=s, listed=have, **data)
    if not got:
        return
    for i in rng.sample(range(len(got)), min(2, len(got))):
        m = got[i]
        new = ("p", "edited", rng.choice([0, 2]), rng.choice([0, 2]), rng.choice([0, 9, 61]), rng.choice([0, 5, 120]))
        a, b = offset_of(t, m.line_number, m.column_number), offset_of(t, m.end_line_number, m.end_column_number)
        t2 = t[:a] + str(SsbOpParamPositionMarker(*new[1:])) + t[b + 1:]
        old = vals[i]
        want_ops = [[(o, n, [new if p == old else p for p in ps]) for o, n, ps in r] for r in c.ops]
        try:
            c2 = impl.compile_text(t2)
        except impl.ALLOWED as e:
            raise Bad("replacing the delimited span breaks the source", error=repr(e), mark=have[i], edited=t2, **data)
        if c2.ops != want_ops or c2.infos != c.infos or c2.coros != c.coros:
            raise Bad("replacing the delimited span changes something else", mark=have[i], edited=t2, expected=want_ops, got=c2.ops, **data)
        st["stat"]["edits"] += 1


if __name__ == "__main__":
    ck = Check("C18")
    n = 1 if ck.quick else 25
    ck.start_vc()
    ck.run("marks", trial, 5000 * n)
    ck.finish()
