"""C01: the compiled routines behave exactly as the language specification says the source program does."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from vlib import common, gen, impl, lang as L, sem  # noqa: E402
from vlib.check import Bad, Check, Skip  # noqa: E402


def check_program(p, t, st):
    st["h"] = t
    try:
        if L.parse(t) != p:
            raise Skip("printer")
    except L.LangError:
        raise Skip("printer")
    try:
        it = sem.Interp(impl.PPL)
        ents = it.program(p)
    except sem.Meaningless as e:
        raise Skip("meaningless: " + str(e)[:20])
    try:
        c = impl.compile_text(t)
    except impl.ALLOWED:
        raise Skip("rejected by the compiler")  # (the property speaks about accepted programs)
    common.check_tables(c, source=t)
    if common.table_of_compiled(c) != [(k, tg, nm if k == "coro" else None) for k, _, tg, nm, _ in ents]:
        raise Bad("routine table differs", expected=[e[:4] for e in ents], got=common.table_of_compiled(c), source=t)
    try:
        l2, e2 = sem.ssb_lts(c.ops)
    except sem.SsbBad as e:
        raise Bad("compiled ops are not closed", error=str(e), source=t)
    common.same_behaviour(it.lts, common.entries(ents), l2, e2, "compiled program behaves differently", source=t, ops=[[str(o) for o in r] for r in c.ops])


def trial(rng, st, **kw):
    g = gen.ProgGen(rng, depth=rng.randint(0, 3), width=rng.randint(1, 3), **kw)
    p = g.program()
    check_program(p, L.to_text(p), st)


def t_nojump(rng, st):
    trial(rng, st, jumps=False, calls=False)


def t_loops(rng, st):
    trial(rng, st, switches=rng.random() < 0.5, withs=False, msg=False)


def t_deep(rng, st):
    g = gen.ProgGen(rng, depth=rng.randint(3, 5), width=2)
    p = g.program()
    check_program(p, L.to_text(p), st)


# every small program over a fixed set of one-line statements: exhaustive up to the stated bound
SMALL = ["a();", "jump @l;", "\u00a7l;", "return;"]
BLOCKS = ["if (debug) {{ {0} }}", "if not (debug) {{ {0} }}", "if (debug) {{ {0} }} else {{ {1} }}", "if not (debug || edit) {{ {0} }} else {{ {1} }}",
          "if (debug) {{ {0} }} elseif (edit) {{ {1} }}", "forever {{ {0} {1} }}", "while (debug) {{ {0} {1} }}", "while not (debug) {{ {0} {1} }}",
          "for (i(); debug; n();) {{ {0} {1} }}", "switch ($A) {{ case 1: {0} case 2: {1} }}", "switch ($A) {{ case 1: case 2: {0} break; default: {1} }}",
          "switch ($A) {{ default: {0} case 2: {1} }}"]  # fmt: skip


def small_programs(full):
    import itertools

    inner = ["", "a();", "jump @l;", "return;", "break;", "continue;", "break_loop;", "b(); break;", "call @l;", "if (variation) { break_loop; }", "if (variation) { jump @l; }", "if not (variation) { break; }"]
    tails = ["", "z();", "return;", "@l; z();", "@l;"]
    for b in BLOCKS:
        for x, y in itertools.product(inner, inner):
            if "{1}" not in b and y:
                continue
            for tl in tails:
                for wrap in (["{}", "forever {{ {} }}", "switch ($B) {{ case 7: {} }}"] if full else ["{}", "forever {{ {} }}"]):
                    yield "def 0 { " + wrap.format(b.format(x, y)) + " " + tl + " }" + ("" if "@l;" in tl and tl[0] == "@" else " def 1 { @l; w(); }")


LIST: list = []


def t_small(rng, st):
    i = int(st["i"])
    t = LIST[i]
    try:
        p = L.parse(t)
    except L.LangError:
        raise Skip("not in the grammar")
    it = sem.Interp(impl.PPL)
    try:
        it.program(p)
    except sem.Meaningless:
        # a meaningless program must not be accepted (C10); no behaviour to compare here
        raise Skip("meaningless")
    check_program(p, t, st)


if __name__ == "__main__":
    ck = Check("C01")
    n = 1 if ck.quick else 20
    ck.start_vc()
    ck.run("all", trial, 8000 * n)
    ck.run("nojump", t_nojump, 4000 * n)
    ck.run("loops", t_loops, 4000 * n)
    ck.run("deep", t_deep, 1000 * n)
    LIST[:] = list(small_programs(not ck.quick))
    if ck.quick:
        LIST[:] = LIST[ck.seed % 3::3]
    ck.run("small", t_small, len(LIST))
    ck.bounds += ["random programs up to nesting depth 5 and 4 statements per block; every program of the small-shape list is enumerated (a third of it in the quick tier)"]
    ck.finish()
