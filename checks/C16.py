"""C16: layout, comments and alternative spellings do not change the compiled ops."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from vlib import common, gen, impl, lang as L, proj, respell, sem  # noqa: E402
from vlib.check import Bad, Check, Skip  # noqa: E402


def outcome(t, compiler=None):
    try:
        c = compiler(t) if compiler else impl.compile_text(t)
    except impl.ALLOWED as e:
        return ("rejected", type(e).__name__), None
    marks = sorted(repr((m.name, m.x_offset, m.y_offset, m.x_relative, m.y_relative)) for m in c.source_map.get_position_marks__direct())
    marks += sorted(repr((a, b, m.name, m.x_offset, m.y_offset, m.x_relative, m.y_relative)) for a, b, m in c.source_map.get_position_marks__macros())
    return (c.ops, c.infos, c.coros, marks), c


def compare(a, b, compiler=None):
    ra, ca = outcome(a, compiler)
    if ca is None:
        raise Skip("rejected")
    try:
        rb, cb = outcome(b, compiler)
    except Exception as e:
        raise Bad("the re-spelled source fails", error=repr(e), a=a, b=b)
    if cb is None:
        raise Bad("the re-spelled source is rejected", error=rb, a=a, b=b)
    for nm, x, y in zip(("ops", "routine infos", "coroutine names", "position marks"), ra, rb):
        if x != y:
            raise Bad(f"the re-spelled source compiles to other {nm}", a=a, b=b, ops_a=repr(x)[:3000], ops_b=repr(y)[:3000])


def program(rng):
    mac = {}
    ms = []
    for i in range(rng.choice([0, 0, 1, 2])):
        g = gen.ProgGen(rng, depth=rng.choice([0, 1]), width=2, macros=dict(mac), wild=rng.random() < 0.3)
        ar = rng.choice([0, 1, 2])
        g.macro_params = rng.sample(proj.PNAMES, ar)
        ms.append(L.Macro(f"m{i}", list(g.macro_params), g.routine_body()))
        mac[f"m{i}"] = ar
    g = gen.ProgGen(rng, depth=rng.randint(0, 3), width=rng.randint(1, 3), macros=mac, wild=rng.random() < 0.3)
    p = g.program()
    p.macros = ms
    p.order = ms + p.routines
    return p


def text_of(p, style):
    try:
        return L.to_text(p, style)
    except L.LangError:
        raise Skip("no spelling")


def t_layout(rng, st):
    p = program(rng)
    a = text_of(p, None)
    b = respell.relayout(rng, a, literals=False)
    st["h"] = (a, b)
    compare(a, b)


def t_spelling(rng, st):
    p = program(rng)
    a, b = text_of(p, L.Style(rng)), text_of(p, L.Style(rng))
    b = respell.relayout(rng, b)
    st["h"] = (a, b)
    compare(a, b)


def t_ssbs(rng, st):
    """The same for SsbScript (it shares the lexical rules)."""
    rs = gen.random_rs(rng, size=rng.choice([3, 6]), routines=rng.choice([1, 2]), coherent=False)
    a = impl.decompile_ssbscript(rs)[0]
    try:
        L.lex(a)
    except L.LangError:
        raise Skip("not lexable")
    b = respell.relayout(rng, a)
    st["h"] = (a, b)
    compare(a, b, impl.compile_ssbscript)


PAIRS = [
    ("def 0 for actor X { a(); }", "def 0 for_actor(X) { a(); }"), ("def 0 for object 3 { a(); }", "def 0 for_object(0x3) { a(); }"),
    ("def 0 for performer $X { a(); }", "def 0 for_performer($X) { a(); }"), ("def 0 for performer ($X) { a(); }", "def 0 for performer $X { a(); }"),
    ("def 0 { @l; a(); jump @l; }", "def 0 { \u00a7l; a(); jump @l; }"), ("def 0 { a(1, 'x'); }", "def 0 { a(1, \"x\",); }"),
    ("def 0 { a({english='x', french=\"y\"}); }", "def 0 { a({english=\"x\", french='y',},); }"),
    ("macro m($a) { b($a); } def 0 { ~m(1); }", "macro m($a) { b($a,); } def 0 { ~m(0b1,); }"),
    ("def 0 { a(1.5, 0.0, -0.5, 0.50); }", "def 0 { a(01.5, 00.0, -00.5, 000.50); }"),
    ("def 0 { a(Position<'m', 1.5, 2>); }", "def 0 { a(Position<\"m\",\n01.5,\t0x2>); }"),
    ("def 0 { a(); /* x */ b(); }", "def 0 { a(); // x\n b(); }"), ("def 0 { a(); }", "def 0 { a(); } // end"), ("def 0 { a(); }", "def 0 { a(); } /* end"),
    ("def 0 { a(); }", "/**/def/**/0/***/{/*/*/a/**/(/**/)/**/;/**/}/**/"), ("def 0 { if (debug) { a(); } }", "def 0{if(debug){a();}}"),
    ("def 0 { $A -= 1; a(-1); }", "def 0{$A-=1;a(-1);}"), ("def 0 { switch($A){case 1:a();} }", "def 0 { switch\\\n($A)\\\n{ case\n1 : a ( ) ; } }"),
    ("def 0 { message_SwitchTalk($A) { case 1: 'a' } }", "def 0 { message_SwitchTalk ( $A ) { case 0x1 : \"a\" } }"),
    ("def 0 { message_SwitchTalker(1); }", "def 0 { message_SwitchTalker ( 0b1 , ) ; }"),
    ("coro A { a(); }", "coro\nA\n{\na\n(\n)\n;\n}"), ("def 0 { a(); }\ndef 1 { alias previous; }", "def 0 { a(); } def 1 { alias\nprevious; }"),
    ("def 0 { a(); }\r\n", "def 0 { a(); }\r"), ("def 0 { forever { break_loop; } }", "def 0 { forever { break_loop\t; } }"),
]  # fmt: skip

if __name__ == "__main__":
    ck = Check("C16")
    n = 1 if ck.quick else 25
    ck.start_vc()
    ck.run("layout", t_layout, 4000 * n)
    ck.run("spelling", t_spelling, 6000 * n)
    ck.run("ssbscript", t_ssbs, 1000 * n)
    for i, (a, b) in enumerate(PAIRS):
        ck.case(f"pairs/{i}", compare, a, b)
    ck.finish()
