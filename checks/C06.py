"""C06: the decompiler always answers; its SsbScript fallback is marked and exact."""
import random
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from vlib import common, gen, impl  # noqa: E402
from vlib.check import Bad, Check, Skip  # noqa: E402

MARK = "//?: is-ssb-script: true\n"


def answer(rs, st, **data):
    """Contract of ExplorerScriptSsbDecompiler.convert on one well-formed routine set."""
    bad = gen.well_formed(rs)
    if bad:
        raise Skip("not well-formed: " + bad)
    if "allow" not in data and common.unspellable(rs):
        raise Skip(common.UNSPELLABLE)
    data.pop("allow", None)
    data["routines"] = common.show(rs)
    try:
        out, sm = impl.decompile(rs)
    except Exception as e:
        raise Bad("decompiler raised", error=repr(e), **data)
    if not isinstance(out, str) or type(sm).__name__ != "SourceMap":
        raise Bad("decompiler returned something else than text and source map", got=repr((out, sm))[:200], **data)
    fb = out.startswith(MARK)
    st["stat"]["fallback" if fb else "structured"] += 1
    data["text"] = out
    try:
        c = impl.compile_text(out)
    except Exception as e:
        raise Bad("the ExplorerScript compiler does not accept the text", fallback=fb, error=repr(e), **data)
    if fb:
        common.same_routine_set(rs, c, "fallback is not exact", **data)
    return fb


def forced(rs, st, **data):
    """Same contract when structuring fails at some point (any failure inside must lead to an exact fallback)."""
    from explorerscript.ssb_converting.decompiler.write_handlers.routine import RoutineWriteHandler as R

    calls = {"n": 0}
    at = data["fail_at"]
    real = R.write_content

    def boom(self):
        calls["n"] += 1
        if calls["n"] > at:
            raise AssertionError("injected")
        return real(self)

    R.write_content = boom
    try:
        if answer(rs, st, **data) is False and calls["n"] > at:
            raise Bad("structuring failed but the text is not marked as SsbScript", **data)
    finally:
        R.write_content = real


def t_sets(rng, st, **kw):
    rs = gen.random_rs(rng, size=rng.choice([2, 4, 8, 14, 24]), routines=rng.choice([1, 1, 2, 3, 4]), calls=rng.random() < 0.4,
                       cross=rng.choice([0, 0.1, 0.3]), **kw)  # fmt: skip
    st["h"] = rs["ops"]
    return rs


def t_coherent(rng, st):
    answer(t_sets(rng, st), st)


def t_incoherent(rng, st):
    answer(t_sets(rng, st, coherent=False), st)


def t_wild(rng, st):
    answer(t_sets(rng, st, wild=True), st)


def t_forced(rng, st):
    rs = t_sets(rng, st, wild=rng.random() < 0.3)
    forced(rs, st, fail_at=rng.randrange(len(rs["ops"])))


UNSPELLABLE = ["  a\\n\n  b", "'''\\n\"\"\"", "a\r\nb"]


def unspellable(t):
    rs = {"infos": [("gen", None)], "coros": [None], "ops": [[(0, "op", [("s", t)]), (1, "Case", [("i", 1), ("i", 2)]), (2, "Return", [])]]}
    try:
        answer(rs, {"stat": __import__("collections").Counter()}, allow=1)
    except Bad as e:
        raise Bad(common.UNSPELLABLE, cause=e.sig, **e.data)


def keyword(name):
    rs = {"infos": [("gen", None)], "coros": [None], "ops": [[(0, name, [("i", 1)]), (1, "Return", [])]]}
    try:
        answer(rs, {"stat": __import__("collections").Counter()})
    except Bad as e:
        raise Bad(f"opcode named {name}", cause=e.sig, **e.data)


if __name__ == "__main__":
    ck = Check("C06")
    ck.start_vc()
    n = 1 if ck.quick else 25
    ck.run("coherent", t_coherent, 4000 * n)
    ck.run("incoherent", t_incoherent, 4000 * n)
    ck.run("wild", t_wild, 2000 * n)
    ck.run("forced", t_forced, 2000 * n)
    for t in UNSPELLABLE:
        ck.case("unspellable/" + repr(t), unspellable, t)
    from checks.C07 import KEYWORDISH

    for k in KEYWORDISH:
        ck.case("keyword/" + k, keyword, k)
    ck.finish()
