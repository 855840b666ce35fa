"""C02: decompiled text, read by the language specification, behaves like the input routine set."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from vlib import common, gen, impl, lang as L, sem  # noqa: E402
from vlib.check import Bad, Check, Skip  # noqa: E402


def show(rs):
    return {"infos": rs["infos"], "coros": rs["coros"], "ops": [[f"{o[0]} {o[1]} {o[2]}" for o in r] for r in rs["ops"]]}


def check_rs(rs, st, **data):
    bad = gen.well_formed(rs)
    if bad:
        raise Skip("not well-formed: " + bad)
    data["routines"] = show(rs)
    l1, e1 = sem.ssb_lts(rs["ops"])
    try:
        out, _ = impl.decompile(rs)
    except Exception as e:
        raise Bad("decompiler raised", error=repr(e), **data)
    data["text"] = out
    fallback = out.startswith("//?: is-ssb-script")
    st["stat"]["fallback" if fallback else "structured"] += 1
    try:
        c = impl.compile_text(out)
    except impl.ALLOWED as e:
        raise Bad("text rejected by the compiler", error=repr(e), **data)
    if not fallback:
        try:
            q = L.parse(out)
            lq, eq = common.interp(q)
        except (L.LangError, sem.Meaningless) as e:
            raise Bad("decompiled text is not a program", error=repr(e), **data)
        ents = common.entries(eq)
        tb = [common.table_of(r) for r in q.routines]
        if tb != common.table_of_rs(rs):
            raise Bad("routine table differs", a=common.table_of_rs(rs), b=tb, **data)
        common.same_behaviour(l1, e1, lq, ents, "text behaves differently", eq=common.dm_eq, **data)
    if common.table_of_compiled(c) != common.table_of_rs(rs):
        raise Bad("recompiled routine table differs", a=common.table_of_rs(rs), b=common.table_of_compiled(c), **data)
    l2, e2 = sem.ssb_lts(c.ops)
    common.same_behaviour(l1, e1, l2, e2, "recompiled routines behave differently", eq=common.dm_eq, **data)


def trial_rs(rng, st, **kw):
    rs = gen.random_rs(rng, size=rng.choice([3, 6, 10, 16, 28]), routines=rng.choice([1, 1, 2, 3]), **kw)
    st["h"] = rs["ops"]
    check_rs(rs, st)


def t_plain(rng, st):
    trial_rs(rng, st, cross=0, calls=False, loops=0)


def t_loops(rng, st):
    trial_rs(rng, st, cross=0, calls=False, loops=0.5)


def t_calls(rng, st):
    trial_rs(rng, st, cross=0, calls=True, loops=0.5)


def t_cross(rng, st):
    trial_rs(rng, st, cross=0.2, calls=rng.random() < 0.3, loops=0.3)


def t_comp(rng, st):
    g = gen.ProgGen(rng, depth=rng.randint(0, 3), width=rng.randint(1, 3))
    t = L.to_text(g.program())
    st["h"] = t
    try:
        c = impl.compile_text(t)
    except impl.ALLOWED:
        raise Skip("rejected")
    check_rs(gen.renumber(impl.to_routine_set(c)), st, source=t)


if __name__ == "__main__":
    ck = Check("C02")
    ck.start_vc()
    n = 1 if ck.quick else 25
    ck.run("plain", t_plain, 1500 * n)
    ck.run("loops", t_loops, 1500 * n)
    ck.run("calls", t_calls, 600 * n)
    ck.run("cross", t_cross, 600 * n)
    ck.run("compiled", t_comp, 800 * n)
    ck.finish()
