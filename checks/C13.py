"""C13: flat structured programs decompile to structured, jump-free text printing every operation once."""
import collections
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from vlib import common, gen, impl, lang as L, sem  # noqa: E402
from vlib.check import Bad, Check, Skip  # noqa: E402


def simple_key(s):
    if isinstance(s, L.Op):
        return ("op", s.name, common_args(s.args), s.ctx and (s.ctx[0], s.ctx[1]))
    return None


def common_args(a):
    return tuple(sem.VS(a)) if a else ()


def op_multiset(p):
    c = collections.Counter()
    for r in p.routines:
        for s in common.walk(r.body or []):
            if isinstance(s, L.Op):
                c[s.name] += 1
            elif isinstance(s, L.Assign):
                c[("assign", s.kind)] += 1
            elif isinstance(s, L.MsgSwitch):
                c[("msg", s.name if hasattr(s, "name") else s.kind)] += 1
    return c


def check_program(p, t, st):
    try:
        lts, ents = common.interp(p)
    except sem.Meaningless as e:
        raise Skip(str(e))
    c = impl.compile_text(t)
    rs = gen.renumber(impl.to_routine_set(c))
    try:
        out, sm = impl.decompile(rs)
    except Exception as e:
        raise Bad("decompiler raised", source=t, error=repr(e))
    if out.startswith("//?: is-ssb-script"):
        raise Bad("decompiled to SsbScript", source=t, text=out)
    try:
        q = L.parse(out)
    except Exception as e:
        raise Bad("decompiled text does not parse", source=t, text=out, error=repr(e))
    for r in q.routines:
        for s in common.walk(r.body or []):
            if isinstance(s, (L.Jump, L.Call)):
                raise Bad("jump in the text of a flat program", source=t, text=out)
    a, b = op_multiset(p), op_multiset(q)
    if a != b:
        raise Bad("operations not printed exactly once", source=t, text=out, expected={str(k): v for k, v in (a - b).items()},
                  extra={str(k): v for k, v in (b - a).items()})  # fmt: skip
    lq, eq = common.interp(q)
    common.same_behaviour(lts, common.entries(ents), lq, common.entries(eq), "decompiled text behaves differently", eq=common.dm_eq, source=t, text=out)


def trial(rng, st, **kw):
    p = gen.flat_program(rng, **kw)
    t = L.to_text(p)
    st["h"] = t
    check_program(p, t, st)


if __name__ == "__main__":
    ck = Check("C13")
    ck.start_vc()
    ck.run("flat", trial, 2000 if ck.quick else 40000)
    ck.run("empty blocks", lambda r, st: trial(r, st, empty=0.3), 1500 if ck.quick else 30000)
    ck.run("big", lambda r, st: trial(r, st, big=True, empty=r.choice([0, 0, 0.2])), 150 if ck.quick else 2000)
    ck.finish()
