"""C05: a macro call means its body inlined, in any definition order and file layout."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from vlib import common, gen, impl, lang as L, proj, sem  # noqa: E402
from vlib.check import Bad, Check, Skip  # noqa: E402


def check_project(p, st, **data):
    data["project"] = p.describe()
    try:
        it, ents = p.meaning()
    except sem.Meaningless as e:
        raise Skip("meaningless: " + str(e)[:30])
    with proj.scratch() as root:
        p.write(root)
        try:
            c = p.compile(root)
        except Exception as e:
            raise Bad("the program does not compile", error=repr(e) + " " + str(e)[:300], **data)
    common.check_tables(c, **data)
    try:
        l2, e2 = sem.ssb_lts(c.ops)
    except sem.SsbBad as e:
        raise Bad("compiled ops are not closed", error=str(e), **data)
    la, ea = it.lts, common.entries(ents)
    common.same_behaviour(la, ea, l2, e2, "behaves differently from the program with inlined macros", **data)
    st["stat"]["macros"] += sum(len(x.macros) for x in p.files.values())
    st["stat"]["imported files"] += len(p.files) - 1


def trial(rng, st):
    p = proj.random_project(rng)
    st["h"] = p.texts
    check_project(p, st)


def t_orders(rng, st):
    """A call chain in every definition order (files of one project)."""
    n = rng.choice([2, 3, 4, 5])
    p = proj.Project()
    ms = []
    for i in range(n):
        calls = [j for j in range(i) if rng.random() < 0.6]
        b = [L.Op(f"o{i}", [("c", "$p")])] + [L.MacroCall(f"m{j}", [rng.choice([("c", "$p"), ("i", j)])]) for j in calls]
        rng.shuffle(b)
        ms.append(L.Macro(f"m{i}", ["$p"], b))
    rng.shuffle(ms)
    calls = [L.MacroCall(f"m{i}", [("i", i)]) for i in rng.sample(range(n), rng.randint(1, n))]
    r = L.Routine("gen", 0, None, None, calls + [L.Ctl("return")])
    prog = L.Program([], ms, [r])
    prog.order = ms + [r]
    p.files["main.exps"] = prog
    p.edges["main.exps"] = []
    p.render(rng)
    st["h"] = p.texts
    check_project(p, st)


def ppl_arg():
    t = "macro m($x) { if ($x[3]) { a(); } }\ndef 0 { ~m($PERFORMANCE_PROGRESS_LIST); }\n"
    c = impl.compile_text(t)
    if c.ops[0][0][1] != "BranchPerformance":
        raise Bad("performance list handed to a macro that tests a bit of its parameter", got=c.ops[0], source=t)


if __name__ == "__main__":
    ck = Check("C05")
    ck.start_vc()
    n = 1 if ck.quick else 25
    ck.run("projects", trial, 4000 * n)
    ck.run("orders", t_orders, 1500 * n)
    ck.case("ppl", ppl_arg)
    ck.finish()
