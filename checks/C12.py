"""C12: concurrent compilation and decompilation give the sequential results."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from vlib import hist, proj, sched  # noqa: E402
from vlib.check import Bad, Check, Skip  # noqa: E402
import checks.C10  # noqa: E402,F401
import checks.C15  # noqa: E402,F401

WHERE = {
    "package": (sched.HOME,),
    "decompiler": ("explorerscript/ssb_converting/decompiler", "explorerscript/ssb_converting/ssb_decompiler", "ssb_special_ops", "ssb_data_types", "source_map"),
    "graph": ("graph_building",),
    "compiler": ("explorerscript/ssb_converting/compiler", "explorerscript/ssb_converting/ssb_compiler", "explorerscript/macro", "source_map", "explorerscript/util"),
    "parser": ("antlr4/", "explorerscript_reader", "syntax_error_listener"),
}  # fmt: skip


def one(it):
    with proj.scratch() as root:
        return hist.run_item(it, root=root)


def items_for(rng, small, decompile_only):
    while True:
        it = hist.structured(rng) if rng.random() < 0.35 else hist.item(rng, small)
        if decompile_only and it[0] not in ("decompile", "exps then decompile", "json"):
            continue
        return it


def compare(rng, st, per_thread, run, how):
    flat = [it for its in per_thread for it in its]
    alone = {}
    for k, it in enumerate(flat):
        alone[k] = hist.in_child(lambda it=it: one(it))
    fs = [lambda its=its: [one(it) for it in its] for its in per_thread]
    got = hist.in_child(lambda: run(fs), 45)
    if got is None:
        raise Skip("no answer")
    res, info = got
    st["stat"]["switches"] += info
    k = 0
    for t, its in enumerate(per_thread):
        if res[t] is None:
            raise Bad("a thread ended without a result", threads=per_thread, thread=t, schedule=how)
        for j, it in enumerate(its):
            a, b = alone[k], res[t][j]
            k += 1
            st["stat"][it[0]] += 1
            if a is not None and a != b and ("resource",) not in (a, b):
                raise Bad("another result than alone", threads=per_thread, thread=t, item=it, alone=str(a)[:3000], concurrent=str(b)[:3000], schedule=how)


def t_schedule(rng, st):
    where = rng.choice(list(WHERE))
    opc = rng.random() < 0.3
    mean = rng.choice([3, 10, 40, 200])
    n = rng.choice([2, 2, 2, 3])
    per = [[items_for(rng, True, where in ("decompiler", "graph")) for _ in range(rng.choice([1, 1, 2]))] for _ in range(n)]
    seed = rng.random()
    st["h"] = (per, where, opc, mean)
    st["stat"]["at " + where] += 1

    def run(fs):
        import random

        s = sched.Sched(random.Random(seed), n, mean, opc, WHERE[where])
        r = s.run(fs)
        return r, s.switches

    compare(rng, st, per, run, {"kind": "controlled", "where": where, "bytecodes": opc, "mean": mean, "seed": seed})


def t_free(rng, st):
    n = rng.choice([2, 4, 8])
    per = [[items_for(rng, False, False) for _ in range(rng.choice([2, 3, 5]))] for _ in range(n)]
    st["h"] = per
    compare(rng, st, per, lambda fs: (sched.free(fs, rng.choice([1e-6, 1e-5, 1e-4])), 0), {"kind": "free"})


if __name__ == "__main__":
    ck = Check("C12")
    ck.start_vc()
    q = ck.quick
    ck.bounds = ["random schedules (2-8 threads), switches at line or bytecode boundaries of the package or of antlr4"]
    ck.run("schedules", t_schedule, 260 if q else 8000)
    ck.run("free running", t_free, 100 if q else 2500)
    ck.finish()
