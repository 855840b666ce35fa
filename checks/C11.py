"""C11: results depend only on the input, not on what was processed before."""
import json
import os
import pickle
import random
import subprocess
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from vlib import hist, impl, proj  # noqa: E402
from vlib.check import Bad, Check, Skip  # noqa: E402
import checks.C10  # noqa: E402,F401
import checks.C15  # noqa: E402,F401


def show(x):
    return str(x)[:3000]


def one(it, **kw):
    with proj.scratch() as root:
        return hist.run_item(it, root=root, **kw)


def differ(a, b):
    return a != b and ("resource",) not in (a, b)


def history(items, plan):
    """Processes the items in one process; what each gave, plus notes."""
    out = []
    notes, held = [], []
    compiler = impl.ExplorerScriptSsbCompiler(impl.PPL, [])
    ssb_compiler = impl.SsbScriptSsbCompiler()
    for i, reuse, again in plan:
        n = []
        r = one(items[i], compiler=compiler if reuse else None, ssb_compiler=ssb_compiler if reuse else None, again=again, notes=n, held=held)
        out.append(r)
        notes += [(i, x) for x in n]
    late = sum(h.changed() for h in held)
    return out, notes, late


def t_history(rng, st):
    items = []
    for _ in range(rng.choice([2, 3, 4, 6])):
        w = rng.random()
        if w < 0.25:
            items.append(hist.structured(rng))
        else:
            items.append(hist.item(rng))
        if items[-1][0] == "json" and rng.random() < 0.2:
            items[-1] = ("ssb", "def 0 { f(1); Jump(@x); §x; g(); }" if rng.random() < 0.5 else "def 0 { f(1); Jump(@nope); }")
    plan = []
    for _ in range(rng.choice([4, 6, 10, 16])):
        plan.append((rng.randrange(len(items)), rng.random() < 0.6, rng.choice([0, 0, 0, 1, 2])))
    if rng.random() < 0.2:
        more = hist.leftover(rng)
        plan += [(len(items) + i, True, 0) for i in range(len(more))]
        items += more
    st["h"] = (items, plan)
    alone = [hist.in_child(lambda it=it: one(it)) for it in items]
    got = hist.in_child(lambda: history(items, plan))
    if got is None:
        raise Skip("no answer")
    out, notes, late = got
    for (i, reuse, again), r in zip(plan, out):
        st["stat"][items[i][0]] += 1
        if r and r[0] == "raised":
            st["stat"]["failing inputs"] += 1
        if alone[i] is not None and differ(alone[i], r):
            k = plan.index((i, reuse, again))
            raise Bad("result depends on what was processed before", items=items, plan=plan, item=items[i], alone=show(alone[i]), after_history=show(r), step=k)
    for i, n in notes:
        raise Bad(n, item=items[i])
    if late:
        raise Bad("a result changed after it was returned", items=items, plan=plan)


def server(seed, n):
    """(in a fresh interpreter) the results of generated items, each in a process of its own."""
    out = []
    for it in make_items(seed, n):
        out.append(hist.in_child(lambda it=it: one(it)))
    return out


def make_items(seed, n):
    rng = random.Random(f"C11 fresh {seed}")
    return [hist.structured(rng) if rng.random() < 0.3 else hist.item(rng) for _ in range(n)]


N_FRESH = 40


def t_fresh(rng, st):
    """Fresh interpreters with different hash seeds, in another order, another working directory."""
    seed = rng.randrange(10**6)
    items = make_items(seed, N_FRESH)
    st["h"] = seed
    hs = str(rng.randrange(1, 4000000))
    p = subprocess.run([sys.executable, os.path.abspath(__file__), "--server", str(seed)], capture_output=True, cwd="/",
                       env={**os.environ, "PYTHONHASHSEED": hs, "PYTHONDONTWRITEBYTECODE": "1"}, timeout=300)  # fmt: skip
    if p.returncode:
        raise RuntimeError("server: " + p.stderr.decode(errors="replace")[-1500:])
    theirs = pickle.loads(p.stdout)
    order = list(range(len(items)))
    rng.shuffle(order)
    mine = hist.in_child(lambda: {i: one(items[i]) for i in order})
    if mine is None:
        raise Skip("no answer")
    for i, it in enumerate(items):
        st["stat"]["compared"] += 1
        if theirs[i] is not None and differ(theirs[i], mine[i]):
            raise Bad("result differs in a fresh process (other hash seed)", item=it, hash_seed=hs, fresh=show(theirs[i]), here=show(mine[i]))


def t_pressure(rng, st):
    """The same routine set again and again between many others (object ids get recycled), with collections in between."""
    import gc

    items = [hist.structured(rng) if rng.random() < 0.5 else ("decompile", None) for _ in range(12)]
    items = [it if it[1] is not None else hist.item(rng) for it in items]
    st["h"] = items
    target = items[0]

    def go():
        out = []
        for k in range(4):
            for it in items[1:]:
                one(it)
                if rng.random() < 0.2:
                    gc.collect()
            out.append(one(target))
        return out

    alone = hist.in_child(lambda: one(target))
    out = hist.in_child(go)
    if out is None or alone is None:
        raise Skip("no answer")
    for r in out:
        if differ(alone, r):
            raise Bad("result depends on what was processed before", item=target, alone=show(alone), after_history=show(r))


def globals_unchanged():
    """Process-wide state: a module- or class-level container of the package holds the same after processing as before."""

    def state():
        res = {}
        for m in sorted(k for k in sys.modules if k.startswith("explorerscript") and ".antlr" not in k):
            mod = sys.modules[m]
            for k, v in list(vars(mod).items()):
                if k.startswith("__"):
                    continue
                if isinstance(v, (list, dict, set, int, str, tuple)):
                    res[f"{m}.{k}"] = repr(v)
                elif isinstance(v, type) and v.__module__ == m:
                    for a, x in list(vars(v).items()):
                        if not a.startswith("__") and isinstance(x, (list, dict, set, int, str, tuple)):
                            res[f"{m}.{k}.{a}"] = repr(x)
        return res

    def go():
        rng = random.Random(5)
        a = state()
        for i in range(60):
            one(hist.structured(rng) if i % 3 == 0 else hist.item(rng))
        b = state()
        return {k: (a.get(k), v[:300]) for k, v in b.items() if k in a and a[k] != v}

    return hist.in_child(go, 120)


if __name__ == "__main__":
    if len(sys.argv) > 2 and sys.argv[1] == "--server":
        sys.stdout.buffer.write(pickle.dumps(server(int(sys.argv[2]), N_FRESH)))
        sys.stdout.flush()
        sys.exit(0)
    ck = Check("C11")
    ck.start_vc()
    q = ck.quick
    ck.run("histories", t_history, 500 if q else 8000)
    ck.run("recycled objects", t_pressure, 60 if q else 800)
    ck.run("fresh processes", t_fresh, 24 if q else 300)
    ch = globals_unchanged()
    ck.extra["process_wide_state_changed"] = ch if ch is not None else "no answer"
    ck.finish()
