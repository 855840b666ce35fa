"""python3-vt -m pyvc.main <pid> <tier> <out.json>: verify all contracts of a property."""
from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import sys
import time
import traceback
from typing import Any

sys.setrecursionlimit(20000)


ASSUMPTIONS = [
    "partial correctness: termination is not proved",
    "integers are mathematical (they are in Python); floats, os, igraph, ANTLR and pygments objects are opaque",
    "classes are those of the repository (closed world); values have the declared types of fields, parameters and returns, and an object is only reached through references of its types",
    "the parse tree is not changed while it is used, and its accessors always give the same answer; rule accessors with a capital letter may be None, others only where the grammar makes them optional (inline_ctx, func_alias)",
    "str() of a parameter and the str methods are functions of their arguments",
    "externals (contracts/*.py, @external) behave as their stated contract",
]


def stated(c: Any) -> list[str]:
    """What the contract of a unit takes for granted without anybody proving it."""
    out = [f"{c.name} assumes on entry: {a}" for a in c.assume]
    for k, l in c.loops.items():
        out += [f"{c.name} assumes of the sequence of loop {k}: {a}" for a in l.assume]
    return out


def verify(name: str, budget: float, until: float = 0.0) -> dict:
    from . import core, prog

    c = next(x for x in core.ORDER if x.name == name)
    t0 = time.time()
    core.STATS.update(vcs=0, z3=0, cvc5=0, time=0.0, feas=0)
    u = core.Unit(c, min(t0 + budget * c.budget, until or 1e12))
    out: dict[str, Any] = {"name": name, "target": c.target, "obligations": {}, "error": ""}
    try:
        u.run()
        dead = [h for h, n in u.heads.items() if n < 2 and not n]
        if dead:
            out["error"] = "never reached: " + ", ".join(dead)
        elif u.ends == 0 and not c.raises:
            out["error"] = "no path reaches the end"
    except core.Unsupported as e:
        out["error"] = f"unsupported: {e}"
    except RecursionError:
        out["error"] = "recursion limit"
    except Exception as e:
        out["error"] = "engine: " + "".join(traceback.format_exception(e))[-1500:]
    out["obligations"] = u.results
    out["paths"] = u.paths
    out["vacuity"] = u.vac
    out["inlined"] = sorted(u.used)
    out["assumed"] = sorted(u.assumed)
    out["trusted"] = sorted(u.trusted)
    out["stats"] = dict(core.STATS)
    out["seconds"] = round(time.time() - t0, 2)
    return out


def load_all() -> None:
    from . import prog

    prog.load()
    import contracts

    for m in sorted(x.name for x in pkgutil.iter_modules(contracts.__path__)):
        importlib.import_module("contracts." + m)


def _init() -> None:
    from . import core, interp  # noqa: F401

    load_all()


def _job(a: tuple) -> dict:
    try:
        return verify(*a)
    except BaseException as e:
        return {"name": a[0], "error": f"crash {e!r}", "obligations": {}, "paths": 0, "vacuity": "unknown", "inlined": [], "assumed": [], "trusted": [], "stats": {}, "seconds": 0, "target": ""}


def main() -> None:
    pid, tier, outp = sys.argv[1:4]
    only = sys.argv[4:] 
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    t0 = time.time()
    _init()
    from . import core

    units = [c for c in core.ORDER if (pid in c.props or pid == "ALL") and not c.trusted and (c.quick or tier != "quick")]
    if only:
        units = [c for c in units if any(o in c.name for o in only)]
    budget = 25.0 if tier == "quick" else 120.0
    res: list[dict] = []
    n = int(os.environ.get("PYVC_JOBS", "4"))
    ctx = mp.get_context("fork")
    if n > 1:
        core.TOKENS[:] = [ctx.Semaphore(n), ctx.Lock()]
    if len(units) == 1 or os.environ.get("PYVC_SERIAL"):
        res = [_job((c.name, budget)) for c in units]
    elif units:
        with ctx.Pool(n, maxtasksperchild=6) as pool:
            for r in pool.imap_unordered(_job, [(c.name, budget) for c in units], chunksize=1):
                res.append(r)
    # what ran out of time while the machine was busy gets more of it
    end = t0 + (480.0 if tier == "quick" else 740.0)
    late = [r for r in res if "time is up" in r["error"]]
    if late and n > 1 and len(units) > 1 and time.time() < t0 + 300.0 and not os.environ.get("PYVC_ONCE"):
        again = []
        with ctx.Pool(max(n, 6), maxtasksperchild=6) as pool:
            for r in pool.imap_unordered(_job, [(r["name"], budget * 4, end) for r in late], chunksize=1):
                again.append(r)
        better = {r["name"]: r for r in again}
        res = [better.get(r["name"], r) for r in res]
    res.sort(key=lambda r: r["name"])
    obligations = []
    for r in res:
        if r["error"]:
            obligations.append({"name": f"{r['name']} :: whole function", "status": "unknown", "detail": r["error"][:600]})
        for k, o in r["obligations"].items():
            st = o["status"]
            if r["error"] and st == "discharged":
                st = "unknown"  # some path was not explored
                o = dict(o, detail="the function was not explored completely")
            obligations.append({"name": f"{r['name']} :: {k}", "status": st, "detail": o["detail"], "vcs": o["n"]})
        if r["vacuity"] == "unsat":
            obligations.append({"name": f"{r['name']} :: precondition is satisfiable", "status": "unknown", "detail": "contradictory precondition"})
    extra: list[str] = []
    if pid in ("C11", "C12") and not only:
        from . import frame

        try:
            obligations += frame.obligations()
            extra = frame.ASSUMED
        except Exception as e:
            obligations.append({"name": "frame of the package", "status": "unknown", "detail": repr(e)[:300]})
    out = {
        "obligations": obligations,
        "functions": [{"name": r["name"], "target": r["target"], "paths": r["paths"], "seconds": r["seconds"], "inlined": r["inlined"], "contracts_used": r["assumed"], "error": r["error"][:300], "obligations": len(r["obligations"])} for r in res],
        "trusted": sorted({t for r in res for t in r["trusted"]}),
        "assumptions": ASSUMPTIONS + extra + [a for c in units for a in stated(c)],
        "solver": {"vcs": sum(r["stats"].get("vcs", 0) for r in res), "z3": sum(r["stats"].get("z3", 0) for r in res), "cvc5": sum(r["stats"].get("cvc5", 0) for r in res), "seconds": round(sum(r["stats"].get("time", 0) for r in res), 2)},
        "vacuity": {r["name"]: r["vacuity"] for r in res},
        "seconds": round(time.time() - t0, 1),
    }
    with open(outp, "w") as fh:
        json.dump(out, fh, indent=1)
    if os.environ.get("PYVC_SHOW"):
        for r in res:
            bad = [k for k, o in r["obligations"].items() if o["status"] != "discharged"]
            print(f"{'OK ' if not bad and not r['error'] else '-- '}{r['name']}  paths={r['paths']} obl={len(r['obligations'])} vcs={r['stats'].get('vcs')} {r['seconds']}s vac={r['vacuity']}", r["error"])
            for k in bad:
                print("     ", r["obligations"][k]["status"], k, "\n        ", r["obligations"][k]["detail"][:int(os.environ["PYVC_SHOW"])].replace("\n", "\n         "))


if __name__ == "__main__":
    main()
