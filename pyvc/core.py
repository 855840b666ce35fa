"""Symbolic execution of function bodies against contracts: generates and discharges verification conditions."""
from __future__ import annotations

import ast
import builtins
import contextlib
import difflib
import hashlib
import itertools
import json
import mmap
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import types
from typing import Any, Callable

import z3

from . import prog
from .vals import *  # noqa: F401,F403
from .vals import _acc

DEPTH = 30


class PathEnd(Exception):
    pass


class Restart(Exception):
    pass


class Stop(Exception):
    """Another process of the unit has already given up."""


class PyExc(Exception):
    def __init__(self, cls: type, val: Any = None, where: str = ""):
        self.cls, self.val, self.where = cls, val, where


class Ret(Exception):
    def __init__(self, v: Val):
        self.v = v


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class L:
    """Loop contract."""

    def __init__(self, inv: list[str] | None = None, step: list[str] | None = None, types: dict[str, str] | None = None,
                 havoc: list[str] | None = None, keep: list[str] | None = None,
                 assume: list[str] | None = None, whole: bool = False):
        self.whole = whole  # walk over the sequence as one, whatever it was put together from; elements case by case
        self.assume = assume or []  # stated assumptions about the sequence walked over (evidence: trusted)
        self.inv, self.step, self.types = inv or [], step or [], types or {}
        self.havoc, self.keep = havoc or [], keep or []


class C:
    """Function contract."""

    def __init__(self, target: str, props: str = "", params: dict[str, str] | None = None, requires: list[str] | None = None,
                 ensures: list[str] | None = None, raises: dict[str, str] | None = None, modifies: list[str] | None = None,
                 loops: dict[int, L] | None = None, result: str | None = None, trusted: str = "", interface: bool = False,
                 name: str = "", cls: str | None = None, let: dict[str, str] | None = None, fields: dict[str, str] | None = None,
                 use: list["C"] | None = None, self_exact: bool = True, inline: bool = False, globals_: dict[str, Any] | None = None,
                 any_exc: bool = False, lemma: Any = None, note: str = "", pure: bool = False, quick: bool = True,
                 max_paths: int = 600, budget: float = 1.0, assume: list[str] | None = None, checks: list[str] | None = None,
                 exc: list[str] | None = None, never: list[str] | None = None):
        self.never = never or []  # exceptions that never leave the function (in spite of any_exc)
        self.exc = exc or []  # what holds when an exception leaves the function
        self.checks = checks or []  # proved on return like the postconditions, but not passed on to callers
        self.budget = budget
        self.assume = assume or []  # stated assumptions on entry, not asked of callers (evidence: trusted)
        self.target, self.props = target, props.split()
        self.params, self.requires, self.ensures = params or {}, requires or [], ensures or []
        self.raises, self.modifies, self.loops = raises or {}, modifies or [], loops or {}
        self.result, self.trusted, self.interface = result, trusted, interface
        self.name = name or target
        self.cls = cls
        self.let = let or {}
        self.use = use or []
        self.self_exact = self_exact
        self.inline = inline
        self.any_exc = any_exc
        self.lemma = lemma
        self.note = note
        self.quick = quick
        self.max_paths = max_paths


CONTRACTS: dict[str, list[C]] = {}
ORDER: list[C] = []
GLOBAL_USE: dict[str, C] = {}  # applied at call sites (function qualname -> contract)


def light(c: C, *ks: int | str) -> C:
    """c with only some of its postconditions (numbers, or parts of their text): for callers that need no more."""
    import copy

    d = copy.copy(c)
    d.ensures = [e for i, e in enumerate(c.ensures) if i in ks or any(isinstance(k, str) and k in e for k in ks)]
    return d


def contract(*a: Any, apply: bool = True, **k: Any) -> C:
    c = C(*a, **k)
    ORDER.append(c)
    if apply and not c.inline:
        GLOBAL_USE.setdefault(c.target, c)
    return c


OPQ_ATTR: dict[str, str] = {"line": "int", "column": "int", "index": "int", "name": "str", "text": "str"}
OPQ_CALL: list[str] = []  # what calling an external object (a callback) may modify
OPQ_METH: dict[str, str] = {"getText": "str"}

# ------------------------------------------------------------------ solving
STATS = {"vcs": 0, "z3": 0, "cvc5": 0, "time": 0.0, "feas": 0}


def solve(assums: list, timeout_ms: int) -> tuple[str, Any]:
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    s.add(*assums)
    t = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS["time"] += time.time() - t
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        return "sat", s.model()
    return "unknown", s


def cvc5_check(s: Any, timeout: float) -> str:
    txt = "(set-logic ALL)\n" + s.to_smt2()
    txt = txt.replace("(set-info :status unknown)", "")
    try:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2") as fh:
            fh.write(txt)
            fh.flush()
            r = subprocess.run(["cvc5", "--strings-exp", f"--tlimit={int(timeout*1000)}", fh.name], capture_output=True, text=True, timeout=timeout + 5)
            o = r.stdout.strip().split("\n")[0]
            return o if o in ("sat", "unsat") else "unknown"
    except Exception:
        return "unknown"


def mentions(f: Any, x: Any) -> bool:
    seen: set[int] = set()
    todo = [f]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if t.eq(x):
            return True
        todo += [t.body()] if z3.is_quantifier(t) else t.children()
    return False


def term_has(t: Any, x: Any) -> bool:
    todo, seen = [t], set()
    while todo:
        u = todo.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if u.eq(x):
            return True
        todo += u.children()
    return False


class Frame:
    def __init__(self, fn: Any, g: dict[str, Any], node: Any, parent: "Frame | None" = None, cls: type | None = None):
        self.loc: dict[str, Val] = {}
        self.fn, self.g, self.node, self.parent, self.cls = fn, g, node, parent, cls
        self.loops: dict[int, int] = {}
        self.yields: Any = None
        self.spec: C | None = None
        self.anns: dict[str, ast.AST] = {}  # declared types of local variables
        if isinstance(node, ast.FunctionDef):
            loops = []
            for n in _walk_own(node):
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    self.anns[n.target.id] = n.annotation
                if isinstance(n, (ast.For, ast.While)):
                    loops.append(n)
            if loops:
                for n, i in zip(loops, loop_numbers(fn, loops)):
                    self.loops[id(n)] = i


NEW_LOOP = 1000  # from here on: loops which the contracts know nothing about
_LOOPSIGS: dict[str, list[str]] | None = None
_LOOPNUM: dict[int, tuple] = {}


def loop_sig(n: Any) -> str:
    return ast.unparse(n.target) + " in " + ast.unparse(n.iter) if isinstance(n, ast.For) else ast.unparse(n.test)


def loop_numbers(fn: Any, loops: list) -> list[int]:
    """The numbers the contracts use for the loops of a function: those of the loops in the function the contracts were written for."""
    global _LOOPSIGS
    if id(loops[0]) in _LOOPNUM:
        return _LOOPNUM[id(loops[0])][1]
    if _LOOPSIGS is None:
        f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "loops.json")
        _LOOPSIGS = json.load(open(f)) if os.path.exists(f) else {}
    old = _LOOPSIGS.get(f"{fn.__module__}:{fn.__qualname__}" if fn is not None else "", None)
    new = [loop_sig(n) for n in loops]
    out = list(range(len(new)))
    if old is None and _LOOPSIGS and fn is not None and fn.__module__.startswith("explorerscript"):
        out = [NEW_LOOP + i for i in out]
    elif old is not None and len(old) != len(new):
        out = [NEW_LOOP + i for i in range(len(new))]
        for tag, a, b, x, y in difflib.SequenceMatcher(None, old, new, autojunk=False).get_opcodes():
            if tag == "equal" or (tag == "replace" and b - a == y - x):
                for k in range(b - a):
                    out[x + k] = a + k
    _LOOPNUM[id(loops[0])] = (loops, out)
    return out


def _walk_own(node: ast.AST) -> Any:
    for ch in ast.iter_child_nodes(node):
        if isinstance(ch, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        yield ch
        yield from _walk_own(ch)


def _is_gen(node: ast.FunctionDef) -> bool:
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _walk_own(node))


RESTART, STOPPED = "restart", "stopped"
TOKENS: list[Any] = [None, None]  # how many processes may run at once (a semaphore), and a lock


def write_term(t: Any) -> tuple:
    """A z3 term in a form another process can read."""
    decls: dict[str, tuple] = {}
    seen: set[int] = set()
    todo = [t]
    while todo:
        u = todo.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            d = u.decl()
            decls[d.name()] = ([d.domain(i).sexpr() for i in range(d.arity())], d.range().sexpr())
        todo += u.children()
    return t.sexpr(), decls


def read_term(w: tuple) -> Any:
    sx, decls = w
    sorts = {x.sexpr(): x for x in (INT, BOOL, STR, V, SEQ, SET, MAP)}
    ds: dict[str, Any] = {}
    for n, (dom, rng) in decls.items():
        ds[n] = z3.Function(n, *[sorts[x] for x in dom], sorts[rng]) if dom else z3.Const(n, sorts[rng])
    for i in range(V.num_constructors()):
        c = V.constructor(i)
        ds[c.name()] = c
        for j in range(c.arity()):
            ds[V.accessor(i, j).name()] = V.accessor(i, j)
    ds["!r"] = z3.Const("!r", INT)
    r = z3.parse_smt2_string(f"(assert (= {sx} |!r|))", decls=ds)
    out = r[0].arg(0)
    assert out.sexpr() == sx
    return out


class Unit:
    """Verification of one contract: all paths, restarting when a loop's havoc set grows."""

    def __init__(self, c: C, deadline: float):
        self.c, self.deadline = c, deadline
        self.loopinfo: dict[Any, dict] = {}
        self.oldlocs: set[Any] = set()
        self.results: dict[str, dict] = {}
        self.used: set[str] = set()
        self.trusted: set[str] = set()
        self.assumed: set[str] = set()
        self.paths = 0
        self.ends = 0
        self.vac: str = "unknown"
        self.token = False

    def run(self) -> None:
        fnobj = prog.resolve(self.c.target)
        for _ in range(40):
            self.results = {}
            self.done_keys: set = set()
            self.memo: dict = {}
            self.paths = self.ends = 0
            self.heads: dict[str, int] = {}
            if self.round(fnobj):
                return
        raise Unsupported("loop havoc sets do not converge")

    def round(self, fnobj: Any) -> bool:
        """Explore all paths; False when a loop's havoc set has grown. Both ways of a branch run at once, each in a process of its own."""
        self.dir = tempfile.mkdtemp(prefix="pyvc")
        self.shm = mmap.mmap(-1, 16)  # [0] stop, [4:8] paths, [8:12] waiting or running processes
        self.child = False
        self.kids: list[int] = []
        self.forks = 0
        self.take()
        try:
            err = self.explore(fnobj)
            if self.child:
                self.leave(err)
            self.give()
            for k in self.kids:
                os.waitpid(k, 0)
            notes = [err]
            for f in sorted(os.listdir(self.dir)):
                with open(os.path.join(self.dir, f), "rb") as fh:
                    notes.append(self.absorb(pickle.load(fh)))
            if int.from_bytes(self.shm[4:8], "little") != len(notes) - 1:
                notes.append("a path was lost")
            notes = ["" if n == STOPPED else n for n in notes]
        finally:
            if self.child:
                os._exit(1)
            shutil.rmtree(self.dir, ignore_errors=True)
        if RESTART in notes:
            return False
        if os.environ.get("PYVC_NOTES"):
            print(self.c.name, notes, file=sys.stderr)
        for n in notes:
            if n:
                raise Unsupported(n)
        return True

    def explore(self, fnobj: Any) -> str:
        work: list[list] = [[]]
        try:
            while work:
                dec = work.pop()
                self.paths += 1
                if self.paths > self.c.max_paths or int.from_bytes(self.shm[4:8], "little") > self.c.max_paths:
                    raise Unsupported("too many paths")
                self.check_time()
                x = Exec(self, dec, work)
                try:
                    x.run_unit(fnobj)
                    self.ends += 1
                except PathEnd:
                    pass
            return ""
        except Restart:
            self.shm[0] = 1
            return RESTART
        except Stop:
            return STOPPED
        except Unsupported as e:
            if "time is up" in str(e) or "too many paths" in str(e):
                self.shm[0] = 1  # (otherwise the other paths may still find that a loop changes more)
            if os.environ.get("PYVC_NOTES"):
                fs = [f for f in traceback.extract_tb(e.__traceback__) if "pyvc" in f.filename]
                loc = [str(x.node.name if hasattr(x.node, "name") else "") for x in getattr(x, "frames", [])]
                print("UNSUPPORTED", e, loc, " < ".join(f"{f.name}:{f.lineno}" for f in reversed(fs))[:1500], file=sys.stderr)
            return str(e)
        except RecursionError:
            self.shm[0] = 1
            return "recursion limit"
        except Exception as e:
            self.shm[0] = 1
            return "engine: " + "".join(traceback.format_exception(e))[-1500:]

    def check_time(self) -> None:
        if self.shm[0]:
            raise Stop()
        if time.time() > self.deadline:
            raise Unsupported("time is up")

    def fork(self) -> bool | None:
        """True in the new process, False in the old one, None if there is no room for another one."""
        if TOKENS[0] is None or self.shm[0]:
            return None
        with TOKENS[1]:
            n = int.from_bytes(self.shm[8:12], "little")
            if n > 120:
                return None
            self.shm[8:12] = (n + 1).to_bytes(4, "little")
            self.shm[4:8] = (int.from_bytes(self.shm[4:8], "little") + 1).to_bytes(4, "little")
        pid = os.fork()
        if pid:
            self.kids.append(pid)
            return False
        self.child = True
        self.kids = []
        self.results = {}
        self.heads = dict.fromkeys(self.heads, 0)
        self.paths, self.ends = 1, 0
        STATS.update(vcs=0, z3=0, cvc5=0, time=0.0, feas=0)
        self.take()
        return True

    def leave(self, err: str) -> None:
        locs = []
        for key, info in self.loopinfo.items():
            for (hk, sx), ty in info["locs"].items():
                locs.append((key, hk, sx, ty if sx is None else (write_term(ty[0]), ty[1])))
        d = {"err": err, "results": self.results, "heads": self.heads, "paths": self.paths, "ends": self.ends, "used": self.used, "trusted": self.trusted, "assumed": self.assumed, "vac": self.vac,
             "vars": [(k, i["vars"]) for k, i in self.loopinfo.items()] if err == RESTART else [], "locs": locs if err == RESTART else [], "old": self.oldlocs if err == RESTART else set(), "stats": dict(STATS)}
        tmp = os.path.join(self.dir, str(os.getpid()))
        with open(tmp, "wb") as fh:
            pickle.dump(d, fh)
        with TOKENS[1]:
            self.shm[8:12] = max(0, int.from_bytes(self.shm[8:12], "little") - 1).to_bytes(4, "little")
        self.give()
        for k in self.kids:
            os.waitpid(k, 0)
        os._exit(0)

    def absorb(self, d: dict) -> str:
        for k, r in d["results"].items():
            self.record(k, r["status"], r["detail"], r["n"])
        for k, n in d["heads"].items():
            self.heads[k] = self.heads.get(k, 0) + n
        self.paths += d["paths"]
        self.ends += d["ends"]
        self.used |= d["used"]
        self.trusted |= d["trusted"]
        self.assumed |= d["assumed"]
        if self.vac == "unknown":
            self.vac = d["vac"]
        for k, v in d["stats"].items():
            STATS[k] += v
        for key, vs in d["vars"]:
            info = self.loopinfo.setdefault(key, {"vars": {}, "locs": {}})
            for n, ty in vs.items():
                was = info["vars"].get(n)
                info["vars"][n] = ty if was is None else Exec.join_ty(None, was, ty)  # type: ignore[attr-defined]
        for key, hk, sx, ty in d["locs"]:
            info = self.loopinfo.setdefault(key, {"vars": {}, "locs": {}})
            if sx is None:
                if (hk, None) in info["locs"]:
                    was = info["locs"][(hk, None)]
                    if was != ty:
                        ty = None if was is None or ty is None or was[0] != "cls" or ty[0] != "cls" else was if issubclass(ty[1], was[1]) else ty if issubclass(was[1], ty[1]) else None
                info["locs"][(hk, None)] = ty
            elif (hk, sx) not in info["locs"]:
                info["locs"][(hk, sx)] = (read_term(ty[0]), ty[1])
            else:
                ref, was = info["locs"][(hk, sx)]
                new = ("field", was[1], t_union(was[2], ty[1][2])) if hk not in ("list", "dict", "set") else Exec.join_ty(None, was, ty[1])  # type: ignore[attr-defined]
                info["locs"][(hk, sx)] = (ref, new)
        self.oldlocs |= d["old"]
        return str(d["err"])

    def take(self) -> None:
        if TOKENS[0] is None:
            return
        t = time.time()
        self.token = False
        while not TOKENS[0].acquire(timeout=2.0):
            if self.shm[0] or time.time() - t > 600:
                break
        else:
            self.token = True
        self.deadline += time.time() - t

    def give(self) -> None:
        if self.token:
            TOKENS[0].release()
        self.token = False

    def record(self, name: str, status: str, detail: str = "", n: int = 1) -> None:
        r = self.results.setdefault(name, {"status": "discharged", "n": 0, "detail": ""})
        r["n"] += n
        rank = {"discharged": 0, "unknown": 1, "failed": 2}
        if rank[status] > rank[r["status"]]:
            r["status"] = status
            r["detail"] = detail


class Exec:
    def __init__(self, unit: Unit, dec: list, work: list):
        self.u = unit
        self.dec, self.work = dec, work
        self.pos = 0
        self.pc: list[tuple[str, Any]] = []
        self.sol = z3.Solver()
        self.sol.set("timeout", 1500)
        self.heap: dict[Any, list] = {}
        self.refc = 0
        self.cc = 0
        self.mc = 0
        self.nths: dict[int, list] = {}
        self.canon: dict[int, Any] = {}  # ref term -> the term it is known to equal
        self.old: set[int] = set()  # ids of ref / seq terms of the pre-state
        self.esc: dict[tuple, bool] = {}
        self.esc_refs: set[int] = set()
        self.lo: dict[int, int] = {}  # term id -> n: the object is one of those made up to the n-th (or older)
        self.hi: dict[int, int] = {}  # term id -> n: made after the n-th
        self.keepalive: list[Any] = []
        self.factdone: set[int] = set()
        self.decomp: dict[int, list] = {}
        self.folds: list[tuple] = []  # (fname, kind, phi, x, s, app)
        self.foldfns: dict[str, tuple] = {}
        self.depth = 0
        self.spec = 0
        self.local: list | None = None  # local decision list inside merged()
        self.eldepth = 0
        self.obl = 0
        self.iterstack: list[dict] = []
        self.frames: list[Frame] = []
        self.saved: dict[str, tuple] = {}
        self.raw_notes: list[str] = []
        self.rets: dict[str, list] = {}  # results of the calls made so far, by the name called
        self.loose = False  # after a loop without a contract, in a function that has got other loops: a model may be spurious
        self.afters: dict[int, tuple] = {}  # states in which loops of the function ended

    # -------------------------------------------------------------- basics
    def const(self, base: str, sort: Any) -> Any:
        self.cc += 1
        pre = "!it" if self.iterstack else ""
        c = z3.Const(f"{base}!{self.cc}{pre}", sort)
        return c

    def add(self, kind: str, f: Any) -> None:
        self.pc.append((kind, f))
        if not (kind == "f" and z3.is_quantifier(f)):
            self.sol.add(f)  # (the heavy facts are left to the proofs)

    def assume(self, f: Any) -> None:
        if isinstance(f, bool):
            if not f:
                f = z3.BoolVal(False)
            else:
                return
        if z3.is_true(f):
            return
        self.add("f", f)

    def feasible(self, f: Any) -> bool:
        STATS["feas"] += 1
        self.u.check_time()
        self.sol.push()
        try:
            self.sol.add(f)
            t = time.time()
            r = self.sol.check()
            STATS["time"] += time.time() - t
        except z3.Z3Exception:
            r = z3.unknown
        finally:
            self.sol.pop()
        return r != z3.unsat

    def branch(self, c: Any) -> bool:
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        dec, work = (self.dec, self.work) if self.local is None else self.local
        pos = self.pos if self.local is None else self.lpos
        if pos < len(dec):
            d = dec[pos]
        else:
            t = self.feasible(c)
            f = self.feasible(z3.Not(c)) if t else True
            if t and f:
                new = self.u.fork() if self.local is None else None
                if new is None:
                    work.append(dec + [False])
                elif new:
                    work.clear()
                d = not new
            else:
                d = t
            dec.append(d)
        if self.local is None:
            self.pos += 1
        else:
            self.lpos += 1
        self.add("b", c if d else z3.Not(c))
        return d

    def choose(self) -> bool:
        """A free choice: both ways are explored."""
        if self.local is not None:
            raise Unsupported("free choice in a pure expression")
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
        else:
            new = self.u.fork()
            if new is None:
                self.work.append(self.dec + [False])
            elif new:
                self.work.clear()
            d = not new
            self.dec.append(d)
        self.pos += 1
        return d

    def prove(self, name: str, goal: Any) -> None:
        if self.local is not None:
            return
        self.obl += 1
        key = (tuple(self.dec[: self.pos]), self.obl)
        if key in self.u.done_keys:
            return
        self.u.done_keys.add(key)
        STATS["vcs"] += 1
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            STATS["z3"] += 1
            self.u.record(name, "discharged")
            return
        self.intro_all(goal)
        asm = [f for _, f in self.pc] + [z3.Not(goal)]
        left = max(1.0, min(8.0, self.u.deadline - time.time()))
        r, m = solve(asm, int(left * 1000))
        if r == "unknown" and not isinstance(m, str):
            r2 = cvc5_check(m, min(8.0, max(1.0, self.u.deadline - time.time())))
            if r2 == "unsat":
                STATS["cvc5"] += 1
                self.u.record(name, "discharged")
                return
            r = "unknown"
        if r == "unsat":
            STATS["z3"] += 1
            self.u.record(name, "discharged")
        elif r == "sat":
            det = f"goal: {str(goal)[:600]}\nmodel: {str(m)[:1500]}"
            self.u.record(name, "unknown" if self.loose else "failed", det)
        else:
            self.u.record(name, "unknown", str(goal)[:300])

    def intro_all(self, goal: Any) -> None:
        """all(P(o) for o in s) holds when an arbitrary element of s satisfies P (by the other facts about all elements of s)."""
        names = set()
        todo, seen = [goal], set()
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t) and t.decl().name().startswith("all_"):
                names.add(t.get_id())
            todo += t.children()
        for q in list(self.folds):
            if q[1] != "all" or q[5].get_id() not in names or not self._closed(q[2], q[3]):
                continue
            c = z3.Const(f"elem!{len(self.keepalive)}", V)
            asm = [f for _, f in self.pc]
            for p in self.folds:
                if p[4].eq(q[4]) and p is not q and p[1] in ("all", "any") and self._closed(p[2], p[3]):
                    ph = z3.substitute(p[2], (p[3], c))
                    asm.append(z3.Implies(p[5], ph) if p[1] == "all" else z3.Implies(ph, p[5]))
            if q[6] != T_ANY:
                asm.append(z3.Or([kind_test(c, a) for a in alts(q[6])]))
            asm.append(z3.Not(z3.substitute(q[2], (q[3], c))))
            left = max(0.5, min(4.0, self.u.deadline - time.time()))
            r, _ = solve(asm, int(left * 1000))
            if r == "unsat":
                self.keepalive.append(c)
                self.assume(q[5])

    def provable(self, goal: Any) -> bool:
        if isinstance(goal, bool):
            return goal
        return not self.feasible(z3.Not(goal))

    def is_old(self, t: Any) -> bool:
        return t.get_id() in self.old

    def mark_old(self, t: Any) -> None:
        self.keepalive.append(t)
        self.old.add(t.get_id())

    # -------------------------------------------------------------- pure merging
    @contextlib.contextmanager
    def elscope(self) -> Any:
        """Scope of an element variable: what is learned about it inside stays inside."""
        self.eldepth += 1
        x = z3.Const(f"el!{self.eldepth}", V)
        pc, fd, old = self.pc, set(self.factdone), set(self.old)
        self.pc = list(pc)
        n0 = len(pc)
        self.sol.push()
        self.elfacts = []
        ok = False
        try:
            yield x
            ok = True
        finally:
            self.sol.pop()
            extra = self.pc[n0:]
            self.pc = pc
            self.eldepth -= 1
            self.factdone, self.old = fd, old
            self.elfacts = []
            if ok:
                for k, f in extra:
                    if k != "f":
                        continue
                    if mentions(f, x):
                        self.elfacts.append(f)
                    else:
                        self.assume(f)

    def merged(self, thunk: Callable[[], Any]) -> Any:
        """Evaluate a pure thunk on all its paths and join the results."""
        saved = (self.local, getattr(self, "lpos", 0), self.pc, self.heap, self.spec)
        n0 = len(self.pc)
        results: list[tuple[Any, Any]] = []
        facts: list[Any] = []
        why = ""
        work: list[list] = [[]]
        count = 0
        while work:
            dec = work.pop()
            count += 1
            if count > 64:
                raise Unsupported("too many paths in a pure expression")
            self.local, self.lpos = (dec, work), 0
            self.pc = list(saved[2])
            self.heap = {k: list(v) for k, v in saved[3].items()}
            self.sol.push()
            try:
                try:
                    v: Any = thunk()
                except PyExc as e:
                    if not saved[4] and not self.spec:
                        raise Unsupported(f"exception {e.cls.__name__} in a pure expression")
                    v, why = None, f"{e.cls.__name__} {e.where}"  # undefined in specifications
                conds = [f for k, f in self.pc[n0:] if k == "b"]
                cond = z3.And(conds) if conds else z3.BoolVal(True)
                fs = [f for k, f in self.pc[n0:] if k == "f"]
                facts += [z3.Implies(cond, f) if conds else f for f in fs]
                if v is not None:
                    if isinstance(v, Obj) and v.ty[0] == "list" and is_num(v.t):
                        v = self.items(v)
                    if count > 1 or work:
                        if isinstance(v, Obj) and is_num(v.t) and v.t.as_long() < -self.refc0():
                            raise Unsupported("object made in a pure expression")
                    results.append((cond, v))
            finally:
                self.sol.pop()
                self.local, self.lpos, self.pc, heap1 = saved[0], saved[1], saved[2], self.heap
                single = self.heap
                self.heap = saved[3]
        for f in facts:
            self.assume(f)
        if not results:
            if (saved[4] or self.spec) and self.local is None and not self.feasible(z3.BoolVal(True)):
                raise PathEnd()
            if saved[4] or self.spec:
                raise Unsupported(f"undefined specification expression ({why})")
            raise Unsupported("pure expression without a result")
        if len(results) == 1 and count == 1:
            self.heap = single
        out = results[-1][1]
        for cond, v in reversed(results[:-1]):
            out = self.ite(cond, v, out)
        return out

    def refc0(self) -> int:
        return self.refc

    def ite(self, c: Any, a: Any, b: Any) -> Any:
        if isinstance(a, bool):
            a = z3.BoolVal(a)
        if isinstance(b, bool):
            b = z3.BoolVal(b)
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return z3.If(c, a, b)
        if isinstance(a, SeqVal) or isinstance(b, SeqVal):
            if isinstance(a, Obj):
                a = self.items(a)
            if isinstance(b, Obj):
                b = self.items(b)
            return SeqVal([("s", z3.If(c, self.seqterm(a), self.seqterm(b)), t_union(self.elemtype(a), self.elemtype(b)))])
        if isinstance(a, SetVal) and isinstance(b, SetVal):
            return SetVal(z3.If(c, a.t, b.t), a.et)
        if isinstance(a, Con) and isinstance(b, Con) and a.v is b.v:
            return a
        ta, tb = type_of(a), type_of(b)
        if ta == tb and ta[0] in ("int", "str", "bool"):
            return Sy(ta[0], z3.If(c, self.raw(a), self.raw(b)))
        t = z3.If(c, box(a), box(b))
        ty = t_union(ta, tb)
        if ty[0] in ("cls", "list", "dict", "set"):
            return Obj(un_ref(t), ty)
        return U(t, ty)

    def raw(self, v: Val) -> Any:
        """The z3 term of an int/str/bool value."""
        if isinstance(v, Con):
            return lit(v.v)
        if isinstance(v, Sy):
            return v.t
        raise Unsupported(f"raw {v}")

    def mkbool(self, f: Any) -> Val:
        if isinstance(f, bool):
            return Con(f)
        f = z3.simplify(f)
        if z3.is_true(f):
            return Con(True)
        if z3.is_false(f):
            return Con(False)
        return Sy("bool", f)

    # -------------------------------------------------------------- values
    def unbox(self, t: Any, ty: tuple, old: bool = False, fact: bool = True) -> Val:
        k = ty[0]
        if z3.is_app(t) and t.num_args() == 1:
            d = t.decl()
            if d.eq(V.mk_int) and k in ("int", "any", "union"):
                return Sy("int", t.arg(0)) if pyconst(t.arg(0)) is None else Con(pyconst(t.arg(0)))
            if d.eq(V.mk_str) and k in ("str", "any", "union"):
                return Sy("str", t.arg(0)) if pyconst(t.arg(0)) is None else Con(pyconst(t.arg(0)))
            if d.eq(V.mk_bool) and k in ("bool", "any", "union"):
                return Sy("bool", t.arg(0)) if pyconst(t.arg(0)) is None else Con(pyconst(t.arg(0)))
            if d.eq(V.mk_con) and z3.is_int_value(t.arg(0)):
                import pyvc.vals as _v

                return Con(_v._con_objs[t.arg(0).as_long()])
        if z3.is_app(t) and t.decl().eq(V.none):
            return Con(None)
        if k == "con":
            import pyvc.vals as _v

            return Con(_v._con_objs[ty[1]])
        if k == "none":
            return Con(None)
        if fact and k != "any" and t.get_id() not in self.factdone:
            self.keepalive.append(t)
            if self.local is None:
                self.factdone.add(t.get_id())
            self.assume(z3.Or([kind_test(t, a) for a in alts(ty)]))
        if k == "int":
            return Sy("int", un_int(t))
        if k == "str":
            return Sy("str", un_str(t))
        if k == "bool":
            return Sy("bool", un_bool(t))
        if k == "opq":
            return Opq(un_opq(t))
        if k in ("cls", "list", "dict", "set"):
            r = un_ref(t)
            if r.get_id() in self.canon:
                return Obj(self.canon[r.get_id()], ty)
            if old:
                self.mark_old(r)
                if r.get_id() not in self.factdone:
                    self.assume(r > 0)
                    if self.local is None:
                        self.factdone.add(r.get_id())
            else:
                self.exists(r)
            return Obj(r, ty)
        if k == "tup":
            items = []
            for x in ty[1]:
                items.append(self.unbox(V.fst(t), x, old))
                t = V.snd(t)
            return Tup(items)
        if old:
            self.mark_old(t)
        return U(t, ty)

    def fresh_val(self, ty: tuple, base: str, old: bool = False) -> Val:
        k = ty[0]
        if k in SORTS:
            return Sy(k, self.const(base, SORTS[k]))
        if k == "opq":
            return Opq(self.const(base, INT))
        if k in ("cls", "list", "dict", "set"):
            r = self.const(base, INT)
            if old:
                self.mark_old(r)
                self.assume(r > 0)
            else:
                self.exists(r)
            self.assume(kind_test(V.mk_ref(r), ty))
            return Obj(r, ty)
        return self.unbox(self.const(base, V), ty, old)

    def alloc(self, ty: tuple, exact: bool = True) -> Obj:
        self.refc += 1
        t = z3.IntVal(-self.refc)
        o = Obj(t, ty, exact)
        c = ty[1] if ty[0] == "cls" else {"list": list, "dict": dict, "set": set}[ty[0]]
        self.assume(TAG(t) == tag_of(c))
        return o

    def new_list(self, items: Any, et: tuple | None = None, it: bool = False) -> Obj:
        seq = items if isinstance(items, SeqVal) else SeqVal([("u", x) for x in items])
        o = self.alloc(("list", et or T_ANY))
        o.it = it
        self.hwrite("list", o, seq)
        return o

    # -------------------------------------------------------------- heap
    def alias(self, a: Any, b: Any) -> bool | None:
        if a.eq(b):
            return True
        na, nb = is_num(a), is_num(b)
        if na and nb:
            return a.as_long() == b.as_long()
        if na and a.as_long() < 0 and self.is_old(b):
            return False
        if nb and b.as_long() < 0 and self.is_old(a):
            return False
        if na or nb:
            n, t = (-a.as_long(), b) if na else (-b.as_long(), a)
            if t.get_id() in self.lo and n > self.lo[t.get_id()] or t.get_id() in self.hi and n <= self.hi[t.get_id()]:
                return False
        else:
            for x, y in ((a, b), (b, a)):
                if x.get_id() in self.hi and (self.is_old(y) or self.lo.get(y.get_id(), 1 << 60) <= self.hi[x.get_id()]):
                    return False
        return None

    REGION = 1 << 24
    STAGE = 1 << 44
    AFTER = 1 << 40

    def reserve(self) -> int:
        """Leave numbers for objects made elsewhere (in a callee, in earlier iterations)."""
        n = self.refc
        self.refc += self.REGION
        return n

    def reserve_loop(self) -> None:
        """The same, and the numbers that follow do not depend on what the path made before the loop."""
        self.refc = (self.refc // self.STAGE + 1) * self.STAGE

    def exists(self, r: Any) -> None:
        """The object of the term is one that exists now."""
        if self.refc and not is_num(r) and r.get_id() not in self.lo and not self.is_old(r):
            self.keepalive.append(r)
            self.lo[r.get_id()] = self.refc

    def hwrite(self, key: Any, obj: Obj, v: Any) -> None:
        self.heap.setdefault(key, []).append(("w", obj.t, v, obj.ty))
        if self.local is not None and not (is_num(obj.t) and obj.t.as_long() < 0):
            raise Unsupported("write in a pure expression")

    def hread(self, key: Any, obj: Obj, base: Callable[[Any, Any, bool], Any]) -> Any:
        log = self.heap.get(key, [])
        i = len(log) - 1
        while i >= 0:
            e = log[i]
            if e[0] == "h":
                if self._hmatch(e, obj) and not (is_num(obj.t) and obj.t.as_long() < 0 and not self.escaped(obj.t, e)):
                    return base(obj, e[1], False)
                i -= 1
                continue
            a = self.alias(e[1], obj.t)
            if a is None and self._types_apart(e[3], obj.ty):
                a = False
            if a is None and key == "list" and obj.ty[0] == "list" and obj.ty[1] != T_ANY and any(g[0] == "u" and not self._may_meet(type_of(g[1]), obj.ty[1]) for g in e[2].segs):
                a = False  # (it holds something a list of the declared type does not)
            if a is None:
                a = self.branch(e[1] == obj.t)
            if a:
                return e[2]
            i -= 1
        return base(obj, 0, self.is_old(obj.t))

    def escaped(self, ref: Any, before: tuple) -> bool:
        """The new object was stored somewhere before the heap log entry (so code that does not name it may reach it)."""
        if ref.as_long() in self.esc_refs:
            return True
        n = sum(len(v) for v in self.heap.values())
        k = (ref.as_long(), n, id(before))
        if k in self.esc:
            return self.esc[k]
        r = False
        for log in self.heap.values():
            for e in log:
                if e is before:
                    break  # (the logs of other fields and containers are looked through completely)
                if e[0] == "w" and self._holds(e[2], ref) and not (z3.is_int_value(e[1]) and e[1].eq(ref)):
                    r = True
                    break
            if r:
                break
        self.keepalive.append(before)
        self.esc[k] = r
        return r

    def _holds(self, v: Any, ref: Any) -> bool:
        if isinstance(v, Obj):
            return bool(v.t.eq(ref)) or not is_num(v.t) and term_has(v.t, ref)
        if isinstance(v, (U, Sy)):
            return term_has(v.t, ref)
        if isinstance(v, Tup):
            return any(self._holds(x, ref) for x in v.items)
        if isinstance(v, SeqVal):
            return any(self._holds(g[1], ref) if g[0] == "u" else term_has(g[1], ref) for g in v.segs)
        if isinstance(v, DictVal):
            return term_has(v.m, ref) or term_has(v.dom, ref)
        if isinstance(v, SetVal):
            return term_has(v.t, ref)
        return False

    def _hmatch(self, e: tuple, obj: Obj) -> bool:
        return e[2] is None or e[2] == T_ANY or obj.ty == e[2] or not self._types_apart(e[2], obj.ty)

    def _types_apart(self, a: tuple, b: tuple) -> bool:
        if a[0] != b[0]:
            return True
        if a[0] == "cls":
            return not (set(subs(a[1])) & set(subs(b[1])))
        if a[0] == "list" and a[1] != T_ANY and b[1] != T_ANY:
            return not self._may_meet(a[1], b[1])
        return False

    def _may_meet(self, a: tuple, b: tuple) -> bool:
        for x in alts(a):
            for y in alts(b):
                if x == T_ANY or y == T_ANY or x == y:
                    return True
                if x[0] == y[0] == "cls" and set(subs(x[1])) & set(subs(y[1])):
                    return True
                if x[0] == y[0] == "tup":
                    if len(x[1]) == len(y[1]) and all(self._may_meet(c, d) for c, d in zip(x[1], y[1])):
                        return True
                elif x[0] == y[0] and x[0] in ("list", "dict", "set"):
                    return True
        return False

    def items(self, o: Val) -> SeqVal:
        if isinstance(o, SeqVal):
            return o
        if isinstance(o, U):
            o = self.force(o)
        if isinstance(o, Tup):
            return SeqVal([("u", x) for x in o.items])
        if isinstance(o, Con) and isinstance(o.v, (list, tuple, set, frozenset, dict)):
            return SeqVal([("u", Con(x)) for x in o.v])
        if not isinstance(o, Obj):
            raise Unsupported(f"items of {o}")
        if o.ty[0] == "dict":
            return self.dkeys(o)
        if o.ty[0] == "set":
            raise Unsupported("order of a set")
        if o.ty[0] != "list":
            raise Unsupported(f"items of {o}")

        def base(ob: Obj, ver: int, old: bool) -> SeqVal:
            et = ob.ty[1]
            f = z3.Function(f"L{ver}", INT, SEQ)
            t = f(ob.t)
            if old:
                self.mark_old(t)
            return SeqVal([("s", t, et)])

        v = self.hread("list", o, base)
        return v

    def dkeys(self, o: Obj) -> SeqVal:
        """The keys in order; the sequence holds exactly the domain."""
        d = self.dict(o)
        if any(g[0] == "s" for g in d.keys.segs):
            t = self.seqterm(d.keys)
            k = ("keys", t.get_id(), d.dom.get_id())
            if k not in self.factdone:
                self.factdone.add(k)
                self.keepalive += [t, d.dom]
                self.keyof = {**getattr(self, "keyof", {}), t.get_id(): d.dom}
                e = z3.Const("dk!q", V)
                self.assume(z3.ForAll([e], z3.Contains(t, z3.Unit(e)) == z3.Select(d.dom, e), patterns=[z3.Select(d.dom, e)]))
        return d.keys

    def set_items(self, o: Obj, s: SeqVal) -> None:
        self.hwrite("list", o, s)

    def dict(self, o: Obj) -> DictVal:
        def base(ob: Obj, ver: int, old: bool) -> DictVal:
            kt, vt = ob.ty[1], ob.ty[2]
            ks = z3.Function(f"DK{ver}", INT, SEQ)(ob.t)
            if old:
                self.mark_old(ks)
            m = z3.Function(f"DM{ver}", INT, MAP)(ob.t)
            if old:
                self.mark_old(m)
            return DictVal(SeqVal([("s", ks, kt)]), z3.Function(f"DD{ver}", INT, SET)(ob.t), m, kt, vt)

        return self.hread("dict", o, base)

    def setv(self, o: Obj) -> SetVal:
        def base(ob: Obj, ver: int, old: bool) -> SetVal:
            return SetVal(z3.Function(f"ST{ver}", INT, SET)(ob.t), ob.ty[1])

        return self.hread("set", o, base)

    def get_field(self, o: Obj, name: str, ty: tuple) -> Val:
        def base(ob: Obj, ver: int, old: bool) -> Val:
            f = z3.Function(f"F_{name}_{ver}", INT, V)
            return self.unbox(f(ob.t), ty, old)

        return self.hread(("f", name), o, base)

    def set_field(self, o: Obj, name: str, v: Val) -> None:
        self.hwrite(("f", name), o, v)

    # -------------------------------------------------------------- sequences
    def elemtype(self, s: SeqVal) -> tuple:
        if not s.segs:
            return T_ANY
        return t_union(*[type_of(x[1]) if x[0] == "u" else x[2] for x in s.segs])

    def segterm(self, g: tuple) -> Any:
        return z3.Unit(box(g[1])) if g[0] == "u" else g[1]

    def seqterm(self, s: SeqVal) -> Any:
        ts = [self.segterm(g) for g in s.segs]
        if not ts:
            return z3.Empty(SEQ)
        return ts[0] if len(ts) == 1 else z3.Concat(*ts)

    def seqlen(self, s: SeqVal) -> Any:
        n = sum(1 for g in s.segs if g[0] == "u")
        ts = [z3.Length(g[1]) for g in s.segs if g[0] == "s"]
        if not ts:
            return n
        return z3.Sum([z3.IntVal(n), *ts]) if n or len(ts) > 1 else ts[0]

    def seqcat(self, *ss: SeqVal) -> SeqVal:
        return SeqVal([g for s in ss for g in s.segs])

    def seq_at(self, s: SeqVal, i: Any, check: bool = True) -> Val:
        """i: python int or z3 int; raises IndexError."""
        segs = s.segs
        if isinstance(i, int):
            if i >= 0:
                if i < len(segs) and all(g[0] == "u" for g in segs[: i + 1]):
                    return segs[i][1]
            else:
                j = len(segs) + i
                if j >= 0 and all(g[0] == "u" for g in segs[j:]):
                    return segs[j][1]
        n = self.seqlen(s)
        if isinstance(n, int) and isinstance(i, int):
            raise PyExc(IndexError, where="index")
        if isinstance(i, int) and i < 0:
            zi = n + i
        else:
            zi = i if not isinstance(i, int) else z3.IntVal(i)
        if check and not self.spec:
            if isinstance(i, int) or self.provable(zi >= 0):
                ok = z3.And(zi >= 0, zi < n)
            else:
                if not self.branch(z3.And(zi >= -n, zi < n)):
                    raise PyExc(IndexError, where="index")
                zi = z3.If(zi < 0, zi + n, zi)
                ok = True
            if not self.branch(ok):
                raise PyExc(IndexError, where="index")
        if isinstance(n, int) and n <= 8:  # only units: case split
            for j in range(n - 1):
                if self.branch(zi == j):
                    return segs[j][1]
            return segs[n - 1][1]
        # skip leading units when the index is provably behind them
        t = self.seqterm(s)
        if len(segs) == 1 and segs[0][0] == "s" and self.eldepth == 0:
            self.nth_seen(t, zi)
        return self.unbox(t[zi] if not z3.is_expr(zi) or True else t[zi], self.elemtype(s), old=all(g[0] == "s" and self.is_old(g[1]) for g in segs))

    def nth_seen(self, t: Any, zi: Any) -> None:
        """What holds for all elements of a sequence holds for this one."""
        zi = z3.simplify(zi)
        known = self.nths.setdefault(t.get_id(), [])
        if any(z.eq(zi) for z in known) or len(known) > 6:
            return
        known.append(zi)
        self.keepalive.append(t)
        for q in list(self.folds):
            if q[4].eq(t):
                self._nth_axiom(q, zi)

    def _nth_axiom(self, q: tuple, zi: Any) -> None:
        _, kind, phi, x, s, app, et = q
        if kind not in ("all", "any") or not self._closed(phi, x):
            return
        ph = z3.substitute(phi, (x, s[zi]))
        self.nested(ph)
        b = z3.And(zi >= 0, zi < z3.Length(s))
        self.assume(z3.Implies(z3.And(b, app), ph) if kind == "all" else z3.Implies(z3.And(b, ph), app))

    def seq_slice(self, s: SeqVal, lo: Any, hi: Any) -> SeqVal:
        segs = list(s.segs)
        if isinstance(lo, int) and lo >= 0 and hi is None and all(g[0] == "u" for g in segs[:lo]) and len(segs) >= lo:
            return SeqVal(segs[lo:])
        if isinstance(hi, int) and hi < 0 and lo in (None, 0) and len(segs) >= -hi and all(g[0] == "u" for g in segs[hi:]):
            return SeqVal(segs[:hi])
        n = self.seqlen(s)
        if isinstance(n, int) and (lo is None or isinstance(lo, int)) and (hi is None or isinstance(hi, int)):
            return SeqVal(segs[lo:hi])
        t = self.seqterm(s)
        zn = n if not isinstance(n, int) else z3.IntVal(n)

        def norm(x: Any, d: Any) -> Any:
            if x is None:
                return d
            if isinstance(x, int):
                x = z3.IntVal(x)
            x = z3.If(x < 0, z3.If(x + zn < 0, 0, x + zn), z3.If(x > zn, zn, x))
            return z3.simplify(x)

        a, b = norm(lo, z3.IntVal(0)), norm(hi, zn)
        ln = z3.If(b - a < 0, 0, b - a)
        r = z3.SubSeq(t, a, z3.simplify(ln))
        if all(g[0] == "s" and self.is_old(g[1]) for g in segs):
            self.mark_old(r)
        # s == s[:a] ++ r ++ s[b:] is known to the solver
        return SeqVal([("s", r, self.elemtype(s))])

    def seq_eq(self, a: SeqVal, b: SeqVal) -> Any:
        x, y = list(a.segs), list(b.segs)

        def same(g: tuple, h: tuple) -> bool:
            return self.segterm(g).eq(self.segterm(h))

        while x and y and same(x[0], y[0]):
            x.pop(0)
            y.pop(0)
        while x and y and same(x[-1], y[-1]):
            x.pop()
            y.pop()
        if not x and not y:
            return True
        if len(x) == len(y) and all(g[0] == "u" for g in x + y):
            return z3.And([self.spec_eq(g[1], h[1]) for g, h in zip(x, y)])
        if all(g[0] == "u" for g in x + y):
            return False
        return self.seqterm(SeqVal(x)) == self.seqterm(SeqVal(y))

    # folds over sequences ------------------------------------------------
    def fold(self, kind: str, s: SeqVal, elem: Callable[[Val], Any]) -> Any:
        """kind: cat (elem -> SeqVal), any/all (-> z3/bool), sum (-> int), set (-> SetVal)."""
        parts = []
        for g in s.segs:
            if g[0] == "u":
                r = self.merged(lambda g=g: elem(g[1]))
                parts.append(r)
            else:
                parts.append(self.fold_seg(kind, g, elem))
        return self.combine(kind, parts)

    def combine(self, kind: str, parts: list) -> Any:
        if kind == "cat":
            out: list = []
            for p in parts:
                out += list((p if isinstance(p, SeqVal) else SeqVal([("s", p, T_ANY)])).segs)
            return SeqVal(out)
        if kind in ("any", "all"):
            ps = [z3.BoolVal(p) if isinstance(p, bool) else p for p in parts]
            if not ps:
                return kind == "all"
            return z3.simplify((z3.Or if kind == "any" else z3.And)(ps))
        if kind == "sum":
            return z3.Sum([z3.IntVal(0)] + [p if not isinstance(p, int) else z3.IntVal(p) for p in parts])
        if kind == "set":
            t = z3.EmptySet(V)
            for p in parts:
                t = p if z3.is_app(t) and t.eq(z3.EmptySet(V)) else z3.SetUnion(t, p)
            return t
        raise Unsupported(kind)

    def fold_seg(self, kind: str, g: tuple, elem: Callable[[Val], Any]) -> Any:
        s, et = g[1], g[2]
        old = self.is_old(s)
        with self.elscope() as x:
            r = self.merged(lambda: elem(self.unbox(x, et, old)))
        ret: tuple = T_ANY
        if kind == "cat":
            ret = self.elemtype(r)
            phi = self.seqterm(r)
            if phi.eq(z3.Unit(x)):
                return SeqVal([g])
            if ret == T_ANY and self._filters(phi, x):
                ret = et
        elif kind == "sum":
            phi = z3.IntVal(r) if isinstance(r, int) else r
        elif kind == "set":
            phi = r
        else:
            phi = z3.BoolVal(r) if isinstance(r, bool) else r
        phi = z3.simplify(phi) if kind != "cat" else phi
        if kind == "all" and z3.is_true(phi):
            return True
        if kind == "any" and z3.is_false(phi):
            return False
        app = self.fold_app(kind, phi, x, s, et)
        if kind == "cat":
            if z3.is_app(phi) and phi.decl().kind() == z3.Z3_OP_SEQ_UNIT:
                self.assume(z3.Length(app) == z3.Length(s))
            return SeqVal([("s", app, ret)])
        return app

    def _filters(self, phi: Any, x: Any) -> bool:
        """The term is the element itself or nothing."""
        if not z3.is_app(phi):
            return False
        k = phi.decl().kind()
        if k == z3.Z3_OP_ITE:
            return self._filters(phi.arg(1), x) and self._filters(phi.arg(2), x)
        return k == z3.Z3_OP_SEQ_EMPTY or k == z3.Z3_OP_SEQ_UNIT and phi.arg(0).eq(x)

    def fold_app(self, kind: str, phi: Any, x: Any, s: Any, et: tuple = T_ANY) -> Any:
        canon = z3.substitute(phi, (x, z3.Const("el!0", V)))
        h = hashlib.blake2b((kind + canon.sexpr()).encode(), digest_size=6).hexdigest()
        rng = {"cat": SEQ, "any": BOOL, "all": BOOL, "sum": INT, "set": SET}[kind]
        f = z3.Function(f"{kind}_{h}", SEQ, rng)
        app = f(s)
        for q in self.folds:
            if q[5].eq(app):
                return app
        q = (h, kind, phi, x, s, app, et)
        self.folds.append(q)
        self.keepalive.append(app)
        if self.eldepth == 0:
            zero = {"cat": z3.Empty(SEQ), "any": z3.BoolVal(False), "all": z3.BoolVal(True), "sum": z3.IntVal(0), "set": z3.EmptySet(V)}[kind]
            self.assume(z3.Implies(s == z3.Empty(SEQ), app == zero))
            for st, segs in self.decomp.items():
                if st == s.get_id():
                    self._fold_axiom(q, segs)
            for zi in self.nths.get(s.get_id(), []):
                self._nth_axiom(q, zi)
        return app

    def _fold_axiom(self, q: tuple, segs: list) -> None:
        _, kind, phi, x, s, app, et = q
        parts: list = []
        for g in segs:
            if g[0] == "u":
                parts.append(z3.substitute(phi, (x, box(g[1]))))
                if self._closed(phi, x):
                    self.nested(parts[-1])
            else:
                parts.append(self.fold_app(kind, phi, x, g[1], et))
        c = self.combine(kind, parts)
        if kind == "cat":
            c = self.seqterm(c)
        self.assume(app == c)

    def nested(self, t: Any) -> None:
        """A quantifier inside a quantifier, now that the outer one speaks of a given element."""
        if self.eldepth:
            return
        byname = {f"{q[1]}_{q[0]}": q for q in self.folds}
        seen: set[int] = set()
        todo = [t]
        while todo:
            t = todo.pop()
            if t.get_id() in seen or not z3.is_app(t):
                continue
            seen.add(t.get_id())
            q = byname.get(t.decl().name()) if t.num_args() == 1 else None
            if q is not None and self._closed(q[2], q[3]):
                self.fold_app(q[1], q[2], q[3], t.arg(0), q[6])
            todo += t.children()

    def decompose(self, s: Any, segs: list) -> None:
        self.assume(s == self.seqterm(SeqVal(segs)))
        self.decomp[s.get_id()] = segs
        self.keepalive.append(s)
        for q in list(self.folds):
            if q[4].eq(s) and self._closed(q[2], q[3]):
                self._fold_axiom(q, segs)

    def _closed(self, phi: Any, x: Any) -> bool:
        """phi mentions no element variable other than x."""
        seen: set[int] = set()
        todo = [phi]
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith("el!") and not t.eq(x):
                return False
            todo += t.children()
        return True

    # -------------------------------------------------------------- truth and equality
    def truth(self, v: Val) -> Any:
        if isinstance(v, Con):
            return bool(v.v)
        if isinstance(v, Sy):
            return v.t if v.sort == "bool" else (v.t != 0 if v.sort == "int" else v.t != lit(""))
        if isinstance(v, Opq):
            return True
        if isinstance(v, Tup):
            return len(v.items) > 0
        if isinstance(v, SeqVal):
            n = self.seqlen(v)
            return n > 0
        if isinstance(v, (Meth, Clo)):
            return True
        if isinstance(v, Obj):
            if v.ty[0] == "list":
                n = self.seqlen(self.items(v))
                return n > 0
            if v.ty[0] == "dict":
                n = self.seqlen(self.dict(v).keys)
                return n > 0
            if v.ty[0] == "cls":
                for c in subs(v.ty[1]):
                    if prog.has_class_attr(c, "__bool__") or prog.has_class_attr(c, "__len__"):
                        raise Unsupported("truth of an object")
                return True
            raise Unsupported("truth")
        if isinstance(v, U):
            if v.ty == T_ANY:
                raise Unsupported("truth of a value of unknown type")
            out = []
            for a in alts(v.ty):
                w = self.unbox(v.t, a, fact=False) if a[0] not in ("none",) else Con(None)
                tr = self.truth(w)
                if tr is False:
                    continue
                out.append(z3.And(kind_test(v.t, a), z3.BoolVal(True) if tr is True else tr))
            return z3.Or(out) if out else False
        raise Unsupported(f"truth of {type(v).__name__}")

    def force(self, v: Val) -> Val:
        """Split a union value into its alternatives."""
        if not isinstance(v, U):
            return v
        if v.ty == T_ANY:
            raise Unsupported("value of unknown type")
        a = alts(v.ty)
        old = self.is_old(v.t)
        for i, x in enumerate(a):
            if i == len(a) - 1 or self.branch(kind_test(v.t, x)):
                return self.unbox(v.t, x, old, fact=False)
        raise Unsupported("force")

    def spec_eq(self, a: Val, b: Val) -> Any:
        if isinstance(a, Clo) or isinstance(b, Clo):
            raise Unsupported("closure equality")
        if isinstance(a, (SeqVal,)) or isinstance(b, (SeqVal,)):
            return self.seq_eq(self.items(a), self.items(b))
        if isinstance(a, DictVal) and isinstance(b, DictVal):
            return z3.And(a.dom == b.dom, a.m == b.m)
        if isinstance(a, SetVal) or isinstance(b, SetVal):
            return self.setterm(a) == self.setterm(b)
        if isinstance(a, Con) and isinstance(b, Con):
            return a.v is b.v or (type(a.v) is type(b.v) and a.v == b.v)
        if isinstance(a, Obj) and isinstance(b, Obj) and a.ty[0] == b.ty[0] == "list":
            if a.t.eq(b.t):
                return True
            return self.seq_eq(self.items(a), self.items(b))
        if isinstance(a, Obj) and isinstance(b, (Tup, Con)) and a.ty[0] == "list":
            if isinstance(b, Con) and b.v is None:
                return False
            return self.seq_eq(self.items(a), self.items(b))
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            return z3.And([self.zb(self.spec_eq(x, y)) for x, y in zip(a.items, b.items)])
        ka, kb = type_of(a)[0], type_of(b)[0]
        if ka in SORTS and ka == kb:
            return self.raw(a) == self.raw(b)
        return box(a) == box(b)

    def setterm(self, a: Val) -> Any:
        if isinstance(a, SetVal):
            return a.t
        if isinstance(a, Obj) and a.ty[0] == "set":
            return self.setv(a).t
        if isinstance(a, SeqVal) and all(g[0] == "u" for g in a.segs):
            t = z3.EmptySet(V)
            for g in a.segs:
                t = z3.SetAdd(t, box(g[1]))
            return t
        if isinstance(a, Obj) and a.ty[0] == "list":
            a = self.items(a)
        if isinstance(a, SeqVal):
            return self.fold("set", a, lambda x: z3.SetAdd(z3.EmptySet(V), box(x)))
        if isinstance(a, Con) and isinstance(a.v, (set, frozenset)):
            t = z3.EmptySet(V)
            for g in a.v:
                t = z3.SetAdd(t, box(Con(g)))
            return t
        raise Unsupported("set term")

    def zb(self, f: Any) -> Any:
        return z3.BoolVal(f) if isinstance(f, bool) else f

    def eq(self, a: Val, b: Val) -> Any:
        if self.spec:
            return self.spec_eq(a, b)
        if isinstance(a, Con) and isinstance(b, Con):
            return bool(a.v == b.v)
        if isinstance(a, U) or isinstance(b, U):
            prim = ("int", "str", "none", "con", "opq")
            ta, tb = type_of(a), type_of(b)
            if all(x[0] in prim for x in alts(ta) + alts(tb)):
                return box(a) == box(b)
            if isinstance(a, Con) and a.v is None and not self._user_eq(tb):
                return V.is_none(box(b))
            if isinstance(b, Con) and b.v is None and not self._user_eq(ta):
                return V.is_none(box(a))
            return self.eq(self.force(a), self.force(b))
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            fs = [self.zb(self.eq(x, y)) for x, y in zip(a.items, b.items)]
            return z3.And(fs) if fs else True
        if isinstance(a, Tup) and isinstance(b, Con) and isinstance(b.v, tuple):
            return self.eq(a, Tup([Con(x) for x in b.v]))
        if isinstance(b, Tup) and isinstance(a, Con) and isinstance(a.v, tuple):
            return self.eq(b, a)
        ta, tb = type_of(a)[0], type_of(b)[0]
        if ta in SORTS and tb in SORTS:
            if ta == tb:
                return self.raw(a) == self.raw(b)
            if {ta, tb} == {"int", "bool"}:
                f = lambda v, k: self.raw(v) if k == "int" else z3.If(self.raw(v), 1, 0)
                return f(a, ta) == f(b, tb)
            return False
        if isinstance(a, Obj) and a.ty[0] == "cls":
            m = prog.has_class_attr(a.ty[1], "__eq__")
            if m is not None and isinstance(m, types.FunctionType):
                if not a.exact and len({prog.has_class_attr(c, "__eq__") for c in subs(a.ty[1])}) > 1:
                    raise Unsupported("__eq__ dispatch")
                r = self.call_fn(m, [a, b], {}, a.ty[1])
                return self.truth(r)
            if isinstance(b, Obj):
                return a.t == b.t
            return False
        if isinstance(b, Obj) and b.ty[0] == "cls":
            return self.eq(b, a)
        if isinstance(a, Obj) and isinstance(b, Obj) and a.ty[0] == b.ty[0] == "list":
            sa, sb = self.items(a), self.items(b)
            ok = ("int", "str", "none", "con")
            if all(x[0] in ok for x in alts(self.elemtype(sa)) + alts(self.elemtype(sb))) or not sa.segs or not sb.segs:
                return self.seq_eq(sa, sb)
            if all(g[0] == "u" for g in sa.segs + sb.segs):
                if len(sa.segs) != len(sb.segs):
                    return False
                return z3.And([self.zb(self.eq(x[1], y[1])) for x, y in zip(sa.segs, sb.segs)])
            if getattr(self, "spec", 0):
                raise Unsupported("list equality")
            # what the comparison of the elements gives is left open: the same list is equal to itself, lists of different lengths are not equal
            r = self.const("listeq", BOOL)
            self.loose = True
            self.assume(z3.Implies(a.t == b.t, r))
            self.assume(z3.Implies(r, self.seqlen(sa) == self.seqlen(sb)))
            x, y, k = self.seqterm(sa), self.seqterm(sb), z3.Int("k!eq")
            self.assume(z3.Implies(x == y, r))
            for same in (V.is_mk_int, V.is_mk_str):
                self.assume(z3.Implies(r, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < z3.Length(x), same(x[k]), same(y[k])), x[k] == y[k]), patterns=[z3.MultiPattern(x[k], y[k])])))
            return r
        if isinstance(a, Opq) and isinstance(b, Opq):
            return a.t == b.t
        if isinstance(a, Obj) and isinstance(b, Obj) and a.ty[0] == b.ty[0] == "dict" and not getattr(self, "spec", 0):
            r = self.const("dicteq", BOOL)
            self.loose = True
            self.assume(z3.Implies(a.t == b.t, r))
            self.assume(z3.Implies(r, self.dict(a).dom == self.dict(b).dom))
            return r
        if ta != tb:
            return False
        raise Unsupported(f"equality of {ta} and {tb}")

    def _user_eq(self, t: tuple) -> bool:
        return False

    def is_(self, a: Val, b: Val) -> Any:
        if isinstance(a, Con) and isinstance(b, Con):
            return a.v is b.v
        if isinstance(a, (Meth, Clo, SeqVal)) or isinstance(b, (Meth, Clo, SeqVal)):
            return False
        ta, tb = type_of(a), type_of(b)
        if not isinstance(a, U) and not isinstance(b, U) and ta[0] != tb[0]:
            return False
        if isinstance(a, Obj) and isinstance(b, Obj):
            al = self.alias(a.t, b.t)
            if al is not None:
                return al
            if self._types_apart(a.ty, b.ty):
                return False
        return box(a) == box(b)

    def contains(self, c: Val, x: Val) -> Any:
        if isinstance(c, U):
            c = self.force(c)
        if isinstance(c, Con):
            if isinstance(c.v, str):
                if isinstance(x, Con):
                    return x.v in c.v
                return z3.Contains(lit(c.v), self.raw(self.force(x)))
            if isinstance(c.v, (list, tuple, set, frozenset, dict, types.MappingProxyType)) or type(c.v).__name__ in ("dict_keys",):
                if isinstance(x, Con):
                    return x.v in c.v
                fs = [self.zb(self.eq(x, Con(y))) for y in c.v]
                return z3.Or(fs) if fs else False
            raise Unsupported("in")
        if isinstance(c, Sy) and c.sort == "str":
            return z3.Contains(c.t, self.raw(self.force(x)))
        if isinstance(c, Tup):
            fs = [self.zb(self.eq(x, y)) for y in c.items]
            return z3.Or(fs) if fs else False
        if isinstance(c, SetVal):
            return z3.Select(c.t, box(x))
        if isinstance(c, DictVal):
            return z3.Select(c.dom, box(x))
        if isinstance(c, Obj) and c.ty[0] == "dict":
            d = self.dict(c)
            if isinstance(x, Con) and not any(g[0] == "s" for g in d.keys.segs) and all(isinstance(g[1], Con) for g in d.keys.segs):
                return any(g[1].v == x.v for g in d.keys.segs)
            return z3.Select(d.dom, box(x))
        if isinstance(c, Obj) and c.ty[0] == "set":
            return z3.Select(self.setv(c).t, box(x))
        if isinstance(c, SeqVal) or (isinstance(c, Obj) and c.ty[0] == "list"):
            fs = []
            for g in self.items(c).segs:
                if g[0] == "u":
                    fs.append(self.zb(self.eq(x, g[1])))
                else:
                    if not self.spec and any(a[0] in ("cls", "any") for a in alts(g[2])) and not (isinstance(x, Con)):
                        pass
                    fs.append(z3.Contains(g[1], z3.Unit(box(x))))
            return z3.Or(fs) if fs else False
        if isinstance(c, Opq):
            self.u.trusted.add("external: x in y is a function of x and y")
            return z3.Function("OIN", INT, V, BOOL)(c.t, box(x))
        raise Unsupported(f"in {type(c).__name__}")

    def isinst(self, v: Val, c: Any) -> Any:
        if isinstance(c, tuple):
            fs = [self.zb(self.isinst(v, x)) for x in c]
            return z3.Or(fs) if fs else False
        if not isinstance(c, type):
            raise Unsupported("isinstance")
        if isinstance(v, Con):
            return isinstance(v.v, c)
        if isinstance(v, Sy):
            return issubclass({"int": int, "str": str, "bool": bool}[v.sort], c)
        if isinstance(v, Tup):
            return issubclass(tuple, c)
        if isinstance(v, Opq):
            return z3.Function("INST_" + c.__name__, INT, BOOL)(v.t)
        if isinstance(v, Obj):
            if v.ty[0] in ("list", "dict", "set"):
                return issubclass({"list": list, "dict": dict, "set": set}[v.ty[0]], c)
            k = v.ty[1]
            if issubclass(k, c):
                return True
            if v.exact:
                return False
            both = [s for s in subs(k) if issubclass(s, c)]
            if not both:
                return False
            return z3.Or([TAG(v.t) == tag_of(s) for s in both])
        if isinstance(v, U):
            if v.ty == T_ANY:
                if c in (int, str, bool):
                    return {int: lambda t: z3.Or(V.is_mk_int(t), V.is_mk_bool(t)), str: V.is_mk_str, bool: V.is_mk_bool}[c](v.t)
                if prog.in_repo(c):
                    return kind_test(v.t, ("cls", c))
                raise Unsupported("isinstance of unknown type")
            out = []
            for a in alts(v.ty):
                r = self.isinst(self.unbox(v.t, a, fact=False), c)
                if r is False:
                    continue
                out.append(z3.And(kind_test(v.t, a), self.zb(r)))
            return z3.Or(out) if out else False
        if isinstance(v, (Meth, Clo)):
            return False
        raise Unsupported("isinstance")

    def narrow(self, v: Val, c: Any) -> Val:
        """The value seen as an instance of c after a successful test."""
        if isinstance(c, tuple) or not isinstance(c, type):
            return v
        if isinstance(v, U):
            return v
        return v
