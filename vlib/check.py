"""Runner shared by all checks: seeded parallel trials, findings, replays, evidence."""
from __future__ import annotations

import collections
import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import time
import traceback
from typing import Any, Callable

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
EVID = os.path.join(HERE, "evidence")
REPL = os.path.join(EVID, "replays")
VT = "python3-vt"

_TRIAL: Callable | None = None
TRIAL_LIMIT = 20.0


class Bad(Exception):
    """A violation found by a trial. sig: stable class of the failure (for known findings), data: replay content."""

    def __init__(self, sig: str, **data: Any):
        super().__init__(sig)
        self.sig = sig
        self.data = data


class Skip(Exception):
    """The input is outside the property's precondition."""


class TrialTimeout(BaseException):
    pass


def _alarm(*_: Any) -> None:
    raise TrialTimeout()


def _init_worker() -> None:
    import resource

    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass


def _run_chunk(a: tuple) -> dict:
    name, seed, idxs, t_end = a
    signal.signal(signal.SIGALRM, _alarm)
    out: dict[str, Any] = {"n": 0, "stat": collections.Counter(), "bad": [], "hashes": set(), "samples": [], "err": [], "slow": []}
    for i in idxs:
        if time.time() > t_end:
            break
        rng = random.Random(f"{name}/{seed}/{i}")
        st: dict[str, Any] = {"stat": out["stat"], "h": None, "i": i}
        try:
            signal.setitimer(signal.ITIMER_REAL, TRIAL_LIMIT)
            try:
                _TRIAL(rng, st)  # type: ignore
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            out["stat"]["ok"] += 1
        except TrialTimeout:
            out["stat"]["timeout"] += 1
            out["slow"].append((name, i))
        except Skip as e:
            out["stat"]["skip: " + str(e)[:60]] += 1
        except Bad as e:
            if len(out["bad"]) < 20:
                out["bad"].append((e.sig, i, e.data))
            out["stat"]["bad: " + e.sig[:80]] += 1
        except (MemoryError, RecursionError) as e:
            out["stat"]["resource " + type(e).__name__] += 1
        except Exception as e:  # harness trouble: never a violation
            out["stat"]["harness error"] += 1
            if len(out["err"]) < 3:
                out["err"].append((i, "".join(traceback.format_exception(e))[-2000:]))
        out["n"] += 1
        if st["h"] is not None:
            h = hashlib.blake2b(repr(st["h"]).encode(), digest_size=8).hexdigest()
            out["hashes"].add(h)
            if len(out["samples"]) < 1:
                out["samples"].append(str(st["h"])[:400])
    out["stat"] = dict(out["stat"])
    return out


class Check:
    def __init__(self, pid: str, technique: str = ""):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER") or "quick"
        if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
            self.tier = sys.argv[1]
        self.seed = int(os.environ.get("VERIF_SEED") or 1)
        self.t0 = time.time()
        self.stats: dict[str, collections.Counter] = {}
        self.bads: list[tuple[str, str, Any]] = []  # (sig, where, data)
        self.distinct = 0
        self.evals = 0
        self.samples: list[str] = []
        self.errs: list = []
        self.slow: list = []
        self.vc_proc: subprocess.Popen | None = None
        self.vc: dict | None = None
        self.extra: dict[str, Any] = {}
        self.bounds: list[str] = []
        self.assumptions: list[str] = []
        self.limit = 90.0 if self.tier == "quick" else 600.0
        os.makedirs(REPL, exist_ok=True)
        for fn in os.listdir(REPL):
            if fn.startswith(pid + "_"):
                os.remove(os.path.join(REPL, fn))

    @property
    def quick(self) -> bool:
        return self.tier == "quick"

    # ------------------------------------------------------------------ deductive part
    def start_vc(self) -> None:
        """Starts the deductive verifier for this property (in the z3 environment) in the background."""
        if not os.path.exists(os.path.join(HERE, "pyvc", "main.py")):
            return
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        self.vc_out = os.path.join(EVID, f".vc_{self.pid}.json")
        try:
            os.remove(self.vc_out)
        except OSError:
            pass
        self.vc_proc = subprocess.Popen(
            [VT, "-m", "pyvc.main", self.pid, self.tier, self.vc_out], cwd=HERE, env=env,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
        )  # fmt: skip

    def wait_vc(self) -> None:
        if self.vc_proc is None or self.vc is not None:
            return
        try:
            out, _ = self.vc_proc.communicate(timeout=max(30.0, 780.0 - (time.time() - self.t0)))
        except subprocess.TimeoutExpired:
            self.vc_proc.kill()
            out, _ = self.vc_proc.communicate()
            out += "\n[timed out]"
        try:
            with open(self.vc_out) as f:
                self.vc = json.load(f)
        except Exception:
            self.vc = {"error": "verifier gave no result: " + (out or "")[-1500:], "obligations": [], "functions": []}
        if "error" in self.vc:
            print("note: deductive part:", self.vc["error"][-600:])

    # ------------------------------------------------------------------ bounded part
    def run(self, name: str, trial: Callable, n: int, *, limit: float | None = None, nproc: int = 8, chunk: int | None = None) -> None:
        """Runs n seeded trials of a contract check over the real code."""
        global _TRIAL
        _TRIAL = trial
        lim = limit if limit is not None else self.limit
        t_end = time.time() + lim
        nproc = max(1, min(nproc, n))
        chunk = chunk or max(1, min(50, n // (nproc * 4) or 1))
        jobs = [(name, self.seed, range(i, min(i + chunk, n)), t_end) for i in range(0, n, chunk)]
        stat: collections.Counter = collections.Counter()
        hashes: set = set()
        done = 0
        if nproc == 1:
            res: Any = map(_run_chunk, jobs)
            pool = None
        else:
            pool = mp.get_context("fork").Pool(nproc, initializer=_init_worker)
            res = pool.imap_unordered(_run_chunk, jobs)
        try:
            it = iter(res)
            while True:
                try:
                    o = it.next(timeout=max(5.0, t_end + 30 - time.time())) if pool else next(it)
                except StopIteration:
                    break
                except mp.TimeoutError:
                    stat["worker timeout"] += 1
                    break
                done += o["n"]
                stat.update(o["stat"])
                hashes |= o["hashes"]
                if len(self.samples) < 12:
                    self.samples += [f"{name}: {s}" for s in o["samples"]][:3]
                for sig, i, data in o["bad"]:
                    self.bads.append((sig, f"{name}/{self.seed}/{i}", data))
                self.errs += o["err"]
                self.slow += o["slow"]
        finally:
            if pool:
                pool.terminate()
                pool.join()
        self.evals += done
        self.distinct += len(hashes)
        self.stats[name] = stat
        self.stats[name]["_trials"] = done
        self.stats[name]["_planned"] = n

    def case(self, name: str, fn: Callable, *args: Any) -> None:
        """A single named case."""
        st = self.stats.setdefault(name.split("/")[0], collections.Counter())
        self.evals += 1
        try:
            fn(*args)
            st["ok"] += 1
            self.distinct += 1
        except Bad as e:
            st["bad: " + e.sig[:80]] += 1
            self.bads.append((e.sig, name, e.data))
        except Skip as e:
            st["skip: " + str(e)[:60]] += 1
        except Exception as e:
            st["harness error"] += 1
            self.errs.append((name, "".join(traceback.format_exception(e))[-2000:]))

    # ------------------------------------------------------------------ result
    def known(self) -> dict[str, str]:
        out = {}
        try:
            with open(os.path.join(HERE, "known_findings.txt")) as f:
                for line in f:
                    line = line.strip()
                    if line.startswith("finding: "):
                        head, _, what = line[len("finding: "):].partition(" :: ")
                        pid, _, sig = head.partition(" ")
                        if pid == f"property={self.pid}":
                            out[sig.strip()] = what.strip()
        except FileNotFoundError:
            pass
        return out

    def finish(self, *, level: str = "other", explanation: str = "", rule: str = "") -> None:
        self.wait_vc()
        known = self.known()
        viol: list[dict] = []
        hit: dict[str, int] = collections.Counter()
        groups: dict[str, list] = collections.defaultdict(list)
        for sig, where, data in self.bads:
            if sig in known:
                hit[sig] += 1
            else:
                groups[sig].append((len(json.dumps(data, default=str)), where, data))
        for n, sig in enumerate(sorted(groups)):
            g = sorted(groups[sig], key=lambda x: x[0])
            path = os.path.join(REPL, f"{self.pid}_{n}.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "failure": sig, "where": g[0][1], "input": g[0][2], "occurrences": len(g)},
                          f, indent=1, default=str)  # fmt: skip
            viol.append({"sig": sig, "replay": path, "concrete": True})
        # deductive failures
        vcs = (self.vc or {}).get("obligations", [])
        failed = [o for o in vcs if o["status"] == "failed"]
        for n, o in enumerate(failed):
            path = os.path.join(REPL, f"{self.pid}_vc{n}.json")
            conc = bool(o.get("replayed"))
            if o.get("sig") and o["sig"] in known:
                hit[o["sig"]] += 1
                continue
            with open(path, "w") as f:
                json.dump({"property": self.pid, "failed_obligation": o}, f, indent=1, default=str)
            viol.append({"sig": "obligation " + o["name"], "replay": path, "concrete": conc})
        for sig in known:
            print(f"KNOWN-FINDING: property={self.pid} {known[sig]}")
        # one line per violation; concrete ones first; an unreplayed obligation is only reported if nothing concrete is
        conc = [v for v in viol if v["concrete"]]
        for v in (conc or viol)[:5]:
            tail = "" if v["concrete"] else " no-failing-input-found"
            print(f"violation: {v['sig']}"[:300])
            print(f"VIOLATION property={self.pid} replay={v['replay']}{tail}")
        disch = [o for o in vcs if o["status"] == "discharged"]
        cov: dict[str, Any] = {
            "evaluations": max(1, self.evals),
            "distinct_nontrivial": self.distinct,
            "rule": rule or "seeded random generation plus fixed cases; an input counts as non-trivial when the contract's precondition holds and both sides were compared",
            "samples": self.samples[:12] or ["(fixed cases only)"],
            "stats": {k: dict(v) for k, v in self.stats.items()},
            "explanation": explanation or (
                f"{len(disch)} of {len(vcs)} proof obligations of {len((self.vc or {}).get('functions', []))} functions under contract discharged for all inputs; "
                "the end-to-end statement of the property, which also covers functions no contract reaches (ANTLR parser, igraph passes), "
                "is only checked over generated inputs (bounded, not counted as proved); see DESIGN.md"
            ),
            "bounded": self.bounds,
        }
        if self.vc is not None:
            cov.update(
                obligations=len(vcs), discharged=len(disch),
                checker_cmd=f"python3-vt -m pyvc.main {self.pid} {self.tier} <out.json>",
                trusted_base=self.vc.get("trusted", []),
                functions=self.vc.get("functions", []),
                solver=self.vc.get("solver", {}),
                undischarged=[{k: o.get(k) for k in ("name", "status", "detail")} for o in vcs if o["status"] != "discharged"],
                obligation_names=[o["name"] for o in disch],
                vacuity=self.vc.get("vacuity", {}),
                deductive_error=self.vc.get("error"),
            )  # fmt: skip
        cov.update(self.extra)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
            "wall_s": round(time.time() - self.t0, 1),
            "assumptions": self.assumptions + (self.vc or {}).get("assumptions", []),
            "violations": len(viol),
        }  # fmt: skip
        if viol:
            cov["violation_replays"] = [v["replay"] for v in viol]
        if self.slow:
            cov["slow_trials"] = self.slow[:20]
        if self.errs:
            ev["harness_errors"] = self.errs[:5]
            print("note: harness errors:", self.errs[0][0], self.errs[0][1][-700:])
        with open(os.path.join(EVID, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print(f"{self.pid} {self.tier}: {self.evals} bounded evaluations ({self.distinct} distinct), "
              f"{len(disch)}/{len(vcs)} obligations, {len(viol)} violations, {time.time() - self.t0:.1f}s")  # fmt: skip
        for k, v in self.stats.items():
            print("   ", k, dict(v))
        sys.exit(1 if viol else 0)
