"""Controlled interleavings of threads: one thread runs at a time, switches happen at traced events (lines or bytecodes)
chosen by a seeded schedule. A thread that blocks outside the tracer (on a lock) loses its turn after a short while."""
from __future__ import annotations

import os
import random
import sys
import threading
from typing import Any, Callable


class Sched:
    def __init__(self, rng: random.Random, n: int, mean: float, opcodes: bool, where: tuple[str, ...]):
        self.rng, self.n, self.mean, self.opcodes, self.where = rng, n, mean, opcodes, where
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.current = -1
        self.left = 0
        self.progress = 0
        self.switches = 0
        self.started = threading.Event()
        self.mine = threading.local()

    def quantum(self) -> int:
        r = self.rng.random()
        if r < 0.3:
            return self.rng.randint(1, 4)
        return 1 + int(self.rng.expovariate(1.0 / self.mean))

    def give(self, nxt: int) -> None:
        self.current = nxt
        self.left = self.quantum()
        self.sems[nxt].release()

    def wait(self, me: int) -> None:
        while True:
            before = self.progress
            if self.sems[me].acquire(timeout=0.25):
                if self.current == me:
                    return
                continue
            if self.progress == before:  # the thread whose turn it is does not get on: it waits for something
                self.current = me
                self.left = self.quantum()
                return

    def event(self, me: int) -> None:
        if self.current != me:
            self.wait(me)
        self.progress += 1
        self.left -= 1
        if self.left <= 0:
            others = sorted(self.alive - {me})
            if others:
                self.switches += 1
                self.give(self.rng.choice(others))
                self.wait(me)
            else:
                self.left = 1 << 30

    def _trace(self, frame: Any, ev: str, arg: Any) -> Any:
        fn = frame.f_code.co_filename
        if not any(w in fn for w in self.where):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self._local

    def _local(self, frame: Any, ev: str, arg: Any) -> Any:
        if ev == ("opcode" if self.opcodes else "line"):
            self.event(self.mine.i)
        return self._local

    def run(self, fs: list[Callable]) -> list:
        res: list = [None] * len(fs)

        def body(i: int) -> None:
            self.mine.i = i
            self.wait(i)
            sys.settrace(self._trace)
            try:
                res[i] = fs[i]()
            finally:
                sys.settrace(None)
                self.alive.discard(i)
                if self.current == i and self.alive:
                    self.give(self.rng.choice(sorted(self.alive)))

        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(fs))]
        for t in ts:
            t.start()
        self.give(self.rng.randrange(len(fs)))
        for t in ts:
            t.join()
        return res


def free(fs: list[Callable], interval: float) -> list:
    """The threads as the interpreter schedules them, with very short turns."""
    res: list = [None] * len(fs)
    bar = threading.Barrier(len(fs))

    def body(i: int) -> None:
        bar.wait()
        res[i] = fs[i]()

    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(fs))]
    sys.setswitchinterval(interval)
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return res


HOME = os.sep + "explorerscript" + os.sep
