"""Concurrent histories: registrations first, then actors (threads under a
controlled schedule, or tasks) use the container at the same time.  Records the
visible events of spec/Concurrent.tla; holds no expectations."""
from __future__ import annotations

import _thread
import asyncio
import contextlib
import os
import pickle
import random
import select
import signal
import time
import traceback
from typing import Any, Callable

import schedule

schedule.patch()          # locks created while the package is imported can be scheduled too
from world import BOOMS, BOOMS_SYNC, LockMode, World  # noqa: E402

schedule.unpatch()
from gen_core import Gen  # noqa: E402
from generics import FIRST, Endless  # noqa: E402

OPEN = 0.25      # share of the scenarios that have open generics


def drive(coro: Any) -> Any:
    """Run a coroutine that never really suspends."""
    try:
        while True:
            coro.send(None)
    except StopIteration as e:
        return e.value


class ConcWorld(World):
    """Records events with the actor that caused them."""

    in_tasks = False

    def __init__(self, cfg: dict, rng: random.Random) -> None:
        super().__init__(cfg, rng)
        self.events: list[dict] = []
        self.actors: dict[Any, int] = {}
        self.fails: dict[int, int] = {}        # provider -> failing calls still to come
        self.nest: dict[int, tuple] = {}       # provider -> what its body asks for
        self.nested_in: dict[int, int] = {}
        self.sched: schedule.Scheduler | None = None
        self.running = False
        self.own_handles: dict[int, list[int]] = {}
        self.own_scopes: dict[int, list[int]] = {}
        self.calls: dict[int, tuple] = {}
        self.gates: list[tuple[int, asyncio.Future]] = []
        self.p_gate = 0.7

    def who(self) -> int:
        if self.in_tasks:
            try:
                return self.actors.get(asyncio.current_task(), 0)
            except RuntimeError:
                return 0
        return self.actors.get(_thread.get_ident(), 0)

    def log(self, e: str, **kw: Any) -> None:
        self.events.append({"e": e, "t": self.who(), **kw})

    def pause(self) -> None:
        if self.sched is not None:
            me = self.sched.me()
            if me is not None:
                self.sched.point(me)

    # ---- providers ------------------------------------------------------
    def called(self, pid: int, args: tuple) -> int:
        self.oc += 1
        n = self.oc
        before = len(self.handles)
        self.log("b", pid=pid, a=[self.show(a) for a in args], n=n)
        if len(self.handles) > before:
            self.own_handles.setdefault(self.who(), []).extend(range(before + 1, len(self.handles) + 1))
        if self.is_async(pid):
            self.calls[n] = (pid, args)
            return n          # goes on in mid
        self.pause()
        nest = self.nest.get(pid)
        if nest and self.running:
            self.inner_sync(nest, args)
        self.settle(pid, n)
        return n

    def is_async(self, pid: int) -> bool:
        return pid in self.async_pids

    async_pids: set[int] = set()

    def settle(self, pid: int, n: int) -> None:
        if self.fails.get(pid, 0) > 0:
            self.fails[pid] -= 1
            kinds = BOOMS if self.in_tasks else BOOMS_SYNC
            exc = self.rng.choice(kinds)(f"boom{pid}")
            self.raised.append((f"boom{pid}", exc))
            self.log("x", n=n, tag=f"E:boom{pid}")
            raise exc
        self.log("k", n=n)

    async def mid(self, n: int) -> None:
        pid, args = self.calls[n]
        try:
            await self.gate()
            nest = self.nest.get(pid)
            if nest and self.running:
                await self.inner_async(nest, args)
                await self.gate()
        except asyncio.CancelledError:
            self.log("x", n=n, tag="E:cancel")
            raise
        self.settle(pid, n)

    async def gate(self) -> None:
        if not self.running or self.rng.random() > self.p_gate:
            if self.rng.random() < 0.5:
                await asyncio.sleep(0)
            return
        fut = asyncio.get_running_loop().create_future()
        self.gates.append((self.who(), fut))
        await fut

    mid_source = "    await W.mid(n)\n"

    def released(self, pid: int, n: int, exc: BaseException | None) -> None:
        if self.live:
            self.log("r", o=n)

    # ---- requests made by provider bodies ---------------------------------
    def inner_sync(self, nest: tuple, args: tuple) -> None:
        me = self.who()
        kind = nest[0]
        if kind == "call":
            h = self.names.get(id(args[nest[1]]), "") if nest[1] < len(args) else ""
            if h.startswith("h"):
                self.perform({"op": "call", "h": int(h[1:]), "md": "s"})
        elif kind == "scope" and not self.nested_in.get(me):
            self.nested_in[me] = 1
            try:
                self.in_new_scope(nest)
            finally:
                self.nested_in[me] = 0

    def in_new_scope(self, nest: tuple) -> None:
        _, req, key = nest
        idx = self.perform({"op": "ent", "at": 0, "req": req, "ctx": []})
        if idx:
            self.perform({"op": "res", "at": idx, "tok": {"k": "p", "key": key}, "md": "s"})
            self.perform({"op": "cls", "at": idx, "md": "s"})

    async def inner_async(self, nest: tuple, args: tuple) -> None:
        me = self.who()
        kind = nest[0]
        if kind == "call":
            h = self.names.get(id(args[nest[1]]), "") if nest[1] < len(args) else ""
            if h.startswith("h"):
                await self.aperform({"op": "call", "h": int(h[1:]), "md": "a"})
        elif kind == "scope" and not self.nested_in.get(me):
            self.nested_in[me] = 1
            try:
                _, req, key = nest
                idx = await self.aperform({"op": "ent", "at": 0, "req": req, "ctx": []})
                if idx:
                    await self.aperform({"op": "res", "at": idx, "tok": {"k": "p", "key": key}, "md": "a"})
                    await self.aperform({"op": "cls", "at": idx, "md": "a"})
            finally:
                self.nested_in[me] = 0

    # ---- requests -----------------------------------------------------------
    def perform(self, o: dict) -> int:
        """Perform o in this actor; the number of the scope it opened, if any."""
        self.log("q", o=o)
        opened = 0
        before = len(self.handles)
        try:
            v = self.act(o)
            if o["op"] == "ent":
                self.scopes.append(v)
                opened = len(self.scopes)
                r = "ok"
            else:
                r = "ok" if o["op"] == "cls" else self.show(v)
        except schedule.Abort:
            raise
        except BaseException as e:  # noqa: BLE001
            self.keep.append(e)
            r = self.error(e)
        if len(self.handles) > before and self.handles:
            last = len(self.handles)
            if r == f"h{last}":
                self.own_handles.setdefault(self.who(), []).append(last)
        self.log("ret", r=r)
        return opened

    def act(self, o: dict) -> Any:
        if o["op"] == "res":
            target = self.resolver(o["at"])
            dep = self.token(o["tok"])
            if o["md"] == "s":
                return target.resolve(dep)
            return drive(target.aresolve(dep))
        if o["op"] == "call":
            v = self.handles[o["h"] - 1]()
            return drive(v.__await__()) if hasattr(v, "__await__") else v
        if o["op"] == "ent":
            return self.entered(o)
        target = self.resolver(o["at"])
        return target.close() if o["md"] == "s" else drive(target.aclose())

    def entered(self, o: dict) -> Any:
        target = self.resolver(o["at"])
        ctx = {self.key(k, meta=False): self.context_value(v) for k, v in o["ctx"]} or None
        return target.enter_scope(self.levels[o["req"]] if o["req"] else None, context=ctx)

    async def aperform(self, o: dict) -> int:
        self.log("q", o=o)
        opened = 0
        before = len(self.handles)
        try:
            if o["op"] == "res":
                v = await self.resolver(o["at"]).aresolve(self.token(o["tok"]))
            elif o["op"] == "call":
                v = self.handles[o["h"] - 1]()
                if hasattr(v, "__await__"):
                    v = await v
            elif o["op"] == "ent":
                v = self.entered(o)
            else:
                v = await self.resolver(o["at"]).aclose()
            if o["op"] == "ent":
                self.scopes.append(v)
                opened = len(self.scopes)
                r = "ok"
            else:
                r = "ok" if o["op"] == "cls" else self.show(v)
        except BaseException as e:  # noqa: BLE001
            self.keep.append(e)
            r = self.error(e)
            if isinstance(e, asyncio.CancelledError) and r.startswith("E:!"):
                r = "E:cancel"
            if isinstance(e, GeneratorExit):
                raise
        last = len(self.handles)
        if last > before and r == f"h{last}":
            self.own_handles.setdefault(self.who(), []).append(last)
        self.log("ret", r=r)
        return opened


# ---- generation -----------------------------------------------------------------
THREADS = dict(
    types=(2, 4), ndeps=(0, 3), p_nest=0, p_inject=0, p_async=0.0, p_none=0.03, p_deeper=0.03, p_defects=0.0, p_unregistered=0.0,
    dep_kinds=dict(p=12, m=1.5, a=1, h=3, x=0.7, y=0.7), kinds=dict(c=4, f=4, g=2.5, m=1.5, i=0.4),
    p_transient=0.2, p_comp=0.1, p_pre_dec=0.12, p_swarm=0.5,
)
TASKS = dict(
    THREADS, p_async=0.55, kinds=dict(f=5, g=3, m=3, c=2, i=0.3),
    dep_kinds=dict(p=12, m=1.5, a=1, g=3, x=0.5, y=0.5),
)


class ConcGen(Gen):
    world_class = ConcWorld

    def __init__(self, seed: int, tasks: bool, share: float) -> None:
        self.tasks = tasks
        p = TASKS if tasks else THREADS
        if random.Random(seed ^ 0x7E39).random() < share:
            p = dict(p, templates=(1, 3))
        super().__init__(seed, p)
        rng = self.rng
        self.levels = []
        w = self.world
        w.in_tasks = tasks
        w.lock_choices = (LockMode.ASYNC,) if tasks else (LockMode.THREAD,)
        w.p_lock = 1.1 if self.explicit else 0.3

    def lock_mode(self) -> str:
        # explicit: another container default, every registration states its own mode
        self.explicit = self.rng.random() < 0.2
        return self.rng.choice("nta" if self.explicit else "ua" if self.tasks else "ut")

    def deps(self, key: int, sc: int, kind: str) -> list[dict]:
        out = super().deps(key, sc, kind)
        # handles are called while objects are built, so the graph through them must not be cyclic
        return [d for d in out if d["k"] not in "hgvw" or d["key"] // 10 < key // 10]

    def template_deps(self, x: int, sc: int, kind: str) -> list[dict]:
        """Mostly what some template serves."""
        tpls = self.space.cfg["tpls"]
        plain = {(tpls[y]["tm"][1], tpls[y]["n"]) for y in self.space.specs if all(a[0] == "v" for a in tpls[y]["tm"][2])}
        return [
            d for d in super().template_deps(x, sc, kind)
            if d["k"] not in "pfhg" or d["tm"][0] != "g" or (d["tm"][1], d["n"]) in plain or self.rng.random() < 0.1
        ]

    def prepare(self) -> None:
        rng, w = self.rng, self.world
        for t in range(1, self.nt + 1):
            for _ in range(2 if rng.random() < self.p["p_comp"] * 2 else 1):
                self.reg(self.registration(t))
            if rng.random() < self.p["p_pre_dec"]:
                self.dec(self.decoration(self.any_key()))
        self.closed: list[int] = []
        if self.space:
            for _ in range(rng.randint(*self.p["templates"])):
                self.do_tpl()
                if rng.random() < 0.3:
                    self.do_tdec()
            keys = [self.closed_key() for _ in range(rng.randint(2, 6))]
            served = [k for k in keys if k >= FIRST * 10 and self.space.served(k // 10, k % 10)]
            self.closed = sorted(set(served[:3] or keys[:2]))
            self.space.close()
        if rng.random() < 0.9:
            self.perform({"op": "cmp"})
            w.scopes.clear()
            self.ops[-1]["op"] = "cmp0"
        w.async_pids = {o["pid"] for o in self.ops if o.get("as")}

        self.shared: list[tuple[int, int]] = [(0, self.lad[0]["l"])]
        for _ in range(rng.choice([0, 1, 1, 2])):
            at, lvl = rng.choice(self.shared)
            deeper = [e["l"] for e in self.lad if e["l"] > lvl]
            if lvl == self.lad[-1]["l"] or not deeper:
                continue
            req = rng.choice([0, rng.choice(deeper)])
            ctx = [[self.ctx_key(), f"c{rng.randint(1, 9)}"]] if rng.random() < 0.3 else []
            idx = w.perform({"op": "ent", "at": at, "req": req, "ctx": ctx})
            if idx:
                self.shared.append((idx, req or self.default_next(lvl)))
        keys = sorted(self.sc_of)
        self.hot = rng.sample(keys, min(len(keys), rng.randint(1, 2)))
        if self.closed:
            self.hot = [rng.choice(self.closed)] + self.hot[: rng.randint(0, 1)]
        for o in self.ops:
            if o["op"] not in ("reg", "dec", "tpl", "tdec"):
                continue
            if rng.random() < 0.12:
                w.fails[o["pid"]] = rng.randint(1, 2)
            if self.tasks and not o["as"]:
                continue   # only asynchronous bodies can wait
            hs = [i for i, d in enumerate(o["deps"]) if d["k"] in "hg"]
            if hs and rng.random() < 0.5:
                w.nest[o["pid"]] = ("call", rng.choice(hs))
            elif o["op"] == "reg" and o["sc"] > self.lad[0]["l"] and rng.random() < 0.06:
                w.nest[o["pid"]] = ("scope", o["sc"], o["key"])

    def program(self) -> list[tuple]:
        rng = self.rng
        steps: list[tuple] = []
        own = 0
        for _ in range(rng.randint(1, 3)):
            x = rng.random()
            key = rng.choice(self.hot) if rng.random() < 0.8 else rng.choice(sorted(self.sc_of) + self.closed)
            sc = self.depth_of(key) or self.lad[0]["l"]
            if x < 0.15 and steps:
                steps.append(("call",))
                continue
            fit = [s for s in self.shared if s[1] >= sc]
            if fit and x < 0.7:
                steps.append(("res", rng.choice(fit)[0], self.tok(key)))
            else:
                up = [s for s in self.shared if s[1] < max(sc, self.lad[1]["l"])] or self.shared[:1]
                at, lvl = rng.choice(up)
                req = sc if sc > lvl and rng.random() < 0.7 else 0
                ctx = [[self.ctx_key(), f"c{rng.randint(1, 9)}"]] if rng.random() < 0.2 else []
                if lvl == self.lad[-1]["l"]:
                    continue
                steps.append(("ent", at, req, ctx))
                own += 1
                for _ in range(rng.randint(1, 2)):
                    steps.append(("own", own, self.tok(key)))
                if rng.random() < 0.7:
                    steps.append(("cls", own))
        return steps

    def tok(self, key: int) -> dict:
        x = self.rng.random()
        if x < 0.1:
            return {"k": "a", "key": key // 10 * 10}
        if x < 0.18:
            return {"k": "g" if self.tasks else "h", "key": key}
        return {"k": "p", "key": key}

    def resolve_step(self, t: int, step: tuple, opened: list[int]) -> dict | None:
        """The operation of a step of a program of actor t."""
        md = "a" if self.tasks else ("a" if self.md_async else "s")
        if step[0] == "res":
            return {"op": "res", "at": step[1], "tok": step[2], "md": md}
        if step[0] == "ent":
            return {"op": "ent", "at": step[1], "req": step[2], "ctx": step[3]}
        if step[0] == "call":
            mine = self.world.own_handles.get(t)
            return {"op": "call", "h": mine[-1], "md": md} if mine else None
        if step[1] > len(opened) or not opened[step[1] - 1]:
            return None
        at = opened[step[1] - 1]
        if step[0] == "own":
            return {"op": "res", "at": at, "tok": step[2], "md": md}
        return {"op": "cls", "at": at, "md": "a" if self.tasks else "s"}

    md_async = False

    def close_down(self) -> None:
        w = self.world
        with contextlib.suppress(Exception):
            w.container.compile()      # when no request did
        closed = {e["o"]["at"] for e in w.events if e["e"] == "q" and e["o"]["op"] == "cls"}
        for idx in range(len(w.scopes), 0, -1):
            if idx not in closed:
                w.perform({"op": "cls", "at": idx, "md": "s"})
        w.perform({"op": "cls", "at": 0, "md": "s"})

    def trace(self) -> dict:
        pre = [o for o in self.ops if o["op"] != "cmp0"]
        c = {k: self.cfg[k] for k in ("lad", "mp", "dp", "dl", "gen") if k in self.cfg}
        return {"c": c, "pre": pre, "n": self.actors_n,
                "ev": self.world.events}

    actors_n = 0


class ThreadRun(ConcGen):
    def __init__(self, seed: int, share: float) -> None:
        super().__init__(seed, tasks=False, share=share)

    def perform_all(self, choose: Callable[[list[int], int], int]) -> int:
        """Runs the scenario; the number of scheduling decisions taken."""
        w, rng = self.world, self.rng
        self.actors_n = n = rng.choice([2, 2, 2, 3])
        programs = [self.program() for _ in range(n)]
        if rng.random() < 0.5:   # the same requests everywhere
            programs = [programs[0] for _ in range(n)]
        modes = [rng.random() < 0.15 for _ in range(n)]

        def body(t: int) -> Callable[[], None]:
            def run() -> None:
                w.actors[_thread.get_ident()] = t
                opened: list[int] = []
                for step in programs[t - 1]:
                    self.md_async = modes[t - 1]
                    o = self.resolve_step(t, step, opened)
                    if o is None:
                        continue
                    if o["op"] == "call":
                        o["md"] = "s"
                    idx = w.perform(o)
                    if o["op"] == "ent":
                        opened.append(idx)
            return run

        w.running = True
        w.sched = s = schedule.Scheduler([body(t + 1) for t in range(n)], choose)
        why = s.run()
        w.sched = None
        w.running = False
        w.actors.clear()
        for t in s.threads:
            if t.error is not None:
                raise RuntimeError(f"driver thread failed: {t.error!r}")
        if why:
            w.log("end", why=why)
        else:
            self.close_down()
        w.live = False
        w.loop.close()
        return s.steps


class TaskRun(ConcGen):
    """Tasks of one event loop (or of two, one after the other)."""

    def __init__(self, seed: int, share: float) -> None:
        super().__init__(seed, tasks=True, share=share)

    def perform_all(self, choose: random.Random) -> None:
        w, rng = self.world, choose
        w.p_gate = rng.choice([0.4, 0.8, 1.0])
        n = rng.choice([2, 2, 3, 3, 4])
        programs = [self.program() for _ in range(n)]
        if rng.random() < 0.5:
            programs = [programs[0] for _ in range(n)]
        cancels = rng.choice([0, 0, 1, 2, 3])
        phases = [n]
        if n > 2 and rng.random() < 0.3:
            k = rng.randint(1, n - 1)
            phases = [k, n - k]
        self.actors_n = n
        first = 1
        why = ""
        w.running = True
        for k in phases:
            loop = asyncio.new_event_loop()
            try:
                why = loop.run_until_complete(
                    self.phase({t: programs[t - 1] for t in range(first, first + k)}, rng, cancels))
            finally:
                if not why:
                    loop.close()
            first += k
            if why:
                break
        w.running = False
        w.actors.clear()
        if why:
            w.log("end", why=why)
        else:
            self.close_down()
        w.live = False

    def close_down(self) -> None:
        w = self.world
        with contextlib.suppress(Exception):
            w.container.compile()      # when no request did
        closed = {e["o"]["at"] for e in w.events if e["e"] == "q" and e["o"]["op"] == "cls"}

        async def go() -> None:
            for idx in range(len(w.scopes), 0, -1):
                if idx not in closed:
                    await w.aperform({"op": "cls", "at": idx, "md": "a"})
            await w.aperform({"op": "cls", "at": 0, "md": "a"})

        loop = asyncio.new_event_loop()
        loop.run_until_complete(go())
        loop.close()

    async def phase(self, programs: dict[int, list[tuple]], rng: random.Random, cancels: int) -> str:
        w = self.world
        tasks: dict[int, asyncio.Task] = {}
        closing: set[int] = set()

        async def run(t: int, program: list[tuple]) -> None:
            opened: list[int] = []
            for step in program:
                o = self.resolve_step(t, step, opened)
                if o is None:
                    continue
                if o["op"] == "cls":
                    closing.add(t)
                idx = await w.aperform(o)
                closing.discard(t)
                if o["op"] == "ent":
                    opened.append(idx)

        async def actor(t: int, program: list[tuple]) -> None:
            w.actors[asyncio.current_task()] = t
            try:
                await run(t, program)
            except asyncio.CancelledError:
                pass   # cancelled before or between requests

        waiting = sorted(programs)
        rng.shuffle(waiting)
        idle = 0
        while True:
            for _ in range(rng.choice([0, 0, 1, 2, 4])):
                await asyncio.sleep(0)
            w.gates = [(t, f) for t, f in w.gates if not f.done()]
            if not waiting and all(x.done() for x in tasks.values()):
                break
            live = [t for t, x in tasks.items() if not x.done() and t not in closing]
            acts = ["start"] * (2 * len(waiting)) + ["open"] * (3 * len(w.gates))
            if live and cancels:
                acts += ["cancel"]
            if not waiting and not w.gates:
                idle += 1
                if idle > 200:
                    return "stuck: " + ", ".join(str(t) for t in live)
                acts += ["idle"] * 3
            else:
                idle = 0
            act = rng.choice(acts + ["idle"])
            if act == "start":
                t = waiting.pop()
                tasks[t] = asyncio.get_running_loop().create_task(actor(t, programs[t]))
            elif act == "open":
                t, f = w.gates.pop(rng.randrange(len(w.gates)))
                f.set_result(None)
            elif act == "cancel":
                t = rng.choice(live)
                cancels -= 1
                w.events.append({"e": "can", "t": t})
                tasks[t].cancel()
        for t, x in tasks.items():
            if not x.cancelled() and x.exception() is not None:
                raise RuntimeError(f"driver task failed: {x.exception()!r}")
        return ""


def explore_tasks(seed: int, budget: int, share: float = OPEN) -> tuple[list[dict], int]:
    """Distinct traces of scenario `seed` over `budget` schedules."""
    seen: dict[str, dict] = {}
    r = TaskRun(seed, share)
    try:
        r.prepare()
    except Endless:
        return [], 0
    for k in range(budget):

        def child() -> dict:
            r.rng.seed(seed * 1000 + k)
            r.perform_all(random.Random(seed * 1000 + k))
            return r.trace()

        t = in_child(child)
        key = repr(t["ev"])
        if key not in seen:
            t["schedule"] = f"tasks {k}"
            t["seed"] = seed
            seen[key] = t
    return list(seen.values()), budget


def preempting(at: dict[int, int]) -> Callable[[list[int], int], int]:
    """Runs a thread until it ends or waits, except for switches at the given decisions."""
    step = [0]

    def choose(ready: list[int], cur: int) -> int:
        step[0] += 1
        to = at.get(step[0])
        if to is not None and len(ready) > 1:
            others = [r for r in ready if r != cur]
            return others[to % len(others)]
        return cur if cur in ready else ready[0]

    return choose


def wandering(rng: random.Random, p: float) -> Callable[[list[int], int], int]:
    def choose(ready: list[int], cur: int) -> int:
        if cur in ready and rng.random() > p:
            return cur
        return rng.choice(ready)

    return choose


def in_child(fn: Callable[[], Any], seconds: float = 30.0) -> Any:
    """fn() in a forked copy of this process, which is thrown away afterwards."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            try:
                data = pickle.dumps(("ok", fn()))
            except BaseException:  # noqa: BLE001
                data = pickle.dumps(("raised", traceback.format_exc()))
            with os.fdopen(wr, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(wr)
    chunks = []
    end = time.time() + seconds
    try:
        while True:
            if not select.select([rd], [], [], max(0.0, end - time.time()))[0]:
                os.kill(pid, signal.SIGKILL)
                raise RuntimeError("the child hung")
            got = os.read(rd, 1 << 16)
            if not got:
                break
            chunks.append(got)
    finally:
        os.close(rd)
        os.waitpid(pid, 0)
    kind, val = pickle.loads(b"".join(chunks)) if chunks else ("raised", "the child died")
    if kind != "ok":
        raise RuntimeError(val)
    return val


def explore_threads(seed: int, budget: int, share: float = OPEN) -> tuple[list[dict], int]:
    """Distinct traces of scenario `seed` over `budget` schedules."""
    rng = random.Random(seed ^ 0xABCDEF)
    seen: dict[str, dict] = {}
    runs = 0

    schedule.patch()
    try:
        r = ThreadRun(seed, share)
        r.prepare()
    except Endless:
        return [], 0
    finally:
        schedule.unpatch()

    def once(choose: Callable, label: str) -> int:
        nonlocal runs

        def child() -> tuple[int, dict]:
            steps = r.perform_all(choose)
            return steps, r.trace()

        runs += 1
        steps, t = in_child(child)
        key = repr(t["ev"])
        if key not in seen:
            t["schedule"] = label
            t["seed"] = seed
            seen[key] = t
        return steps

    n = once(preempting({}), "none")
    singles = list(range(1, n + 1))
    rng.shuffle(singles)
    for i in singles[: budget // 2]:
        once(preempting({i: 0}), f"switch at {i}")
    while runs < budget:
        if rng.random() < 0.6:
            at = {rng.randint(1, n + n // 4): rng.randint(0, 1) for _ in range(rng.randint(2, 4))}
            once(preempting(at), f"switches {at}")
        else:
            s = rng.randint(0, 1 << 30)
            p = rng.choice([0.03, 0.1, 0.3, 0.6])
            once(wandering(random.Random(s), p), f"random {s} {p}")
    return list(seen.values()), runs
