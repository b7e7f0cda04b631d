"""Small concurrent scenarios, explored completely: TLC visits every order of
events that spec/Concurrent.tla allows (spec/ConcMC.tla), and the real code
performs them under every schedule of its tasks, or with every placement of a
bounded number of preemptions of its threads; spec/ConcTrace.tla judges each
execution."""
from __future__ import annotations

import asyncio
import json
import os
import random
import re
import tempfile
from typing import Any, Callable

import conc
import schedule
import tlc
from conc import ConcWorld, LockMode, TaskRun, ThreadRun, in_child
from exhaustive import SHORT, dec, reg
from framework import Check, parallel


def ask(key: int, at: int = 0, k: str = "p") -> dict:
    return {"op": "res", "at": at, "tok": {"k": k, "key": key}, "md": "a"}


def ent(at: int = 0, req: int = 0, ctx: tuple = ()) -> dict:
    return {"op": "ent", "at": at, "req": req, "ctx": [list(p) for p in ctx]}


def close(at: int = -1) -> dict:
    return {"op": "cls", "at": at, "md": "a"}


CALL = {"op": "call", "h": 0, "md": "a"}


def scenario(start: list[dict], *progs: list[dict], fails: dict | None = None, cancels: int = 0, rush: int = 2,
             preempt: int = 1, lock: str = "u", small: bool = True) -> dict:
    return {
        "c": {"lad": SHORT, "mp": "e", "dp": "i", "dl": "S", "urc": False, "lock": lock, "cls": []},
        "start": start, "progs": [list(p) for p in progs],
        "fails": [{"pid": p, "n": n} for p, n in sorted((fails or {}).items())],
        "cancels": cancels, "rush": rush, "preempt": preempt, "small": small,
    }


def tasks() -> list[dict]:
    one = [reg(1, 10, a=True)]
    pair = [reg(1, 10, "g", a=True), reg(2, 20, deps="p10", a=True)]
    diamond = [reg(1, 10, a=True), reg(2, 20, deps="p10", a=True), reg(3, 30, deps="p10", a=True),
               reg(4, 40, deps="p20 p30", a=True)]
    inner = [reg(1, 10, "g", sc=3, a=True), reg(2, 20, "g", a=True), reg(3, 30, deps="p10 p20", sc=3, a=True)]
    return [
        # one object, first user fails or is cancelled at any point
        scenario(one, [ask(10)], [ask(10)], [ask(10)], fails={1: 1}, cancels=1),
        scenario(one, [ask(10)], [ask(10)], [ask(10)], cancels=2),
        scenario(pair, [ask(20)], [ask(20)], fails={1: 1}, cancels=1),
        scenario(pair, [ask(20)], [ask(10)], [ask(20)], cancels=1),
        scenario(pair, [ask(20), ask(20)], [ask(10)], fails={2: 1}, cancels=1),
        # two ways to the same object
        scenario(diamond, [ask(40)], [ask(40)]),
        scenario(diamond, [ask(20), ask(30)], [ask(30), ask(20)]),
        scenario(diamond, [ask(40)], [ask(30)], cancels=1),
        # a synchronous provider above an asynchronous one, and the other way round
        scenario([reg(1, 10, a=True), reg(2, 20, deps="p10")], [ask(20)], [ask(20)], [ask(10)], cancels=1),
        scenario([reg(1, 10), reg(2, 20, "m", deps="p10", a=True)], [ask(20)], [ask(20)], [ask(10)], fails={2: 1}, cancels=1),
        # transient users of a shared object
        scenario([reg(1, 10, "g", a=True), reg(2, 20, deps="p10", lt="T", a=True)], [ask(20)], [ask(20)], cancels=1),
        # scopes of their own, a shared root object
        scenario(inner, [ent(), ask(30, -1), close()], [ent(), ask(30, -1), close()], small=False),
        scenario(inner, [ent(), ask(10, -1), ask(30, -1)], [ask(20)], fails={2: 1}, cancels=1),
        # one scope shared by the tasks
        scenario([*inner, ent()], [ask(30, 1)], [ask(10, 1)], cancels=1),
        scenario([*inner, ent()], [ask(30, 1)], [ask(30, 1)], fails={1: 1}),
        scenario([*inner, ent(), ent()], [ask(30, 1)], [ask(30, 2)]),
        # decorators, collections, handles
        scenario([reg(1, 10, a=True), dec(2, 10, "p10", a=True)], [ask(10)], [ask(10)], fails={2: 1}, cancels=1),
        scenario([reg(1, 10, a=True), reg(2, 11, a=True)], [ask(10, k="a")], [ask(11)], [ask(10)]),
        scenario([reg(1, 10, a=True), reg(2, 20, deps="g10")], [ask(10, k="g"), CALL], [ask(10)], cancels=1),
        # locks chosen by the registration
        scenario(pair, [ask(20)], [ask(20)], fails={1: 1}, cancels=1, lock="a"),
    ]


def threads() -> list[dict]:
    one = [reg(1, 10)]
    pair = [reg(1, 10, "g"), reg(2, 20, deps="p10")]
    diamond = [reg(1, 10), reg(2, 20, deps="p10"), reg(3, 30, deps="p10"), reg(4, 40, deps="p20 p30")]
    inner = [reg(1, 10, "g", sc=3), reg(2, 20, "g"), reg(3, 30, deps="p10 p20", sc=3)]
    return [
        scenario(one, [ask(10)], [ask(10)], preempt=2),
        scenario(one, [ask(10)], [ask(10)], fails={1: 1}, preempt=2),
        scenario(one, [ask(10)], [ask(10)], preempt=2, lock="t"),
        scenario(one, [ask(10)], [ask(10)], [ask(10)], fails={1: 1}),
        scenario(pair, [ask(20)], [ask(20)], fails={1: 1}),
        scenario(pair, [ask(20)], [ask(10)], preempt=2),
        scenario(diamond, [ask(40)], [ask(40)]),
        scenario(diamond, [ask(20), ask(30)], [ask(30), ask(20)]),
        scenario(inner, [ent(), ask(30, -1), close()], [ent(), ask(30, -1), close()], small=False),
        scenario([*inner, ent()], [ask(30, 1)], [ask(10, 1)]),
        scenario([*inner, ent()], [ask(30, 1)], [ask(20)]),
        scenario([*inner, ent(), ent()], [ask(30, 1)], [ask(30, 2)]),
        scenario([reg(1, 10), dec(2, 10, "p10")], [ask(10)], [ask(10)], fails={2: 1}),
        scenario([reg(1, 10), reg(2, 11)], [ask(10, k="a")], [ask(11)], [ask(10)]),
        scenario([reg(1, 10, lt="T"), reg(2, 20, "m", deps="p10")], [ask(20)], [ask(20)]),
        scenario([reg(1, 10), reg(2, 20, deps="h10")], [ask(10, k="h"), CALL], [ask(20), ask(10)]),
    ]


SCENARIOS = {"tasks": tasks, "threads": threads}


class Fixed:
    """A scenario that is given instead of generated."""

    def __init__(self, m: dict, in_tasks: bool) -> None:
        self.m = m
        self.tasks = in_tasks
        self.cfg = m["c"]
        self.rng = random.Random(0)
        self.world = w = ConcWorld(m["c"], self.rng)
        w.in_tasks = in_tasks
        w.lock_choices = (LockMode.ASYNC,) if in_tasks else (LockMode.THREAD,)
        w.p_lock = 0.0 if m["c"]["lock"] == "u" else 1.1
        w.p_gate = 1.0
        self.explicit = m["c"]["lock"] != "u"
        self.ops: list[dict] = []
        self.actors_n = len(m["progs"])

    def prepare(self) -> None:
        w = self.world
        for o in self.m["start"]:
            self.ops.append(w.run(o))
            if self.ops[-1]["r"] != "ok":
                raise RuntimeError(f"{self.ops[-1]} was refused")
        if not w.scopes:
            w.run({"op": "cmp"})
            w.scopes.clear()
        w.async_pids = {o["pid"] for o in self.ops if o.get("as")}
        w.fails.update((f["pid"], f["n"]) for f in self.m["fails"])

    def step(self, t: int, o: dict, opened: list[int]) -> dict | None:
        md = "a" if self.tasks else "s"
        if o["op"] == "call":
            mine = self.world.own_handles.get(t)
            return {"op": "call", "h": mine[-1], "md": md} if mine else None
        o = dict(o)
        if "md" in o:
            o["md"] = md
        if o["at"] == -1:
            if not opened or not opened[-1]:
                return None
            o["at"] = opened[-1]
        return o


class TaskAll(Fixed, TaskRun):
    def __init__(self, m: dict) -> None:
        Fixed.__init__(self, m, True)

    prepare = Fixed.prepare

    def perform_path(self, path: list[int]) -> list[int]:
        """Follows the choices of path, then takes the first one; how many there were each time."""
        w = self.world
        widths: list[int] = []
        loop = asyncio.new_event_loop()
        w.running = True
        why = loop.run_until_complete(self.explore(path, widths))
        w.running = False
        w.actors.clear()
        if why:
            w.log("end", why=why)
        else:
            loop.close()
            self.close_down()
        w.live = False
        return widths

    async def explore(self, path: list[int], widths: list[int]) -> str:
        w, m = self.world, self.m
        loop = asyncio.get_running_loop()
        jobs: dict[int, asyncio.Task] = {}
        busy: set[int] = set()
        closing: set[int] = set()
        cancels, rush = m["cancels"], m["rush"]

        async def actor(t: int) -> None:
            w.actors[asyncio.current_task()] = t
            opened: list[int] = []
            busy.add(t)
            try:
                for step in m["progs"][t - 1]:
                    o = self.step(t, step, opened)
                    if o is None:
                        continue
                    if o["op"] == "cls":
                        closing.add(t)
                    idx = await w.aperform(o)
                    closing.discard(t)
                    if o["op"] == "ent":
                        opened.append(idx)
            except asyncio.CancelledError:
                pass

        def choices(settled: bool) -> list[tuple]:
            gates = sorted((t, f) for t, f in w.gates if not f.done())
            acts: list[tuple] = [("open", f) for _, f in gates]
            waiting = [t for t in range(1, len(m["progs"]) + 1) if t not in jobs]
            if waiting:
                # actors with the same program are interchangeable
                acts += [("start", t) for n, t in enumerate(waiting)
                         if all(m["progs"][t - 1] != m["progs"][u - 1] for u in waiting[:n])]
            if cancels:
                acts += [("cancel", t) for t in sorted(busy) if not jobs[t].done() and t not in closing
                         and not any(e["e"] == "can" and e["t"] == t for e in w.events[-1:])]
            if not settled:
                # what was started may go on to its end, or one step, or not at all before the next act
                acts[:0] = [("settle",), ("tick",)]
            return acts

        settled = True
        while True:
            if settled and len(jobs) == len(m["progs"]) and all(x.done() for x in jobs.values()):
                break
            acts = choices(settled)
            if not acts:
                return "stuck: " + ", ".join(str(t) for t, x in jobs.items() if not x.done())
            k = 0
            if len(acts) > 1:
                k = path[len(widths)] if len(widths) < len(path) else 0
                widths.append(len(acts))
            act = acts[k]
            if not settled and act[0] != "settle":
                rush -= 1
            if act[0] == "open":
                act[1].set_result(None)
                w.gates = [(t, f) for t, f in w.gates if f is not act[1]]
            elif act[0] == "start":
                jobs[act[1]] = loop.create_task(actor(act[1]))
            elif act[0] == "cancel":
                cancels -= 1
                w.events.append({"e": "can", "t": act[1]})
                jobs[act[1]].cancel()
            elif act[0] == "tick":
                await asyncio.sleep(0)
            settled = act[0] == "settle" or rush == 0
            if settled:
                turns = 0
                while loop._ready:  # noqa: SLF001  everything that can go on does
                    await asyncio.sleep(0)
                    turns += 1
                    if turns > 2000:
                        return "tasks keep running"
            else:
                settled = not loop._ready  # noqa: SLF001
        for x in jobs.values():
            if not x.cancelled() and x.exception() is not None:
                raise RuntimeError(f"driver task failed: {x.exception()!r}")
        return ""


class ThreadAll(Fixed, ThreadRun):
    def __init__(self, m: dict) -> None:
        Fixed.__init__(self, m, False)

    prepare = Fixed.prepare

    def program(self) -> list:
        raise NotImplementedError

    def perform_all(self, choose: Callable[[list[int], int], int]) -> int:
        w, m = self.world, self.m

        def body(t: int) -> Callable[[], None]:
            def run() -> None:
                w.actors[conc._thread.get_ident()] = t  # noqa: SLF001
                opened: list[int] = []
                for step in m["progs"][t - 1]:
                    o = self.step(t, step, opened)
                    if o is None:
                        continue
                    idx = w.perform(o)
                    if o["op"] == "ent":
                        opened.append(idx)
            return run

        w.running = True
        w.sched = s = schedule.Scheduler([body(t + 1) for t in range(len(m["progs"]))], choose)
        why = s.run()
        w.sched = None
        w.running = False
        w.actors.clear()
        for t in s.threads:
            if t.error is not None:
                raise RuntimeError(f"driver thread failed: {t.error!r}")
        if why:
            w.log("end", why=why)
        else:
            self.close_down()
        w.live = False
        w.loop.close()
        return s.steps


def all_tasks(m: dict, limit: int) -> tuple[list[dict], int, bool]:
    """Executions of m that differ, how many there were, and whether they are all."""
    r = TaskAll(m)
    r.prepare()
    seen: dict[str, dict] = {}
    todo: list[list[int]] = [[]]
    runs = 0
    while todo and runs < limit:
        path = todo.pop()

        def child() -> tuple[list[int], dict]:
            return r.perform_path(path), r.trace()

        widths, t = in_child(child)
        runs += 1
        note(seen, t, f"choices {path}")
        for n in range(len(widths) - 1, len(path) - 1, -1):
            todo.extend([*path, *[0] * (n - len(path)), k] for k in range(widths[n] - 1, 0, -1))
    return list(seen.values()), runs, not todo


def note(seen: dict[str, dict], t: dict, label: str) -> None:
    key = repr(t["ev"])
    if key not in seen:
        t["schedule"] = label
        seen[key] = t


def all_threads(m: dict, limit: int) -> tuple[list[dict], int, bool]:
    schedule.patch()
    try:
        r = ThreadAll(m)
        r.prepare()
    finally:
        schedule.unpatch()
    seen: dict[str, dict] = {}
    runs = 0

    def once(at: dict[int, int]) -> int:
        nonlocal runs

        def child() -> tuple[int, dict]:
            schedule.patch()
            return r.perform_all(conc.preempting(at)), r.trace()

        steps, t = in_child(child)
        runs += 1
        note(seen, t, f"preempted at {at}")
        return steps

    n = len(m["progs"]) - 1
    todo: list[dict[int, int]] = [{}]
    while todo and runs < limit:
        at = todo.pop(0)
        steps = once(at)
        if len(at) < m["preempt"]:
            todo.extend({**at, s: k} for s in range(max(at, default=0) + 1, steps + 1) for k in range(n))
    return list(seen.values()), runs, not todo


EVERY = {"tasks": all_tasks, "threads": all_threads}


def run_one(job: tuple) -> tuple[list[dict], int, bool]:
    kind, m, limit = job
    return EVERY[kind](m, limit)


def model(ck: Check, menus: list[dict]) -> None:
    """TLC visits every order of events allowed."""
    fd, path = tempfile.mkstemp(prefix="menus-", suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(menus, f)
        out = tlc.run_tlc("ConcMC.tla", "ConcMC.cfg", env={"MENUS": path})
    finally:
        os.unlink(path)
    if "Model checking completed. No error has been found." not in out:
        raise tlc.TlcFailed(out[-6000:])
    got = re.search(r"(\d+) states generated, (\d+) distinct", out)
    ck.states += int(got[2])
    ck.transitions += int(got[1])
    ck.count("model_states", int(got[2]))


def every(ck: Check, kind: str) -> None:
    menus = SCENARIOS[kind]()
    if ck.thorough:
        for m in menus:
            m["cancels"] += 1 if kind == "tasks" else 0
            m["rush"] += 1
            m["preempt"] += 1
    model(ck, [m for m in menus if m["small"] or ck.thorough])
    limit = 20000 if ck.thorough else 6000
    jobs = [(kind, m, limit) for m in menus]
    traces: list[dict] = []
    for n, (job, (how, val)) in enumerate(zip(jobs, parallel(run_one, jobs, timeout=max(120.0, ck.left())))):
        if how == "hung" or (how == "raised" and "the child hung" in val):
            ck.violation(f"{kind}: small scenario {n} did not end", {"job": job})
        elif how == "raised":
            raise RuntimeError(val)
        else:
            traces.extend(dict(t, seed=f"small {n}") for t in val[0])
            ck.count("small_scenarios")
            ck.count("small_schedules", val[1])
            ck.count("small_scenarios_complete", int(val[2]))
    verdicts, st = tlc.validate(traces, "ConcTrace")
    ck.states += st["states"]
    ck.transitions += st["transitions"]
    ck.traces += len(traces)
    for i, t in enumerate(traces):
        v, k, exp = verdicts[i]
        if v == "WILD":
            ck.count("left_domain")
        elif v != "ACCEPT":
            e = t["ev"][k - 1]
            ck.violation(f"{kind}: scenario {t['seed']}, {t['schedule']}, event {k} {e}: "
                         + (exp["r"] if exp else "an invariant of the specification fails"),
                         {"trace": {**t, "ev": t["ev"][:k]}, "verdict": v})
