"""Generates histories for spec/Inject.tla and performs them on the real code:
resolver bindings in nested blocks, threads, tasks and copied contexts, and
injected callables whose bodies perform further operations.

As in gen_core the generator only keeps to the specified domain; what must
happen is decided by the specification alone."""
from __future__ import annotations

import asyncio
import contextvars
import functools
import inspect
import random
import threading
import traceback
from types import SimpleNamespace
from typing import Any

import gen_core
import generics
from gen_core import pick
from world import D, DP, Body, World

from diwire import Injected, Maybe, FromContext, ResolverContext
from diwire._internal.integrations import pytest_plugin

POSITIONAL = ("po", "pk")


async def no_sleep(_: float = 0) -> None:
    return None


def drive(coro: Any) -> Any:
    """Runs a coroutine that never suspends."""
    try:
        coro.send(None)
    except StopIteration as stop:
        return stop.value
    coro.close()
    raise RuntimeError("suspended")


class InjWorld(World):
    sleep = staticmethod(no_sleep)
    blocks = False

    def start(self) -> None:
        self.rc = ResolverContext()
        self.fns: list[Any] = []
        self.tests: list[tuple] = []
        self.hooks: dict[int, tuple] = {}
        if self.cfg["up"]:
            self.op_con({})

    def op_con(self, _o: dict) -> str:
        self.container = self.make_container(resolver_context=self.rc)
        return "ok"

    def foreign(self, exc: BaseException) -> str:
        return self.error(exc)

    def await_(self, thunk: Any) -> Any:
        async def go() -> Any:
            return await thunk()

        return drive(go())

    def begin(self, o: dict) -> None:
        self.ev = []
        self.fc = set(o.get("fc", ()))
        self.fr = set(o.get("fr", ()))
        self.raised = []
        self.body = None

    def end(self, o: dict, r: str) -> dict:
        out = dict(o)
        out["r"] = r
        out["ev"] = self.ev
        self.ev = []
        return out

    def run(self, o: dict) -> dict:
        self.begin(o)
        try:
            r = getattr(self, "op_" + o["op"])(o)
        except BaseException as e:  # noqa: BLE001
            r = self.error(e)
            self.keep.append(e)
            e.__traceback__ = None
        return self.end(o, r)

    def resolver(self, at: int) -> Any:
        return self.rc if at == -1 else super().resolver(at)

    def op_flo(self, _o: dict) -> str:
        return "ok"

    def op_bnd(self, o: dict) -> str:
        target = self.resolver(o["h"])
        got = target.__enter__() if o["md"] == "s" else self.await_(target.__aenter__)
        if o["h"] == 0:
            self.scopes.append(got)
        elif got is not target:
            return "ok?"
        return "ok"

    def op_unb(self, o: dict) -> str:
        target = self.resolver(o["h"])
        exc: tuple = (None, None, None)
        if o["exc"]:
            self.body = Body("body")
            exc = (Body, self.body, None)
        r = target.__exit__(*exc) if o["md"] == "s" else self.await_(lambda: target.__aexit__(*exc))
        return "suppressed" if r else "ok"

    # ---- callables ------------------------------------------------------
    def op_dcl(self, o: dict) -> str:
        rng = self.rng
        ns: dict[str, Any] = {"D": D, "W": self, "F_ID": len(self.fns) + 1}
        parts: list[str] = []
        shown: list[str] = []
        star = False
        ps = o["ps"]
        if o.get("again"):
            return self.plug(*self.tests[o["again"] - 1])
        form = rng.choices(["f", "m", "bound", "obj", "part", "static"], [12, 3, 1, 2, 1, 1])[0]
        if o.get("plg"):
            form = rng.choice(["f", "f", "m", "static", "class"])
        if form in ("m", "bound", "obj", "class"):
            parts.append("self")
        for i, p in enumerate(ps, 1):
            n = f"p{i}"
            if p["k"] == "ko" and not star:
                parts.append("*")
                star = True
            if p["k"] == "va":
                star = True
            text = {"va": "*", "vk": "**"}.get(p["k"], "") + n
            if p["a"] != "-":
                ns[f"A{i}"] = self.injected(p)
                text += f": 'A{i}'" if rng.random() < 0.2 else f": A{i}"
            elif rng.random() < 0.4:
                text += ": " + rng.choice(["int", "object", "'str'"])
            if p["d"]:
                text += " = D"
            parts.append(text)
            shown.append(f"tuple({n}[k] for k in sorted({n}))" if p["k"] == "vk" else n)
            if p["k"] == "po" and (i == len(ps) or ps[i]["k"] != "po"):
                parts.append("/")
        src = (
            f"{'async ' if o['as'] else ''}def F({', '.join(parts)}):\n"
            f"    return {'await W.abody' if o['as'] else 'W.sbody'}(({''.join(s + ', ' for s in shown)}))\n"
        )
        self.compile(src, ns)
        if o.get("plg"):
            made = {"static": staticmethod, "class": classmethod}.get(form, lambda f: f)(ns["F"])
            self.tests.append((made, made if form == "f" else type("TestK", (), {"F": made})().F, rng.random() < 0.85))
            return self.plug(*self.tests[-1])
        kw: dict[str, Any] = {}
        if o["sc"]:
            kw["scope"] = self.levels[o["sc"]]
        elif rng.random() < 0.1:
            kw["scope"] = "infer"
        if not o["auto"] or rng.random() < 0.1:
            kw["auto_open_scope"] = o["auto"]
        if o["pol"]:
            kw["dependency_registration_policy"] = DP[o["pol"]]
        inject = self.rc.inject(**kw) if kw or rng.random() < 0.5 else self.rc.inject
        match form:
            case "m":
                fn = type("K", (), {"F": inject(ns["F"])})().F
            case "bound":
                fn = inject(type("K", (), {"F": ns["F"]})().F)
            case "obj":
                fn = inject(type("K", (), {"__call__": ns["F"]})())
            case "part":
                fn = inject(functools.partial(ns["F"]))
            case "static":
                fn = type("K", (), {"F": staticmethod(inject(ns["F"]))}).F
            case _:
                fn = inject(ns["F"])
        self.fns.append(fn)
        names = list(inspect.signature(fn).parameters)
        return "ok(" + ",".join(n[1:] for n in names) + ")"

    def plug(self, made: Any, fn: Any, collect: bool) -> str:
        """Make a test of a function as pytest does: collect it, and begin to run it."""
        if collect:
            for _ in range(self.rng.randint(1, 2)):
                pytest_plugin.pytest_pycollect_makeitem(SimpleNamespace(istestfunction=lambda *_: True), "test_it", made)
        item = SimpleNamespace(obj=fn, _diwire_container=SimpleNamespace(compile=self.compiled))
        hook = pytest_plugin.pytest_pyfunc_call(item)
        context, pytest_plugin.resolver_context = pytest_plugin.resolver_context, self.rc
        try:
            next(hook)
        finally:
            pytest_plugin.resolver_context = context
        self.fns.append(item.obj)
        names = list(inspect.signature(fn if collect else item.obj).parameters)
        self.hooks[len(self.fns)] = (hook, item, fn, list(inspect.signature(fn).parameters))
        return "ok(" + ",".join(n[1:] for n in names) + ")"

    def compiled(self) -> Any:
        try:
            return self.container.compile()
        except Exception:  # noqa: BLE001  reported by the operation that compiles again
            return None

    def unplug(self, f: int) -> str:
        """The end of the test that function f belongs to, if any."""
        if f not in self.hooks:
            return ""
        hook, item, fn, names = self.hooks.pop(f)
        ended = next(hook, None) is None
        restored = item.obj is fn and list(inspect.signature(fn).parameters) == names
        return "" if ended and restored else "?test"

    def injected(self, p: dict) -> Any:
        dep = self.need({**p, "k": p["a"]})
        if p["a"] == "x" or (p["a"] == "y" and self.rng.random() < 0.5):
            return dep
        return Injected[dep]

    def dep(self, d: dict) -> Any:
        return super().dep({**d, "k": d["a"]} if "a" in d else d)


class Call:
    def __init__(self, o: dict, body: Any) -> None:
        self.o, self.body = o, body
        self.entered = False
        self.fin: dict = {}
        self.ret: Any = None


class Turns:
    """Threads run one at a time; at the end of an operation another one may go on."""

    def __init__(self, rng: random.Random, ids: list[int]) -> None:
        self.rng, self.alive = rng, list(ids)
        self.cond = threading.Condition()
        self.now = rng.choice(ids)

    def wait(self, me: int) -> None:
        with self.cond:
            self.cond.wait_for(lambda: self.now == me)

    def switch(self, me: int) -> None:
        with self.cond:
            self.now = self.rng.choice(self.alive)
            self.cond.notify_all()
            self.cond.wait_for(lambda: self.now == me)

    def leave(self, me: int) -> None:
        with self.cond:
            self.alive.remove(me)
            if self.alive:
                self.now = self.rng.choice(self.alive)
                self.cond.notify_all()


DEFAULT = {
    **gen_core.DEFAULT,
    "types": (2, 5),
    "steps": (16, 34),
    "ops": dict(res=7, ent=3, cls=1.2, call=2, reg=0.5, dec=0.15, bad=0.1, cmp=0.2, bnd=3, cll=7, dcl=2, flo=1.2, plg=1.2),
    "p_async": 0.12,
    "p_unregistered": 0.04,
    "p_defects": 0.05,
    "p_urc": 0.8,
    "p_ctx": 0.65,
    "dep_kinds": dict(p=10, m=2, a=1, h=2, g=1, x=0.6, y=1.2, f=0.5),
    "tok_kinds": dict(p=12, m=2, a=1.5, h=1, g=0.6, x=0.7, y=0.7),
    "p_deeper": 0.02,
    "p_fail": 0.1,
    "p_exc": 0.3,
    "max_scopes": 8,
    "par_kinds": dict(p=8, m=3, a=1, h=2, g=1, v=0.6, w=0.4, x=0.9, y=2.5),
    "p_plain": 0.4,
    "p_late": 0.15,
    "p_at": (2, 1.5, 1),     # weights: handle, context, container
    "p_explicit": 0.25,      # resolver given for the call
    "p_cx": 0.35,
    "p_fscope": 0.35,
    "mp": "eer",
    "dp": "iir",
    "autoreg": 1,
    "p_pol": 0.15,
    "p_root_close": 0.0,
    "depth": 4,
}


class InjGen(gen_core.Gen):
    world_class = InjWorld

    def __init__(self, seed: int, profile: dict) -> None:
        self.late = False
        super().__init__(seed, {**DEFAULT, **profile})
        self.levels = []
        self.fns: list[dict] = []
        self.nfl = 1
        self.fl = 1
        self.bst: dict[int, list[int | None]] = {1: []}
        self.lazy_node: list[int | None] = []
        self.node_level: dict[int, int] = {}
        self.pins: list[int] = []
        self.left = 0
        self.turns: dict[int, Turns] = {}
        self.user = 0
        self.handle_wr: list[bool] = []

    def make_cfg(self, cfg: dict) -> dict:
        cfg["urc"] = self.rng.random() < self.p["p_urc"]
        cfg["up"] = self.rng.random() >= self.p["p_late"]
        return cfg

    # ---- bookkeeping ---------------------------------------------------
    def perform(self, o: dict) -> dict:
        o = {**o, "fl": self.fl}
        before = len(self.world.handles)
        done = self.world.run(o)
        self.ops.append(done)
        self.seen_handles(before, self.place(o))
        return done

    def seen_handles(self, before: int, node: int | None) -> None:
        self.lazy_node += [node] * (len(self.world.handles) - before)

    def bound(self) -> int | None:
        return self.bst[self.fl][-1] if self.bst[self.fl] else None

    def place(self, o: dict) -> int | None:
        """The node an operation takes place at."""
        if o["op"] == "call":
            return self.lazy_node[o["h"] - 1]
        at = o.get("at", 0)
        if at > 0:
            return self.handle_node[at - 1]
        if self.bound() is not None and (at == -1 or self.cfg["urc"]):
            return self.bound()
        return self.root_node

    def node_usable(self, n: int | None) -> bool:
        while n is not None:
            if not self.nodes[n][1]:
                return False
            n = self.nodes[n][0]
        return True

    def usable(self, h: int) -> bool:
        if h == -1:
            return self.node_usable(self.bound())
        return super().usable(h)

    def pinned(self, node: int) -> bool:
        for n in [*self.pins, *(x for st in self.bst.values() for x in st)]:
            while n is not None:
                if n == node:
                    return True
                n = self.nodes[n][0]
        return False

    def new_node(self, parent: int | None, level: int = 0) -> int:
        self.nodes.append([parent, True])
        self.node_level[len(self.nodes) - 1] = level
        return len(self.nodes) - 1

    def level_of(self, node: int | None) -> int:
        """Level of a node, 0 if unknown."""
        return self.lad[0]["l"] if node is None else self.node_level.get(node, 0)

    def ensure_root(self) -> None:
        if self.root_node is None:
            self.root_node = self.new_node(None, self.lad[0]["l"])

    def reg(self, o: dict) -> None:
        if self.perform(o)["r"] == "ok":
            self.sc_of[o["key"]] = o["sc"]
            self.root_node = None

    def dec(self, o: dict) -> None:
        if self.perform(o)["r"] == "ok":
            self.root_node = None

    def tpl(self, o: dict) -> None:
        sp = self.space
        sp.specs.setdefault(o["x"], []).append(o["deps"])
        if self.perform(o)["r"] == "ok":
            sp.scope[o["x"]] = o.get("sc", sp.scope.get(o["x"], 0))
            self.root_node = None
        sp.scope.setdefault(o["x"], 0)

    tdec = tpl

    def close(self, h: int) -> None:
        if h == 0 and (self.pins or any(self.bst.values())):
            return
        if h and self.pinned(self.handle_node[h - 1]):
            return
        super().close(h)

    # ---- the history -----------------------------------------------------
    def run(self) -> None:
        loop = asyncio.new_event_loop()
        try:
            loop.run_until_complete(self.main())
        finally:
            loop.run_until_complete(loop.shutdown_asyncgens())
            loop.close()
        self.world.finish()

    async def main(self) -> None:
        rng, p = self.rng, self.p
        if not self.cfg["up"]:
            for _ in range(rng.randint(1, 4)):
                r = rng.random()
                if r < 0.5 or not self.fns:
                    self.do_dcl()
                elif r < 0.7:
                    await self.do_cll()
                elif r < 0.85:
                    self.perform({"op": "res", "at": -1, "tok": {"k": "p", "key": 10}, "md": rng.choice("sa"), "pol": "", "fc": []})
                else:
                    self.perform({"op": "ent", "at": -1, "req": 0, "ctx": []})
            self.perform({"op": "con"})
            self.cfg["up_now"] = True
        for t in range(1, self.nt + 1):
            if rng.random() < p["p_unregistered"]:
                continue
            for _ in range(2 if rng.random() < p["p_comp"] * 2 else 1):
                self.reg(self.registration(t))
        self.more_registrations()
        for _ in range(rng.randint(1, 3)):
            self.do_dcl()
        self.left = rng.randint(*p["steps"])
        await self.block(False, 0, self.left)
        for h in range(len(self.handle_node), 0, -1):
            if self.usable(h) and h not in self.closed_handles and rng.random() < 0.8:
                self.close(h)
        if rng.random() < 0.7 and not self.container_closed and self.root_node is not None:
            self.close(0)

    async def block(self, sync: bool, depth: int, n: int) -> None:
        """Up to n operations in the current flow; sync: it may not suspend."""
        fl = self.fl
        children: list[asyncio.Future] = []
        while n > 0 and self.left > 0 and not self.container_closed:
            n -= 1
            self.left -= 1
            kind = pick(self.rng, self.p["ops"])
            if kind in ("bnd", "cll", "flo", "plg") and depth >= self.p["depth"]:
                kind = "res"
            if kind == "cll":
                await self.do_cll(sync, depth)
            elif kind == "plg":
                await self.do_plg(sync, depth)
            elif kind == "bnd":
                await self.do_bnd(sync, depth)
            elif kind == "flo":
                await self.do_flo(sync, depth, children)
            else:
                getattr(self, "do_" + kind)()
            await self.boundary(sync, fl)
        if children:
            await asyncio.gather(*children)
            self.fl = fl

    async def boundary(self, sync: bool, fl: int) -> None:
        if fl in self.turns:
            self.turns[fl].switch(fl)
        elif not sync:
            for _ in range(self.rng.randint(0, 2)):
                await asyncio.sleep(0)
        self.fl = fl

    async def do_flo(self, sync: bool, depth: int, children: list) -> None:
        rng = self.rng
        kind = rng.choice(["copy", "empty", "thread", "thread", *([] if sync else ["task"] * 4)])
        fl = self.fl
        count = rng.randint(1, 2) if kind in ("thread", "task") else 1
        ids = []
        for _ in range(count):
            self.nfl += 1
            ids.append(self.nfl)
            inh = kind in ("copy", "task")
            self.perform({"op": "flo", "new": self.nfl, "inh": inh})
            self.bst[self.nfl] = list(self.bst[fl]) if inh else []
        n = rng.randint(3, 7)

        async def flow(me: int, sync_: bool) -> None:
            self.fl = me
            await self.block(sync_, depth + 1, n)
            self.bst[me] = []

        if kind == "task":
            for me in ids:
                children.append(asyncio.ensure_future(flow(me, False)))
        elif kind == "thread":
            outer = self.turns.get(fl)
            turns = Turns(rng, ids)
            failures: list[BaseException] = []

            def thread(me: int) -> None:
                turns.wait(me)
                loop = asyncio.new_event_loop()
                try:
                    loop.run_until_complete(flow(me, True))
                except BaseException as e:  # noqa: BLE001
                    failures.append(e)
                finally:
                    loop.close()
                    turns.leave(me)

            ts = []
            for me in ids:
                self.turns[me] = turns
                ts.append(threading.Thread(target=thread, args=(me,)))
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            assert outer is self.turns.get(fl)
            if failures:
                raise failures[0]
        else:
            ctx = contextvars.copy_context() if kind == "copy" else contextvars.Context()
            ctx.run(drive, flow(ids[0], True))
        self.fl = fl

    def pick_at(self, lvl: int = 0) -> int | None:
        """Where to ask: a scope handle, the context (-1) or the container (0)."""
        rng = self.rng
        at = rng.choices([1, -1, 0], self.p["p_at"])[0]
        if at == 1:
            live = [h for h in range(1, len(self.handle_node) + 1) if self.usable(h)]
            fit = [h for h in live if self.level(h) >= lvl]
            at = rng.choice(fit or live or [-1])
        if self.container_closed and at <= 0 and self.bound() is None:
            return None
        if at <= 0 and not self.usable(-1):
            return None
        return at

    def do_res(self) -> None:
        rng, p = self.rng, self.p
        k = pick(rng, p["tok_kinds"])
        key = self.ctx_key() if k in "xy" else self.any_key()
        if self.auto and k in "phgm" and rng.random() < (0.06 if self.cfg["mp"] == "e" else 0.3):
            key = rng.choice(self.auto) * 10
        at = self.pick_at(0 if k in "xy" else self.depth_of(key))
        if at is None:
            return
        lvl = self.level_of(self.place({"op": "res", "at": at}))
        if k not in "xy" and lvl < self.depth_of(key) and lvl and rng.random() < 0.7:
            key = rng.choice([x for x in sorted(self.sc_of) if self.sc_of[x] <= lvl] or [key])
        if k == "a":
            key = key // 10 * 10
        done = self.perform({"op": "res", "at": at, "tok": {"k": k, "key": key},
                             "md": "a" if rng.random() < p["p_async_op"] else "s",
                             "pol": rng.choice("erc") if at == 0 and self.cfg["urc"] and rng.random() < p["p_pol"] else "",
                             "fc": self.faults()})
        if at <= 0 and self.bound() is None:
            self.after_root_request(done)

    def do_call(self) -> None:
        live = [h for h in range(1, len(self.lazy_node) + 1) if self.node_usable(self.lazy_node[h - 1])]
        if self.container_closed or not live:
            return
        self.perform({"op": "call", "h": self.rng.choice(live), "fc": self.faults()})

    def do_ent(self, lvl: int = 0) -> int | None:
        rng, p = self.rng, self.p
        if len([h for h in range(1, len(self.handle_node) + 1) if self.usable(h)]) >= p["max_scopes"]:
            return None
        at = self.pick_at()
        if at is None:
            return None
        o: dict = {"op": "ent", "at": at}
        node = self.place(o)
        cur = self.level_of(node)
        deeper = [e["l"] for e in self.lad if e["l"] > cur]
        if cur == 0 or rng.random() < 0.5:
            req = 0
        elif rng.random() < p["p_bad_enter"]:
            req = rng.choice([e["l"] for e in self.lad] + [99, *self.out])
            if req == cur == self.lad[-1]["l"]:
                return None
        else:
            req = rng.choice(deeper) if deeper else 0
        wr = self.handle_wr[at - 1] if at > 0 else at == -1 or self.cfg["urc"]
        ctx = self.some_context() if rng.random() < p["p_ctx"] else []
        o.update(req=req, ctx=ctx)
        done = self.perform(o)
        if at <= 0 and self.bound() is None:
            self.after_root_request(done)
            node = self.root_node
        if done["r"] != "ok":
            return None
        self.levels.append(0)
        self.handle_wr.append(wr)
        if req == cur and cur:
            self.handle_node.append(node)
            self.closed_handles.add(len(self.handle_node))
            self.levels[-1] = cur
        else:
            self.levels[-1] = req or (self.default_next(cur) if 0 < cur < self.lad[-1]["l"] else 0)
            self.handle_node.append(self.new_node(node, self.levels[-1]))
        return len(self.handle_node)

    def some_context(self) -> list:
        rng = self.rng
        ctx: list = []
        for _ in range(rng.randint(1, 2)):
            k = self.ctx_key()
            if all(k != x[0] for x in ctx):
                ctx.append([k, "n" if rng.random() < 0.1 else f"c{rng.randint(1, 40)}"])
        return ctx

    def do_cmp(self) -> int:
        """Handle of the compiled root, 0 if there is none."""
        if not self.pins or not self.container_closed:
            done = self.perform({"op": "cmp"})
            if done["r"] == "ok":
                self.ensure_root()
                self.handle_node.append(self.root_node)
                self.closed_handles.add(len(self.handle_node))
                self.levels.append(self.lad[0]["l"])
                self.handle_wr.append(self.cfg["urc"])
                return len(self.handle_node)
        return 0

    async def do_bnd(self, sync: bool, depth: int) -> None:
        rng, p = self.rng, self.p
        bound = {n for st in self.bst.values() for n in st}
        live = [h for h in range(1, len(self.handle_node) + 1)
                if self.usable(h) and h not in self.closed_handles and self.handle_node[h - 1] not in bound]
        h = 0
        if depth > 0 or self.nfl > 1 or rng.random() < 0.85 or self.container_closed:
            if not live or rng.random() < 0.4:
                got = self.do_ent()
                if got is None or got in self.closed_handles or self.handle_node[got - 1] in bound:
                    return
                h = got
            else:
                h = rng.choice(live)
        fl = self.fl
        md = rng.choice("sa")
        done = self.perform({"op": "bnd", "h": h, "md": md})
        if done["r"] != "ok":
            return
        if h == 0:
            self.ensure_root()
            self.handle_node.append(self.root_node)
            self.closed_handles.add(len(self.handle_node))
            self.levels.append(self.lad[0]["l"])
            self.handle_wr.append(self.cfg["urc"])
            node = self.root_node
        else:
            node = self.handle_node[h - 1]
            self.closed_handles.add(h)
        pushes = self.wrapped(h)
        self.pins.append(node)
        if pushes:
            self.bst[fl].append(node)
        await self.block(sync, depth + 1, self.left if h == 0 else rng.randint(2, 8))
        self.fl = fl
        if pushes:
            self.bst[fl].pop()
        self.pins.remove(node)
        fr = self.failing_releases()
        if h == 0 and (self.pins or any(self.bst.values())):
            raise RuntimeError("container left while something is bound")
        self.perform({"op": "unb", "md": md, "h": h, "exc": "X" if rng.random() < p["p_exc"] else "", "fr": fr})
        if h == 0:
            self.container_closed = True
        self.nodes[node][1] = False

    def wrapped(self, h: int) -> bool:
        """Whether entering the block of handle h binds it."""
        return self.cfg["urc"] if h == 0 else self.handle_wr[h - 1]

    def failing_releases(self) -> list[int]:
        rng = self.rng
        if rng.random() >= self.p["p_relfail"]:
            return []
        return sorted(set(rng.choices(range(1, self.pid + 2), k=rng.randint(1, 4))))

    # ---- callables ---------------------------------------------------------
    def params(self, sc: int) -> list[dict]:
        rng, p = self.rng, self.p
        out: list[dict] = []
        shape = [("po", rng.choice([0, 0, 0, 1, 2])), ("pk", rng.choice([0, 1, 2, 3])),
                 ("va", int(rng.random() < 0.15)), ("ko", rng.choice([0, 0, 1, 2])), ("vk", int(rng.random() < 0.15))]
        seen_default = False
        for k, count in shape:
            for _ in range(count):
                if k in ("va", "vk"):
                    out.append({"k": k, "a": "-", "key": 0, "d": False})
                    continue
                d = rng.random() < p["p_default"] or (seen_default and k in POSITIONAL)
                if k in POSITIONAL and d:
                    seen_default = True
                if rng.random() < p["p_plain"]:
                    out.append({"k": k, "a": "-", "key": 0, "d": d})
                    continue
                a = pick(rng, p["par_kinds"])
                if a in "xy":
                    key = self.ctx_key()
                else:
                    key = self.any_key()
                    if self.auto and rng.random() < (0.25 if self.cfg["dp"] == "r" else 0.05):
                        key = rng.choice(self.auto) * 10
                    if a in "mvw" and rng.random() < 0.35:
                        key = (self.nt + 1 + self.p["autoreg"] + rng.randint(0, 2)) * 10
                    if a == "a":
                        key = key // 10 * 10
                out.append({"k": k, "a": a, "key": key, "d": d})
        return out

    def do_dcl(self) -> None:
        rng, p = self.rng, self.p
        sc = 0
        if rng.random() < p["p_fscope"]:
            sc = rng.choice([e["l"] for e in self.lad])
        o = {"op": "dcl", "ps": self.params(sc), "sc": sc, "auto": rng.random() >= 0.12,
             "pol": rng.choice("ir") if rng.random() < p["p_pol"] else "", "as": rng.random() < 0.4}
        done = self.perform(o)
        if done["r"].startswith("ok"):
            self.fns.append(o)
            self.root_node = None if self.root_node is None else self.root_node

    def value(self) -> tuple[str, Any]:
        self.user += 1
        if self.rng.random() < 0.15:
            return "n", None
        return f"u{self.user}", self.world.name(gen_core_value(self.rng), f"u{self.user}")

    def arguments(self, ps: list[dict]) -> tuple[list, list, dict]:
        """What the caller passes: [[parameter, value]], positional values, keywords."""
        rng = self.rng
        arg: list = []
        pos: list = []
        kw: dict = {}
        order = [i for i, q in enumerate(ps, 1) if q["k"] in POSITIONAL]
        need = [i for i in order if ps[i - 1]["k"] == "po" and ps[i - 1]["a"] == "-" and not ps[i - 1]["d"]]
        least = order.index(need[-1]) + 1 if need else 0
        npos = least if rng.random() < 0.6 else rng.randint(least, len(order))
        for i in order[:npos]:
            text, v = self.value()
            arg.append([i, text])
            pos.append(v)
        for i, q in enumerate(ps, 1):
            if i in order[:npos] or q["k"] in ("po", "va", "vk"):
                continue
            must = q["a"] == "-" and not q["d"]
            if must or rng.random() < (0.4 if q["a"] == "-" else 0.15):
                text, v = self.value()
                arg.append([i, text])
                kw[f"p{i}"] = v
        for i, q in enumerate(ps, 1):
            if q["k"] == "va" and npos == len(order) and rng.random() < 0.6:
                vs = [self.value() for _ in range(rng.randint(1, 2))]
                arg.append([i, "(" + ",".join(t for t, _ in vs) + ")"])
                pos += [v for _, v in vs]
            elif q["k"] == "vk" and rng.random() < 0.6:
                vs = [self.value() for _ in range(rng.randint(1, 2))]
                arg.append([i, "(" + ",".join(t for t, _ in vs) + ")"])
                kw.update({f"x{j}": v for j, (_, v) in enumerate(vs)})
        return arg, pos, kw

    async def do_plg(self, sync: bool, depth: int) -> None:
        """A test function of the pytest plugin: an injected callable given the
        compiled root of the container of its test."""
        rng = self.rng
        if self.container_closed or self.world.container is None:
            return
        tests = [f for f in self.fns if f.get("plg") and "again" not in f]
        o = {"op": "dcl", "ps": self.params(0), "sc": 0, "auto": True, "pol": "", "as": rng.random() < 0.4, "plg": True}
        if tests and rng.random() < 0.4:
            n = rng.randint(1, len(tests))
            o = {**tests[n - 1], "again": n}
        if not any(q["a"] in "pmahgvw" for q in o["ps"]):
            return
        done = self.perform(o)
        if not done["r"].startswith("ok"):
            self.world.tests = self.world.tests[:len(tests)]
            return
        self.fns.append(o)
        f = len(self.fns)
        h = self.do_cmp()
        if h and self.usable(h):
            await self.do_cll(sync, depth, f, h)
        self.world.unplug(f)

    async def do_cll(self, sync: bool = True, depth: int = 9, f: int = 0, rs: int = -1) -> None:
        rng, p, w = self.rng, self.p, self.world
        known = [n for n, x in enumerate(self.fns, 1) if not x.get("plg")]
        if not known and not f:
            return
        test = f > 0
        f = f or rng.choice(known)
        fn = self.fns[f - 1]
        live = [h for h in range(1, len(self.handle_node) + 1) if self.usable(h)]
        if test:
            pass
        elif live and rng.random() < p["p_explicit"]:
            rs = rng.choice(live)
        elif self.container_closed and self.bound() is None or not self.usable(-1):
            return
        arg, pos, kw = self.arguments(fn["ps"])
        r = rng.random() * (1 if fn["sc"] else 2)
        cx, ctx = "no", []
        if r < p["p_cx"]:
            cx, ctx = "yes", self.some_context()
            kw["diwire_context"] = {w.key(k, meta=False): w.context_value(v) for k, v in ctx}
        elif r < p["p_cx"] + 0.03:
            cx = "bad"
            kw["diwire_context"] = rng.choice([3, [], "ab"])
        elif rng.random() < 0.1:
            kw["diwire_context"] = None
        if rs > 0 and not test:
            kw["diwire_resolver"] = w.scopes[rs - 1]
        fl = self.fl
        o = {"op": "cll", "f": f, "arg": arg, "rs": rs, "cx": cx, "ctx": ctx,
             "fc": self.faults(), "fr": self.failing_releases(), "fl": fl}
        base = self.handle_node[rs - 1] if rs > 0 else self.bound() if self.bound() is not None else self.root_node
        cur = self.level_of(base)
        level = 0   # what the body sees is only known in these cases
        if cur and (fn["sc"] or not fn["auto"]):
            wraps = self.handle_wr[rs - 1] if rs > 0 else self.bound() is not None or self.cfg["urc"]
            if fn["auto"] and fn["sc"] > cur:
                level = fn["sc"] if wraps else 0
            elif rs <= 0:
                level = cur
        node = self.new_node(base, level)
        before = len(w.handles)

        async def body(vals: tuple, sync_: bool) -> Any:
            w.current = None
            call.entered = True
            text = "call(" + ",".join(w.show(v) for v in vals) + ")"
            self.ops.append(w.end(o, text))
            self.seen_handles(before, node)
            self.pins.append(node)
            self.bst[fl].append(node)
            await self.block(sync_, depth + 1, rng.randint(0, 5))
            self.fl = fl
            self.bst[fl].pop()
            self.pins.remove(node)
            call.fin = {"op": "fin", "exc": "X" if rng.random() < p["p_exc"] else "",
                        "fr": self.failing_releases(), "fl": fl}
            w.begin(call.fin)
            if call.fin["exc"]:
                w.body = Body("body")
                raise w.body
            call.ret = object()
            return call.ret

        call = Call(o, body)
        w.begin(o)
        w.sbody = lambda vals: drive(body(vals, True))
        w.abody = lambda vals: body(vals, sync)
        try:
            v = w.fns[f - 1](*pos, **kw)
            if inspect.isawaitable(v) != fn["as"]:
                r = "?kind"
            elif fn["as"]:
                v = await v
            r = "ok" if v is call.ret and call.entered else "?ret"
        except BaseException as e:  # noqa: BLE001
            r = w.error(e)
            w.keep.append(e)
            if call.entered and not call.fin:
                raise RuntimeError("the body failed") from e
            e.__traceback__ = None
        r = w.unplug(f) or r
        if call.entered:
            if not call.fin:
                raise RuntimeError("the body did not finish: " + r)
            self.ops.append(w.end(call.fin, r))
        else:
            self.ops.append(w.end(o, r))
            self.seen_handles(before, node)
        self.nodes[node][1] = False


def gen_core_value(rng: random.Random) -> Any:
    from world import Plain, Value

    return (Value if rng.random() < 0.5 else Plain)()


def generate(seed: int, profile: dict) -> dict:
    g = InjGen(seed, profile)
    aborted = ""
    try:
        g.run()
    except Exception:  # noqa: BLE001  the generator lost track of what the code did
        aborted = traceback.format_exc()
    out = {"c": {k: g.cfg[k] for k in ("lad", "mp", "dp", "dl", "cls", "urc", "up")}, "ops": g.ops}
    if g.space:
        try:
            g.space.close()
        except generics.Endless:  # left out: another history takes its place
            return generate(seed ^ 1 << 40, profile)
        out["c"]["gen"] = g.space.cfg
    if aborted:
        out["aborted"] = aborted
    return out
