"""Executes abstract operations on a real diwire container and records what the
caller and the user-written providers observe.  No expectations live here."""
from __future__ import annotations

import abc
import asyncio
import dataclasses
import inspect
import random
import signal
import sys
from collections.abc import AsyncGenerator, Generator
from contextlib import asynccontextmanager, contextmanager
from typing import Annotated, Any, NewType, get_origin

from pydantic_settings import BaseSettings

sys.path.insert(0, "/repo/src")

import diwire  # noqa: E402
import generics  # noqa: E402
from diwire import (  # noqa: E402
    All,
    AsyncProvider,
    BaseScope,
    Component,
    Container,
    DependencyRegistrationPolicy,
    FromContext,
    Injected,
    Lifetime,
    LockMode,
    Maybe,
    MissingPolicy,
    Provider,
    resolver_context,
)
from diwire import exceptions as X  # noqa: E402
from diwire._internal.scope import BaseScopes  # noqa: E402

MP = {"e": MissingPolicy.ERROR, "r": MissingPolicy.REGISTER_ROOT, "c": MissingPolicy.REGISTER_RECURSIVE}
DP = {"i": DependencyRegistrationPolicy.IGNORE, "r": DependencyRegistrationPolicy.REGISTER_RECURSIVE}
LT = {"S": Lifetime.SCOPED, "T": Lifetime.TRANSIENT}
LOCK = {"t": LockMode.THREAD, "a": LockMode.ASYNC, "n": LockMode.NONE, "u": "auto"}

ERRORS = (
    (X.DIWireDependencyNotRegisteredError, "E:NotRegistered"),
    (X.DIWireScopeMismatchError, "E:Scope"),
    (X.DIWireAsyncDependencyInSyncContextError, "E:Async"),
    (X.DIWireInvalidProviderSpecError, "E:InvalidSpec"),
    (X.DIWireInvalidRegistrationError, "E:InvalidReg"),
    (X.DIWireResolverNotSetError, "E:NotSet"),
    (X.DIWireInvalidGenericTypeArgumentError, "E:Generic"),
)


class BoomE(Exception):
    pass


class BoomB(BaseException):
    pass


class BoomC(asyncio.CancelledError):
    pass


class BoomX(SystemExit):
    pass


class BoomK(KeyboardInterrupt):
    pass


BOOMS = (BoomE, BoomE, BoomE, BoomB, BoomC)
# KeyboardInterrupt/SystemExit would escape an event loop, so they are only
# raised by synchronous operations
BOOMS_SYNC = (*BOOMS, BoomX, BoomK)


class Body(Exception):
    """Raised by the body of a scope."""


class Hang(BaseException):
    """The operation did not end in time."""


def _alarm(_sig: int, _frame: Any) -> None:
    raise Hang


OP_SECONDS = 10.0


class Default:
    def __repr__(self) -> str:
        return "D"


D = Default()


class Value:
    """An object made by a provider; hostile to truth and equality shortcuts."""

    def __bool__(self) -> bool:
        return False

    def __eq__(self, other: object) -> bool:
        return True

    def __hash__(self) -> int:
        return 7

    def __len__(self) -> int:
        return 0


class Plain:
    pass


def make_ladder(lad: list[dict]) -> tuple[Any, dict[int, BaseScope]]:
    fields = [
        (f"L{e['l']}", BaseScope, dataclasses.field(default=BaseScope(e["l"], skippable=e["sk"])))
        for e in lad
    ]
    cls = dataclasses.make_dataclass("Ladder", fields, bases=(BaseScopes,), frozen=True)
    inst = cls()
    return inst, {e["l"]: getattr(inst, f"L{e['l']}") for e in lad}


NO_HINT: Any = object()


class World:
    sleep = staticmethod(asyncio.sleep)
    blocks = True               # without bindings, scopes may be entered and left as blocks
    mid_source = ""             # source run by asynchronous providers after they were called
    p_lock = 0.3
    p_infer = 0.25              # registrations whose key is read off the return annotation
    lock_choices = (LockMode.THREAD, LockMode.ASYNC, LockMode.NONE)

    def __init__(self, cfg: dict, rng: random.Random) -> None:
        self.cfg = cfg
        self.rng = rng
        self.names: dict[int, str] = {}
        self.keep: list[Any] = []
        self.oc = 0
        self.handles: list[Any] = []
        self.ev: list[str] = []
        self.fc: set[int] = set()
        self.fr: set[int] = set()
        self.body: BaseException | None = None
        self.raised: list[tuple[str, BaseException]] = []
        self.live = True
        self.nests: dict[int, tuple[int, str]] = {}
        self.awaited: dict[int, str] = {}
        self.loop = asyncio.new_event_loop()
        self.in_async = False
        self.ladder, self.levels = make_ladder([*({"l": x, "sk": False} for x in cfg.get("out", ())), *cfg["lad"]])
        self.types: dict[int, Any] = {}
        self.cls = {e["t"]: e for e in cfg["cls"]}
        self.ctxvals: dict[str, Any] = {}
        self.par = dict(cfg["gen"]["par"]) if cfg.get("gen") else {}
        self.py = generics.PyTypes(self, cfg["gen"]) if cfg.get("gen") else None
        self.urc = cfg.get("urc", True)
        self.scopes: list[Any] = []
        self.container: Any = None
        self.start()

    def start(self) -> None:
        self.container = self.make_container()

    def make_container(self, **kw: Any) -> Container:
        cfg = self.cfg
        return Container(
            self.levels[cfg["lad"][0]["l"]],
            LT[cfg["dl"]],
            lock_mode=LOCK[cfg.get("lock", "u")],
            missing_policy=MP[cfg["mp"]],
            dependency_registration_policy=DP[cfg["dp"]],
            use_resolver_context=self.urc,
            **kw,
        )

    # ---- naming -------------------------------------------------------
    def name(self, obj: Any, text: str) -> Any:
        self.keep.append(obj)
        self.names[id(obj)] = text
        return obj

    def show(self, v: Any) -> str:
        if v is None:
            return "n"
        if v is D:
            return "d"
        got = self.names.get(id(v))
        if got is not None:
            return got
        if self.py is not None and (isinstance(v, (type, NewType)) or get_origin(v) is not None):
            return self.show_type(v)
        if type(v) is tuple:
            return "(" + ",".join(self.show(x) for x in v) + ")"
        if callable(v) and not isinstance(v, type):
            self.handles.append(v)
            self.name(v, f"h{len(self.handles)}")
            return f"h{len(self.handles)}"
        return f"?{type(v).__name__}"

    def show_type(self, v: Any) -> str:
        try:
            return f"t{generics.intern(self.cfg['gen'], self.py.term(v))}"
        except StopIteration:
            return f"?{v}"

    def error(self, e: BaseException) -> str:
        for tag, exc in self.raised:
            if exc is e:
                return "E:" + tag
        if isinstance(e, Body):
            return "E:body"
        for cls, text in ERRORS:
            if isinstance(e, cls):
                return text
        return f"E:!{type(e).__name__}"

    # ---- keys ---------------------------------------------------------
    def type_of(self, t: int) -> Any:
        if 40 < t < generics.FIRST:
            return self.py.plain(t)
        if t >= generics.FIRST:
            return self.py.of(self.cfg["gen"]["terms"][t - generics.FIRST]["tm"])
        if t not in self.types:
            if t in self.cls:
                self._cls_type(t, self.cls[t])
            else:
                bases = (self.type_of(self.par[t]),) if t in self.par else ()
                self.types[t] = abc.ABCMeta(
                    f"T{t}", bases, {"m": abc.abstractmethod(lambda self: None), "__module__": __name__}
                )
        return self.types[t]

    def _cls_type(self, t: int, entry: dict) -> None:
        if not entry["ok"]:
            self.types[t] = abc.ABCMeta(
                f"T{t}", (), {"m": abc.abstractmethod(lambda self: None), "__module__": __name__}
            )
            return
        if entry.get("set"):
            self.types[t] = self._settings(1000 + t, f"T{t}")
            return
        # the class may mention itself, so its annotations are filled in afterwards
        cls = self._class(1000 + t, entry["deps"], f"T{t}", bind=False)
        self.types[t] = cls
        for i, d in enumerate(entry["deps"]):
            hint = self.need(d)
            cls.__init__.__annotations__[f"a{i}"] = hint
            if f"a{i}" in cls.__dict__.get("__annotations__", {}):
                cls.__annotations__[f"a{i}"] = hint

    def _settings(self, pid: int, name: str) -> Any:
        world = self

        class Settings(BaseSettings):
            limit: int = 3

            def __init__(self) -> None:
                super().__init__()
                world.name(self, f"o{world.called(pid, ())}")

        Settings.__name__ = Settings.__qualname__ = name
        return Settings

    def component(self, n: int) -> Any:
        return Component((1, "two", (3,), "4", 5.5, "six", 7, "8", frozenset({9}))[n - 1])

    def key(self, key: int, meta: bool = True) -> Any:
        t, n = divmod(key, 10)
        return self.annotated(self.type_of(t), n, meta)

    def annotated(self, base: Any, n: int, meta: bool = True) -> Any:
        parts: list[Any] = []
        if n:
            parts.append(self.component(n))
        if meta and self.rng.random() < 0.25:
            parts.insert(self.rng.randint(0, len(parts)), self.rng.choice(["m", "doc", 0, None]))
        if not parts:
            return base
        return Annotated[(base, *parts)]

    def dep(self, d: dict) -> Any:
        if d["k"] == "t":
            v = self.py.of(d["tm"])
            return type[v] if self.rng.random() < 0.5 else v
        if "tm" in d:
            k = self.annotated(self.py.of(d["tm"]), d["n"])
        else:
            k = self.key(d["key"])
        return {
            "p": lambda: k,
            "f": lambda: k,
            "m": lambda: Maybe[k],
            "a": lambda: All[self.annotated(self.py.of(d["tm"]), 0) if "tm" in d else self.key(d["key"] // 10 * 10)],
            "h": lambda: Provider[k],
            "g": lambda: AsyncProvider[k],
            "v": lambda: Maybe[Provider[k]],
            "w": lambda: Maybe[AsyncProvider[k]],
            "x": lambda: FromContext[k],
            "y": lambda: Maybe[FromContext[k]],
        }[d["k"]]()

    def need(self, d: dict) -> Any:
        """A dependency of a provider; a collection is there even if optional."""
        x = self.dep(d)
        return Maybe[x] if d["k"] == "a" and self.rng.random() < 0.25 else x

    # ---- providers ------------------------------------------------------
    def called(self, pid: int, args: tuple) -> int:
        text = f"p{pid}({','.join(self.show(a) for a in args)})"
        nest, md = self.nests.get(pid, (0, ""))
        if md == "s" and callable(h := args[nest - 1]):
            text += f"[{self.show(h())}]"
        elif pid in self.awaited:
            text += f"[{self.awaited.pop(pid)}]"
        if pid in self.fc:
            if self.live:
                self.ev.append("f " + text)
            kinds = BOOMS if self.in_async else BOOMS_SYNC
            exc = self.rng.choice(kinds)(f"boom{pid}")
            self.raised.append((f"boom{pid}", exc))
            raise exc
        self.oc += 1
        if self.live:
            self.ev.append(f"n {text}o{self.oc}")
        return self.oc

    async def prior(self, pid: int, args: tuple) -> None:
        """Await the asynchronous handle a provider calls, if it got one."""
        self.awaited.pop(pid, None)
        for a in args:
            self.show(a)
        if callable(h := args[self.nests[pid][0] - 1]):
            self.awaited[pid] = self.show(await h())

    def nested(self, o: dict, deps: list[dict]) -> str:
        """Note the handle provider o calls; source that awaits it."""
        if not o.get("nest"):
            return ""
        md = "s" if deps[o["nest"] - 1]["k"] in "hv" else "a"
        self.nests[o["pid"]] = (o["nest"], md)
        return f"    await W.prior({o['pid']}, ARGS)\n" if md == "a" else ""

    def released(self, pid: int, n: int, exc: BaseException | None) -> None:
        if not self.live:
            return
        text = "-" if exc is None else ("X" if exc is self.body else self.foreign(exc))
        self.ev.append(f"r o{n} {text}")
        if pid in self.fr:
            kinds = BOOMS if self.in_async else BOOMS_SYNC
            err = self.rng.choice(kinds)(f"rel{pid}")
            self.raised.append((f"rel{pid}", err))
            raise err

    def foreign(self, exc: BaseException) -> str:
        """What a release saw that is not the exception of the body."""
        return "?"

    def product(self, n: int, rv: str) -> Any:
        if rv == "n":
            return None
        return self.name((Value if self.rng.random() < 0.3 else Plain)(), f"o{n}")

    def signature(self, deps: list[dict], *, self_first: bool = False, bind: bool = True,
                  hidden: int = 0) -> tuple[str, list[str], dict]:
        """Parameter list source, parameter names in dependency order, namespace;
        the last `hidden` ones, to be filled by inject, may stand between the others."""
        ns: dict[str, Any] = {"D": D}
        parts: list[str] = ["self"] if self_first else []
        names: list[str] = []
        kwonly = False
        seen_default = False
        order = list(range(len(deps) - hidden))
        names.extend(f"a{i}" for i in range(len(deps)))
        at = sorted(self.rng.randint(0, len(order)) for _ in range(hidden))
        for i in range(hidden):
            order.insert(at[i] + i, len(deps) - hidden + i)
        for i in order:
            d = deps[i]
            ns[f"A{i}"] = self.need(d) if bind else Any
            if i >= len(deps) - hidden and d["k"] not in "xy":
                ns[f"A{i}"] = Injected[ns[f"A{i}"]]
            n = f"a{i}"
            default = " = D" if d["d"] or d["k"] == "f" else ""
            if not kwonly and (
                (seen_default and not default) or self.rng.random() < 0.15
            ):
                parts.append("*")
                kwonly = True
            seen_default = seen_default or bool(default)
            parts.append(f"{n}: A{i}{default}")
        return ", ".join(parts), names, ns

    def compile(self, src: str, ns: dict) -> dict:
        exec(compile(src, "<provider>", "exec", dont_inherit=True), ns)  # noqa: S102
        return ns

    def _class(self, pid: int, deps: list[dict], name: str, *, bind: bool = True) -> Any:
        world = self
        if any(d["k"] == "f" for d in deps):
            fields = []
            for i, d in enumerate(deps):
                hint = self.need(d) if bind else Any
                if d["k"] == "f":
                    fields.append((f"a{i}", hint, dataclasses.field(default_factory=lambda: D, kw_only=True)))
                elif d["d"]:
                    fields.append((f"a{i}", hint, dataclasses.field(default=D, kw_only=True)))
                else:
                    fields.append((f"a{i}", hint, dataclasses.field(kw_only=True)))

            def post(obj: Any) -> None:
                n = world.called(pid, tuple(getattr(obj, f"a{i}") for i in range(len(deps))))
                world.name(obj, f"o{n}")

            return dataclasses.make_dataclass(
                name, fields, namespace={"__post_init__": post, "__module__": __name__}, eq=False
            )
        params, names, ns = self.signature(deps, self_first=True, bind=bind)
        ns["W"] = self
        self.compile(
            f"class K:\n"
            f"    def __init__({params}):\n"
            f"        W.name(self, 'o%d' % W.called({pid}, ({''.join(n + ', ' for n in names)})))\n",
            ns,
        )
        ns["K"].__name__ = ns["K"].__qualname__ = name
        ns["K"].__module__ = __name__
        return ns["K"]

    def returns(self, ns: dict, hint: Any) -> str:
        """Source of a return annotation (none for NO_HINT)."""
        if hint is NO_HINT:
            return ""
        ns["R"] = hint
        return " -> R" if self.rng.random() < 0.6 else " -> 'R'"

    def function(self, o: dict, style: int, key: Any = NO_HINT) -> Any:
        """A factory / generator / context manager function for operation o."""
        deps = o["deps"] + o.get("inj", [])
        params, names, ns = self.signature(deps, hidden=len(deps) - len(o["deps"]))
        hint = key
        if key is not NO_HINT:
            if o["kind"] != "f":
                hint = AsyncGenerator[key, None] if o["as"] else Generator[key, None, None]
        arrow = self.returns(ns, hint)
        ns.update(W=self, sleep=self.sleep, contextmanager=contextmanager,
                  asynccontextmanager=asynccontextmanager)
        args = "(" + "".join(n + ", " for n in names) + ")"
        pid, rv = o["pid"], o["rv"]
        sleeps = "".join(f"    await sleep(0)\n" for _ in range(self.rng.randint(0, 2))) if o["as"] else ""
        pause = sleeps
        a = "async " if o["as"] else ""
        sleeps += self.nested(o, deps).replace("ARGS", args)
        mid = self.mid_source if o["as"] else ""
        kind = o["kind"]
        if kind == "f":
            src = (
                f"{a}def F({params}){arrow}:\n{sleeps}"
                f"    n = W.called({pid}, {args})\n"
                f"{mid}{'' if mid else pause}"
                f"    return W.product(n, {rv!r})\n"
            )
        else:
            swallow = style % 3 == 2
            src = (
                f"{a}def F({params}){arrow}:\n{sleeps}"
                f"    n = W.called({pid}, {args})\n{mid}"
                f"    v = W.product(n, {rv!r})\n"
                f"    try:\n"
                f"        yield v\n"
                f"    except GeneratorExit:\n"
                f"        raise\n"
                f"    except BaseException as e:\n"
                f"        W.released({pid}, n, e)\n"
                + ("" if swallow else "        raise\n")
                + f"    else:\n"
                + ("        await sleep(0)\n" if o["as"] and style % 2 else "")
                + f"        W.released({pid}, n, None)\n"
            )
            if kind == "m":
                deco = "asynccontextmanager" if o["as"] else "contextmanager"
                src += f"F = {deco}(F)\n"
        self.compile(src, ns)
        return self.wrapped(ns["F"], o["auto"]) if "auto" in o else ns["F"]

    def wrapped(self, fn: Any, auto: bool) -> Any:
        """fn with its marked parameters filled by inject."""
        kw: dict[str, Any] = {"dependency_registration_policy": DP["i"]}
        if not auto or self.rng.random() < 0.5:
            kw["auto_open_scope"] = auto
        return resolver_context.inject(**kw)(fn)

    def cm_class(self, o: dict, key: Any = NO_HINT) -> Any:
        params, names, ns = self.signature(o["deps"], self_first=True)
        arrow = self.returns(ns, key)
        ns.update(W=self, sleep=self.sleep)
        args = "(" + "".join(n + ", " for n in names) + ")"
        a = "async " if o["as"] else ""
        mid = "    " + self.mid_source.replace("(n)", "(self.n)") if o["as"] and self.mid_source else ""
        prior = self.nested(o, o["deps"]).replace("ARGS", "self.args")
        prior = prior and "    " + prior
        pre = "a" if o["as"] else ""
        swallow = self.rng.random() < 0.2
        self.compile(
            f"class K:\n"
            f"    def __init__({params}):\n"
            f"        self.args = {args}\n"
            f"    {a}def __{pre}enter__(self){arrow}:\n{prior}"
            f"        self.n = W.called({o['pid']}, self.args)\n{mid}"
            f"        return W.product(self.n, {o['rv']!r})\n"
            f"    {a}def __{pre}exit__(self, et, ev, tb):\n"
            f"        W.released({o['pid']}, self.n, ev)\n"
            f"        return {swallow}\n",
            ns,
        )
        ns["K"].__module__ = __name__
        return ns["K"]

    # ---- operations -----------------------------------------------------
    def run(self, o: dict) -> dict:
        """Perform operation o; returns o with r and ev filled in."""
        self.ev = []
        self.fc = set(o.get("fc", ()))
        self.fr = set(o.get("fr", ()))
        self.raised = []
        self.body = None
        self.in_async = False
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, OP_SECONDS)
        try:
            r = getattr(self, "op_" + o["op"])(o)
        except BaseException as e:  # noqa: BLE001
            r = self.error(e)
            self.keep.append(e)
            e.__traceback__ = None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        out = dict(o)
        out["r"] = r
        out["ev"] = self.ev
        return out

    def await_(self, thunk: Any) -> Any:
        async def go() -> tuple[bool, Any]:
            try:
                return True, await thunk()
            except BaseException as e:  # noqa: BLE001
                return False, e

        self.in_async = True
        ok, v = self.loop.run_until_complete(go())
        if not ok:
            raise v
        return v

    def spelled(self, o: dict) -> dict:
        """provides=/component= arguments naming o's key in one of the possible ways."""
        if "x" in o:
            e = self.cfg["gen"]["tpls"][o["x"]]
            base = self.py.pattern(e["tm"])
            if e["n"] and self.rng.random() < 0.5:
                return {"provides": base, "component": self.component(e["n"])}
            return {"provides": self.annotated(base, e["n"], meta=False)}
        t, n = divmod(o["key"], 10)
        if n and self.rng.random() < 0.5:
            comp = self.component(n)
            return {"provides": self.key(t * 10), "component": comp if self.rng.random() < 0.5 else comp.value}
        return {"provides": self.key(o["key"])}

    def op_reg(self, o: dict) -> str:
        kw: dict[str, Any] = self.spelled(o)
        kind = o["kind"]
        if kind == "i":
            v = None if o["rv"] == "n" else self.name(
                (Value if self.rng.random() < 0.5 else Plain)(), f"i{o['pid']}"
            )
            self.container.add_instance(v, **kw)
            return "ok"
        if not (o["sc"] == self.cfg["lad"][0]["l"] and self.rng.random() < 0.5):
            kw["scope"] = self.levels[o["sc"]]
        if not (o["lt"] == self.cfg["dl"] and self.rng.random() < 0.5):
            kw["lifetime"] = LT[o["lt"]]
        if o["pol"]:
            kw["dependency_registration_policy"] = DP[o["pol"]]
        if self.rng.random() < self.p_lock:
            kw["lock_mode"] = self.rng.choice(self.lock_choices)
        style = self.rng.randint(0, 5)
        key: Any = NO_HINT
        if kind != "c" and self.rng.random() < self.p_infer:
            key = kw.pop("provides")
            if self.rng.random() < 0.3:
                kw["provides"] = "infer"
        if kind == "c":
            self.nested(o, o["deps"])
            self.container.add(self._class(o["pid"], o["deps"], f"P{o['pid']}"), **kw)
        elif kind == "f":
            self.container.add_factory(self.function(o, style, key), **kw)
        elif kind == "g":
            self.container.add_generator(self.function(o, style, key), **kw)
        elif style % 2 and "auto" not in o:
            self.container.add_context_manager(self.cm_class(o, key), **kw)
        else:
            self.container.add_context_manager(self.function(o, style, key), **kw)
        return "ok"

    def op_tpl(self, o: dict) -> str:
        return self.op_reg(o)

    def op_tdec(self, o: dict) -> str:
        return self.op_dec(o)

    def op_dec(self, o: dict) -> str:
        kw = self.spelled(o)
        deps = o["deps"] if "x" in o else [
            dict(d, key=o["key"]) if i + 1 == o["inn"] else d for i, d in enumerate(o["deps"])
        ]
        fo = dict(o, deps=deps, kind="f", rv="o")
        if "auto" not in o and not o["as"] and self.rng.random() < 0.5 and not any(d["k"] == "f" for d in deps):
            self.nested(o, deps)
            fn = self._class(o["pid"], deps, f"P{o['pid']}")
        else:
            fn = self.function(fo, 0)
        if self.rng.random() < 0.6 or o.get("named", True):
            kw["inner_parameter"] = f"a{o['inn'] - 1}"
        self.container.decorate(decorator=fn, **kw)
        return "ok"

    def op_bad(self, o: dict) -> str:
        c = self.container
        w = o["what"]
        key = self.key(o["key"], meta=False)

        def fn() -> Any:
            return Plain()

        def gen() -> Any:
            yield Plain()

        class Unhashable:
            __hash__ = None  # type: ignore[assignment]

        def noinner(a: int = 3) -> Any:
            return a

        def required(a: Any, b: Any) -> Any:
            return a

        def twice(a: Any, b: Any) -> Any:
            return a

        def untyped(a) -> Any:  # noqa: ANN001
            return a

        def tworeq(a: Any, b: Any) -> Any:
            yield a

        def untypedgen(a) -> Any:  # noqa: ANN001
            yield a

        class Required:
            def __init__(self, a: Any, b: Any) -> None: ...

        class Untyped:
            def __init__(self, a) -> None: ...  # noqa: ANN001

        how = o.get("how", "f")
        add = {"f": c.add_factory, "g": c.add_generator, "c": c.add_context_manager, "a": c.add}[how]
        plain = {"f": fn, "g": gen, "c": contextmanager(gen), "a": Plain}[how]
        wants = {"f": required, "g": tworeq, "c": contextmanager(tworeq), "a": Required}[how]
        p = inspect.signature(wants).parameters
        if w == "not-callable":
            add(42, provides=key)
        elif w == "provides-none":
            add(plain, provides=None)
        elif w == "instance-provides-none":
            c.add_instance(3, provides=None)
        elif w == "class-none":
            c.add(None, provides=key)
        elif w == "scope":
            add(plain, provides=key, scope=3)
        elif w == "lifetime":
            add(plain, provides=key, lifetime="scoped")
        elif w == "policy":
            add(plain, provides=key, dependency_registration_policy="ignore!")
        elif w == "dependencies-type":
            add(plain, provides=key, dependencies=[1])
        elif w == "dependencies-value":
            add(plain, provides=key, dependencies={int: "a"})
        elif w == "dependencies-incomplete":
            add(wants, provides=key, dependencies={int: p["a"]})
        elif w == "dependencies-unknown":
            add(plain, provides=key, dependencies={int: p["a"]})
        elif w == "untyped":
            add({"f": untyped, "g": untypedgen, "c": contextmanager(untypedgen), "a": Untyped}[how], provides=key)
        elif w == "component":
            add(plain, provides=self.type_of(o["key"] // 10), component=Unhashable())
        elif w == "component-twice":
            add(plain, provides=Annotated[self.type_of(o["key"] // 10), Component(1)], component=2)
        elif w == "instance-component":
            c.add_instance(3, provides=self.type_of(o["key"] // 10), component=Unhashable())
        elif w == "dec-none":
            c.decorate(provides=None, decorator=fn)
        elif w == "dec-not-callable":
            c.decorate(provides=key, decorator=3)
        elif w == "dec-no-inner":
            c.decorate(provides=key, decorator=noinner)
        elif w == "dec-inner-name":
            c.decorate(provides=key, decorator=noinner, inner_parameter="zz")
        elif w == "dec-generator":
            c.decorate(provides=key, decorator=gen)
        elif w == "dec-two-inners":
            twice.__annotations__ = {"a": key, "b": key}
            c.decorate(provides=key, decorator=twice)
        elif w == "dec-component":
            c.decorate(provides=Annotated[self.type_of(o["key"] // 10), Component(1)], decorator=noinner, component=2)
        elif w == "dec-untyped":
            c.decorate(provides=key, decorator=untyped)
        else:
            raise AssertionError(w)
        return "ok"

    def resolver(self, at: int) -> Any:
        return self.container if at == 0 else self.scopes[at - 1]

    def token(self, tok: dict) -> Any:
        return self.need(dict(tok, d=False))

    def op_res(self, o: dict) -> str:
        target = self.resolver(o["at"])
        dep = self.token(o["tok"])
        kw = {"on_missing": MP[o["pol"]]} if o["pol"] else {}
        if o["md"] == "s":
            return self.show(target.resolve(dep, **kw))
        return self.show(self.await_(lambda: target.aresolve(dep, **kw)))

    def op_call(self, o: dict) -> str:
        import inspect as _i

        h = self.handles[o["h"] - 1]
        v = h()
        if _i.isawaitable(v):
            async def go() -> Any:
                return await v
            try:
                return "~" + self.show(self.await_(go))
            except BaseException as e:  # noqa: BLE001
                self.keep.append(e)
                return "~" + self.error(e)
        return self.show(v)

    def op_ent(self, o: dict) -> str:
        target = self.resolver(o["at"])
        ctx = None
        if o["ctx"] or self.rng.random() < 0.3:
            ctx = {}
            for k, v in o["ctx"]:
                ctx[self.key(k, meta=False)] = self.context_value(v)
        if o["req"] == 0:
            if self.rng.random() < 0.5:
                scope = target.enter_scope() if ctx is None else target.enter_scope(context=ctx)
            else:
                scope = target.enter_scope(None, context=ctx)
        else:
            level = self.levels.get(o["req"])
            if level is None:  # a scope of another ladder
                level = make_ladder([{"l": 0, "sk": False}, {"l": o["req"], "sk": self.rng.random() < 0.3}])[1][o["req"]]
            scope = target.enter_scope(level, context=ctx)
        self.scopes.append(scope)
        if self.blocks and not self.urc and self.rng.random() < 0.5:
            if scope.__enter__() is not scope:
                return "ok?"
        return "ok"

    def context_value(self, v: str) -> Any:
        if v == "n":
            return None
        if v not in self.ctxvals:
            self.ctxvals[v] = self.name((Value if int(v[1:]) % 2 else Plain)(), v)
        return self.ctxvals[v]

    def op_cmp(self, o: dict) -> str:
        self.scopes.append(self.container.compile())
        return "ok"

    def op_cls(self, o: dict) -> str:
        target = self.resolver(o["at"])
        exc: tuple = (None, None, None)
        if o["exc"]:
            self.body = Body("body")
            exc = (Body, self.body, None)
        plain = self.blocks and not self.urc and self.rng.random() < 0.5
        if o["md"] == "s":
            if plain:
                r = target.__exit__(*exc)
            elif o["exc"] or self.rng.random() < 0.5:
                r = target.close(*exc)
            else:
                r = target.close()
        elif plain:
            r = self.await_(lambda: target.__aexit__(*exc))
        else:
            r = self.await_(lambda: target.aclose(*exc))
        return "suppressed" if r else "ok"

    def finish(self) -> None:
        self.live = False
        try:
            self.loop.run_until_complete(self.loop.shutdown_asyncgens())
        finally:
            self.loop.close()
