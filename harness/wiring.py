"""Registers providers of random signatures and shapes on a real container and
records the arguments they are called with, for spec/Wiring.tla."""
from __future__ import annotations

import asyncio
import copy
import dataclasses
import functools
import inspect
import json
import random
import re
import sys
from collections.abc import AsyncGenerator, Generator
from contextlib import asynccontextmanager, contextmanager
from typing import Annotated, Any, Generic, NamedTuple, TypeVar

sys.path.insert(0, "/repo/src")

import attrs  # noqa: E402

from diwire import (  # noqa: E402
    All,
    AsyncProvider,
    Container,
    DependencyRegistrationPolicy,
    FromContext,
    Injected,
    Lifetime,
    Maybe,
    MissingPolicy,
    Provider,
    Scope,
    resolver_context,
)
from diwire import exceptions as X  # noqa: E402

import tlc  # noqa: E402
from framework import Check, parallel  # noqa: E402

ERRORS = (
    (X.DIWireProviderDependencyInferenceError, "E:Inference"),
    (X.DIWireDependencyNotRegisteredError, "E:NotRegistered"),
    (X.DIWireScopeMismatchError, "E:Scope"),
    (X.DIWireAsyncDependencyInSyncContextError, "E:Async"),
    (X.DIWireInvalidProviderSpecError, "E:InvalidSpec"),
    (X.DIWireInvalidRegistrationError, "E:InvalidReg"),
)
KIND = {
    "po": inspect.Parameter.POSITIONAL_ONLY,
    "pk": inspect.Parameter.POSITIONAL_OR_KEYWORD,
    "va": inspect.Parameter.VAR_POSITIONAL,
    "ko": inspect.Parameter.KEYWORD_ONLY,
    "vk": inspect.Parameter.VAR_KEYWORD,
}
NAMES = (
    "a", "b", "c", "value", "self_", "resolver", "args", "kwargs", "self", "cls", "x1", "root_resolver",
    "dep", "context", "scope", "provider", "_cache", "n", "key", "match", "type", "result",
)
DECORATED = 6
T = TypeVar("T")


class Thing:
    pass


class Param(dict):
    """A parameter record of the specification."""

    __getattr__ = dict.__getitem__


class Wires:
    def __init__(self, seed: int, keys: list[int]) -> None:
        self.rng = random.Random(seed)
        self.keys = keys
        self.names: dict[int, str] = {}
        self.keep: list[Any] = []
        self.calls: list[tuple[list[dict], list[Any]]] = []
        self.products: dict[int, Any] = {}
        self.provides: dict[int, Any] = {}
        self.loop = asyncio.new_event_loop()
        self.container = Container(
            missing_policy=MissingPolicy.ERROR,
            dependency_registration_policy=DependencyRegistrationPolicy.IGNORE,
            use_resolver_context=self.rng.random() < 0.5,
        )
        self.types = {k: type(f"K{k}", ({7: tuple, 8: dict}.get(k, object),), {}) for k in range(1, 9)}
        self.argument = self.label(type("Argument", (), {}), "t")
        self.decorated = False
        for k in keys:
            self.container.add_instance(self.make(k, "k"), provides=self.types[k])

    def label(self, v: Any, text: str) -> Any:
        self.names[id(v)] = text
        self.keep.append(v)
        return v

    def make(self, k: int, src: str) -> Any:
        parts = [self.label(Thing(), f"{src}{k}{i}") for i in (1, 2)]
        if k == 7:
            v: Any = self.types[7](parts)
        elif k == 8:
            v = self.types[8](zip(("z1", "z2"), parts))
        else:
            v = self.types[k]()
        return self.label(v, f"{src}{k}")

    def show(self, v: Any) -> str:
        if v is None:
            return "n"
        if id(v) in self.names:
            return self.names[id(v)]
        if isinstance(v, tuple):
            return "(" + ",".join(self.show(x) for x in v) + ")"
        if isinstance(v, dict):
            return "{" + ",".join(f"{k}:{self.show(x)}" for k, x in sorted(v.items())) + "}"
        if callable(v):
            got = v()
            if inspect.isawaitable(got):
                async def go() -> Any:
                    return await got
                got = self.loop.run_until_complete(go())
            return f"<{self.show(got)}>"
        return f"?{v!r}"

    def error(self, e: BaseException) -> str:
        for cls, text in ERRORS:
            if isinstance(e, cls):
                return text
        return f"E:!{type(e).__name__}: {e}"

    # ---- annotations and source -------------------------------------------
    def key(self, k: int) -> Any:
        t = self.types[k]
        return Annotated[t, "meta"] if self.rng.random() < 0.15 else t

    def annotation(self, a: str, k: int) -> Any:
        if a in "-u":
            return None
        if a == "t":
            return T if self.rng.random() < 0.5 else type[T]
        key = self.key(k) if k else None
        return {
            "p": lambda: key, "f": lambda: key, "m": lambda: Maybe[key], "x": lambda: FromContext[key],
            "y": lambda: Maybe[FromContext[key]], "h": lambda: Provider[key], "g": lambda: AsyncProvider[key],
            "v": lambda: Maybe[Provider[key]], "a": lambda: All[key],
        }[a]()

    def parameters(self, sig: list[dict], names: dict[int, str], ns: dict, *, quoted: bool = False,
                   first: str = "") -> str:
        parts = [first] if first else []
        if first and sig and sig[0]["k"] == "po":
            pass
        slash = star = False
        for i, p in enumerate(sig):
            n = names[p["n"]]
            if p["k"] != "po" and not slash and any(q["k"] == "po" for q in sig[:i]):
                parts.append("/")
                slash = True
            if p["k"] == "va":
                star = True
            if p["k"] == "ko" and not star:
                parts.append("*")
                star = True
            text = {"va": "*", "vk": "**"}.get(p["k"], "") + n
            if p["a"] == "u":
                text += f": 'Unknown{p['n']}'"
            elif p["a"] != "-":
                hint = self.annotation(p["a"], p["key"])
                ns[f"A{p['n']}"] = Injected[hint] if p.get("i") and p["a"] not in "xy" else hint
                text += f": 'A{p['n']}'" if quoted else f": A{p['n']}"
            if p["d"]:
                ns[f"D{p['n']}"] = self.default(p["n"])
                text += f" = D{p['n']}"
            parts.append(text)
        if not slash and any(q["k"] == "po" for q in sig):
            parts.append("/")
        return ", ".join(parts)

    def default(self, n: int) -> Any:
        return self.label(Thing(), f"d{n}")

    def called(self, sig: list[dict], values: tuple) -> Any:
        self.calls.append((sig, list(values)))
        return self.label(Thing(), f"o{len(self.calls)}")

    def exec(self, src: str, ns: dict) -> dict:
        exec(compile(src, "<provider>", "exec", dont_inherit=True), ns)  # noqa: S102
        return ns

    # ---- shapes -------------------------------------------------------------
    def build(self, shape: str, sig: list[dict], names: dict[int, str]) -> tuple[str, Any]:
        """(registration method, provider) of a provider with that signature."""
        rng = self.rng
        # annotations of partial objects are only read when they are objects
        quoted = rng.random() < 0.3 and not any(p["a"] == "u" for p in sig) and shape != "partial"
        ns: dict[str, Any] = {
            "W": self, "SIG": sig, "contextmanager": contextmanager, "asynccontextmanager": asynccontextmanager,
            "functools": functools, "Any": Any, "Generic": Generic, "T": T, "TYPE": type,
        }
        values = "(" + "".join(names[p["n"]] + ", " for p in sig) + ")"
        plain = self.parameters(sig, names, ns, quoted=quoted)
        me = "me_"
        method = self.parameters(sig, names, ns, quoted=quoted, first=me)
        call = f"W.called(SIG, {values})"
        make = f"W.product(W.called(SIG, {values}))"
        decoy = ""
        if rng.random() < 0.5 and any(p["a"] not in "-u" for p in sig):
            p = rng.choice([p for p in sig if p["a"] not in "-u"])
            n = names[p["n"]]
            ns["DECOY"] = self.types[rng.choice([1, 2, 3])]
            decoy = rng.choice([
                f"    {n}: DECOY\n" if not n.startswith("__") else "",
                f"    def __call__({me}, {n}: DECOY):\n        return None\n" if shape != "callable" else "",
                f"    def run({me}, {n}: DECOY):\n        return None\n",
            ])
        body = f"        W.label({me}, W.names[id({call})])\n        W.made = {me}\n"
        if shape == "function":
            self.exec(f"def F({plain}):\n    return {make}\n", ns)
            return "factory", ns["F"]
        if shape == "lambda":
            return "factory", eval(f"lambda {plain}: {make}", ns)  # noqa: S307
        if shape == "asyncf":
            self.exec(f"async def F({plain}):\n    return {make}\n", ns)
            return "factory", ns["F"]
        if shape in ("method", "classmethod", "staticmethod", "callable"):
            deco = {"classmethod": "    @classmethod\n", "staticmethod": "    @staticmethod\n"}.get(shape, "")
            name = "__call__" if shape == "callable" else "make"
            args = plain if shape == "staticmethod" else method
            self.exec(f"class H:\n{decoy}{deco}    def {name}({args}):\n        return {make}\n", ns)
            if shape == "callable":
                return "factory", ns["H"]()
            return "factory", ns["H"]().make if rng.random() < 0.5 or shape == "method" else ns["H"].make
        if shape == "wraps":
            self.exec(
                f"def G({plain}):\n    return {make}\n@functools.wraps(G)\n"
                "def F(*args, **kwargs):\n    return G(*args, **kwargs)\n", ns)
            return "factory", ns["F"]
        if shape == "partial":
            bound: dict[str, Any] = {}
            inner = []
            for p in sig:
                q = dict(p)
                if p["k"] == "ko" and p["d"] and rng.random() < 0.6:
                    q["d"] = False
                    bound[names[p["n"]]] = self.default(p["n"])
                inner.append(q)
            kind = "po" if sig and sig[0]["k"] == "po" else rng.choice(["po", "pk"])
            lead = [dict(n=0, k=kind, d=False, a="p", key=1)]
            args = self.parameters(lead + inner, {**names, 0: "lead_"}, ns, quoted=quoted)
            self.exec(f"def F({args}):\n    assert lead_ == 5\n    return {make}\n", ns)
            return "factory", functools.partial(ns["F"], 5, **bound)
        if shape in INJECTED:
            a = "async " if shape == "asyncinj" else ""
            end = "yield" if shape in ("geninj", "cminj") else "return"
            self.exec(f"{a}def F({plain}):\n    {end} {make}\n", ns)
            f = contextmanager(ns["F"]) if shape == "cminj" else ns["F"]
            policy = DependencyRegistrationPolicy.IGNORE
            wrapped = rng.choice([
                lambda: resolver_context.inject(f),
                lambda: resolver_context.inject(dependency_registration_policy=policy)(f),
                lambda: resolver_context.inject(auto_open_scope=False)(f),
            ])()
            return {"geninj": "generator", "cminj": "context_manager"}.get(shape, "factory"), wrapped
        if shape in ("gen", "cm"):
            self.exec(f"def F({plain}):\n    yield {make}\n", ns)
            return ("generator", ns["F"]) if shape == "gen" else ("context_manager", contextmanager(ns["F"]))
        if shape in ("agen", "acm"):
            self.exec(f"async def F({plain}):\n    yield {make}\n", ns)
            return ("generator", ns["F"]) if shape == "agen" else ("context_manager", asynccontextmanager(ns["F"]))
        if shape in ("cmclass", "acmclass"):
            a, p = ("async ", "a") if shape == "acmclass" else ("", "")
            self.exec(
                f"class K:\n{decoy}    def __init__({method}):\n        {me}.v = {make}\n"
                f"    {a}def __{p}enter__(self):\n        return self.v\n"
                f"    {a}def __{p}exit__(self, *exc):\n        return None\n", ns)
            return "context_manager", ns["K"]
        if shape in ("class", "classfactory", "slots"):
            slots = "    __slots__ = ()\n" if shape == "slots" else ""
            self.exec(f"class K:\n{slots}{decoy if not slots else ''}    def __init__({method}):\n{body}", ns)
            return ("factory" if shape == "classfactory" else "class"), ns["K"]
        if shape == "inherited":
            self.exec(f"class B:\n{decoy}    def __init__({method}):\n{body}\nclass K(B):\n    pass\n", ns)
            return "class", ns["K"]
        if shape in ("classnew", "meta"):
            if shape == "classnew":
                self.exec(
                    f"class K:\n{decoy}    def __new__({method}):\n        {call}\n"
                    f"        W.made = object.__new__({me})\n        return W.made\n", ns)
            else:
                self.exec(
                    f"class M(type):\n    def __call__({method}):\n        {call}\n"
                    f"        W.made = TYPE.__call__({me})\n        return W.made\n"
                    f"class K(metaclass=M):\n    pass\n", ns)
            return rng.choice(["class", "factory"]), ns["K"]
        if shape == "closed":
            self.exec(f"class K(Generic[T]):\n    def __init__({method}):\n{body}", ns)
            return "closed", ns["K"]
        if shape in ("dataclass", "attrs", "subdataclass"):
            return "class", self.fields(shape, sig, names, ns)
        if shape == "namedtuple":
            attrs_ = {"__annotations__": {}, "__module__": __name__}
            space: dict[str, Any] = {}
            for p in sig:
                space[names[p["n"]]] = self.annotation(p["a"], p["key"])
                if p["d"]:
                    attrs_[names[p["n"]]] = self.default(p["n"])
            base = NamedTuple("N", list(space.items()))
            base.__new__.__defaults__ = tuple(attrs_[names[p["n"]]] for p in sig if p["d"])
            world = self

            def new(cls: Any, *args: Any, **kw: Any) -> Any:
                out = inner_new(cls, *args, **kw)
                world.called(sig, tuple(out))
                world.made = out
                return out

            inner_new = base.__new__
            base.__new__ = functools.wraps(inner_new)(new)  # type: ignore[method-assign]
            return rng.choice(["class", "factory"]), base
        raise AssertionError(shape)

    def product(self, v: Any) -> Any:
        self.made = v
        return v

    def fields(self, shape: str, sig: list[dict], names: dict[int, str], ns: dict) -> Any:
        world = self
        allow_ko = shape != "namedtuple"
        rng = self.rng
        specs = []
        for p in sig:
            kw: dict[str, Any] = {}
            if p["d"]:
                d = self.default(p["n"])
                if p["a"] == "f":
                    kw["factory" if shape == "attrs" else "default_factory"] = functools.partial(lambda d: d, d)
                else:
                    kw["default"] = d
            if p["k"] == "ko" and allow_ko:
                kw["kw_only"] = True
            specs.append((names[p["n"]], self.annotation(p["a"], p["key"]), kw))

        def post(obj: Any) -> None:
            world.called(sig, tuple(getattr(obj, names[p["n"]]) for p in sig))
            world.made = obj

        if shape == "attrs":
            fields = {n: attrs.field(type=t, alias=n, **kw) for n, t, kw in specs}
            return attrs.make_class("K", fields, class_body={"__attrs_post_init__": post}, slots=rng.random() < 0.5)
        made = [(n, t, dataclasses.field(**kw)) for n, t, kw in specs]
        extra: dict[str, Any] = {"__post_init__": post, "__module__": __name__}
        opts: dict[str, Any] = {"eq": False}
        if rng.random() < 0.3:
            opts["frozen"] = True
        if rng.random() < 0.3:
            opts["slots"] = True
        if rng.random() < 0.3:
            made.append(("no_init", int, dataclasses.field(init=False, default=3)))
        cut = rng.randint(0, len(made)) if shape == "subdataclass" else 0
        if cut:
            base = dataclasses.make_dataclass("B", made[:cut], namespace={"__module__": __name__}, **opts)
            return dataclasses.make_dataclass("K", made[cut:], bases=(base,), namespace=extra, **opts)
        return dataclasses.make_dataclass("K", made, namespace=extra, **opts)

    # ---- operations -----------------------------------------------------------
    def register(self, o: dict) -> str:
        rng = self.rng
        sig, names = o["sig"], o["names"]
        how, target = self.build(o["shape"], sig, names)
        if o["dec"]:
            key = self.types[DECORATED]
            self.provides[o["pid"]] = key
            inst = self.label(key(), f"k{DECORATED}")
            self.container.add_factory(
                lambda: inst, provides=key, lifetime=Lifetime.TRANSIENT,
                scope=Scope.APP if o["root"] else Scope.REQUEST)
            self.container.decorate(provides=key, decorator=target, inner_parameter=names[o["dec"]])
            return "ok"
        kw: dict[str, Any] = {
            "scope": Scope.APP if o["root"] else Scope.REQUEST,
            "lifetime": Lifetime.TRANSIENT if o["root"] or rng.random() < 0.5 else Lifetime.SCOPED,
        }
        provides = self.provides[o["pid"]] = type(f"P{o['pid']}", (), {})
        if o["isx"]:
            deps = []
            for e in o["expl"]:
                param = inspect.Parameter(names.get(e["n"], "unknown_"), KIND[e["k"]])
                deps.append((self.annotation(e["a"], e["key"]), param))
            rng.shuffle(deps)
            kw["dependencies"] = dict(deps)
            if len(kw["dependencies"]) != len(deps):
                raise AssertionError("keys of explicit dependencies must differ")
        if how == "closed":
            provides = self.provides[o["pid"]] = target[self.argument]
            self.container.add(target, provides=provides, **kw)
        elif how == "class":
            self.container.add(target, provides=provides, **kw)
        else:
            getattr(self.container, "add_" + how)(target, provides=provides, **kw)
        return "ok"

    def resolve(self, o: dict, meta: dict) -> tuple[str, list[str]]:
        ctx = {self.types[k]: self.make(k, "c") for k in o["ctx"]}
        provides = self.provides[o["pid"]]
        is_async = meta["async"]
        self.calls.clear()
        self.made = self
        if is_async:
            async def go() -> tuple[Any, Any]:
                if meta["root"] and self.rng.random() < 0.5:
                    return self.container, await self.container.aresolve(provides)
                s = self.container.enter_scope(Scope.REQUEST, context=ctx)
                return s, await s.aresolve(provides)
            scope, v = self.loop.run_until_complete(go())
        elif meta["root"] and self.rng.random() < 0.5:
            scope, v = self.container, self.container.resolve(provides)
        else:
            scope = self.container.enter_scope(Scope.REQUEST, context=ctx)
            v = scope.resolve(provides)
        r = "ok" if v is self.made else f"?{v!r}"
        ev = []
        for sig, values in list(self.calls):
            shown = [f"{p['n']}={self.show(x)}" for p, x in zip(sig, values, strict=True)]
            ev.append(",".join(shown))
        if scope is not self.container:
            if is_async:
                async def end() -> None:
                    await scope.aclose()
                self.loop.run_until_complete(end())
            else:
                scope.close()
        return r, ev

    def finish(self) -> None:
        self.loop.run_until_complete(self.loop.shutdown_asyncgens())
        self.loop.close()


# ---- generation -------------------------------------------------------------
SHAPES = dict(
    function=6, asyncf=2, method=2, classmethod=1, staticmethod=1, callable=2, wraps=1, partial=2, gen=2, agen=1,
    cm=2, acm=1, cmclass=2, acmclass=1, slots=0.5, classfactory=1, inherited=1, classnew=2, meta=1, closed=2,
    dataclass=3, subdataclass=2, attrs=1, namedtuple=2, inj=4, asyncinj=2, geninj=1, cminj=1, **{"class": 5, "lambda": 1},
)
ASYNC = {"asyncf", "agen", "acm", "acmclass", "asyncinj"}
INJECTED = {"inj", "asyncinj", "geninj", "cminj"}
FIELDS = {"dataclass", "subdataclass", "attrs", "namedtuple"}
DECORATORS = {"function", "asyncf", "method", "callable", "class", "classfactory", "partial", "wraps", "classnew"}


def pick(rng: random.Random, weights: dict) -> Any:
    ks = list(weights)
    return rng.choices(ks, [weights[k] for k in ks])[0]


def signature(rng: random.Random, keys: list[int], shape: str) -> list[dict]:
    n = rng.choices(range(7), [1, 4, 6, 6, 5, 3, 2])[0]
    order = ["po", "pk", "va", "ko", "vk"]
    weights = {"po": 4, "pk": 5, "va": 1.5, "ko": 3, "vk": 1}
    if rng.random() < 0.4:
        for k in rng.sample(order, rng.randint(1, 3)):
            weights[k] = 0.01
    if shape in FIELDS:
        weights = {"pk": 5, "ko": 3}
    if shape == "namedtuple":
        weights = {"pk": 1}
    kinds = sorted((pick(rng, weights) for _ in range(n)), key=order.index)
    kinds = [k for i, k in enumerate(kinds) if k not in ("va", "vk") or k not in kinds[:i]]
    p_default = rng.choice([0.0, 0.25, 0.25, 0.6])
    anns = {"p": 8, "-": 2, "m": 3, "x": 1.2, "y": 1.2, "h": 1, "g": 0.5, "v": 0.7, "a": 1.0, "u": 0.15}
    anns = {a: w for a, w in anns.items() if a == "p" or rng.random() < 0.7}
    if shape in FIELDS:
        anns = {a: w for a, w in anns.items() if a not in "-u"}
        anns["f"] = 2
    if shape in ("namedtuple", "attrs"):
        anns.pop("f")
    if shape == "closed":
        anns["t"] = 4
    if shape == "lambda":
        anns = {"-": 1}
    # most histories should get as far as a call
    easy = rng.random() < 0.85
    out: list[dict] = []
    must = False
    for i, k in enumerate(kinds):
        a = pick(rng, anns)
        d = k not in ("va", "vk") and (must or rng.random() < p_default)
        if a == "f":
            d = True
        if k in ("po", "pk"):
            must = must or d
        if k in ("va", "vk") and a == "t":
            a = "p"
        if easy and a in "-u" and not d and k not in ("va", "vk"):
            a = "p" if shape != "lambda" else a
        if easy and (a in "hg" and k in ("va", "vk") or a == "a" and k == "vk"):
            a = "m"
        if k == "va":
            key = 7 if a != "a" else rng.randint(1, 6)
        elif k == "vk":
            key = 8
        else:
            key = rng.choice(keys) if easy and a in "phg" and keys else rng.randint(1, 8 if a != "a" else 6)
        if easy and a in "phg" and key not in keys:
            a = "m"
        if key == DECORATED and key not in keys:
            key = 5  # key 6 is what a decorator decorates then
            if easy and a in "phg" and key not in keys:
                a = "m"
        out.append({"n": i + 1, "k": k, "d": d, "a": a, "key": key})
    return marked(rng, out, keys) if shape in INJECTED else out


def marked(rng: random.Random, sig: list[dict], keys: list[int], p_late: float = 0.1) -> list[dict]:
    """sig with the parameters that inject fills marked; context values always are."""
    def hidden(i: int, p: dict) -> bool:
        if p["k"] in ("va", "vk") or p["a"] not in "pmxyhgva":
            return False
        if p["a"] in "xy":
            return True
        if p["a"] in "hg" and p["key"] not in keys:
            return False
        late = any(q["k"] in ("po", "va") for q in sig[i + 1:])
        return rng.random() < (p_late if late and p["k"] in ("po", "pk") else 0.5)

    sig = [dict(p, a="m") if p["a"] in "xy" and p["k"] in ("va", "vk") else p for p in sig]
    return [dict(p, i=hidden(i, p)) for i, p in enumerate(sig)]


def explicit(rng: random.Random, sig: list[dict], keys: list[int]) -> list[dict]:
    """Explicit dependencies for sig, sometimes wrong."""
    used: set[tuple] = set()
    out: list[dict] = []
    for p in sig:
        need = not p["d"] and p["k"] not in ("va", "vk")
        if not need and rng.random() < 0.5 or need and rng.random() < 0.04:
            continue
        if p["k"] in ("va", "vk"):
            key = 7 if p["k"] == "va" else 8
            a = rng.choice("pm") if key in keys else "m"
            if (a, key) in used:
                continue
        else:
            a = rng.choice("pppmxyha")
            key = rng.choice(keys) if keys and a in "ph" else rng.randint(1, 5)
            if a in "ph" and not keys:
                a = "m"
        if (a, key) in used:
            a, key = next(((b, k) for b in "pmyav" for k in range(1, 6)
                           if (b, k) not in used and (b != "p" or k in keys)))
        used.add((a, key))
        k = p["k"] if rng.random() < 0.97 else rng.choice(list(KIND))
        n = p["n"] if rng.random() < 0.98 else rng.choice([p["n"], 99, max(1, p["n"] - 1)])
        out.append({"n": n, "k": k, "a": a, "key": key})
    return out


def history(n: int) -> dict:
    rng = random.Random(n * 31337 + 5)
    keys = [k for k in range(1, 9) if rng.random() < 0.75]
    keys = [k for k in keys if k != DECORATED] if rng.random() < 0.25 else keys
    w = Wires(n, keys)
    trace: dict[str, Any] = {"id": n, "keys": keys, "ops": []}
    meta: dict[int, dict] = {}
    try:
        for pid in range(1, rng.choice([1, 2, 2, 3]) + 1):
            shape = pick(rng, SHAPES)
            sig = signature(rng, keys, shape)
            dec = 0
            if DECORATED not in keys and shape in DECORATORS and not w.decorated and rng.random() < 0.7:
                fit = [p for p in sig if p["k"] in ("po", "pk", "ko")]
                if fit and not any(p["key"] == DECORATED for p in sig):
                    p = rng.choice(fit)
                    p.update(a="p", key=DECORATED)
                    dec = p["n"]
            isx = not dec and (shape == "lambda" or rng.random() < 0.2) and shape != "closed"
            pool = [x for x in NAMES if not ((x.startswith("_") or x in ("self", "cls")) and shape in FIELDS)]
            names = dict(zip([p["n"] for p in sig], rng.sample(pool, len(sig))))
            o = {
                "op": "reg", "pid": pid, "sig": sig, "isx": isx, "root": rng.random() < 0.4, "dec": dec,
                "expl": explicit(rng, [p for p in sig if not p.get("i")] if rng.random() < 0.9 else sig, keys) if isx else [], "shape": shape, "names": names,
            }
            is_async = shape in ASYNC
            meta[pid] = {"async": is_async or rng.random() < 0.3, "root": o["root"]}
            if dec:
                w.decorated = True
            try:
                r = w.register(o)
            except Exception as e:  # noqa: BLE001
                r = w.error(e)
            trace["ops"].append({**o, "dec": DECORATED if dec else 0, "inner": dec, "names": [names[p["n"]] for p in sig], "r": r, "ev": []})
            if r != "ok":
                continue
            for _ in range(2):
                for q in sorted(meta):
                    if q not in {x["pid"] for x in trace["ops"] if x["op"] == "reg" and x["r"] == "ok"}:
                        continue
                    q_o = {"op": "res", "pid": q, "ctx": [k for k in range(1, 9) if rng.random() < 0.6]}
                    try:
                        r, ev = w.resolve(q_o, meta[q])
                    except Exception as e:  # noqa: BLE001
                        r, ev = w.error(e), []
                    trace["ops"].append({**q_o, "r": r, "ev": ev})
    finally:
        w.finish()
    return trace


# ---- replay of the cases WiringGen enumerates ---------------------------------
CASE = re.compile(r'^<<"CASE", "(.*)">>$')


def fits(shape: str, sig: list[dict]) -> bool:
    kinds = {p["k"] for p in sig}
    bare = any(p["a"] == "-" for p in sig)
    if shape in FIELDS:
        return not bare and kinds <= ({"pk"} if shape == "namedtuple" else {"pk", "ko"})
    if shape in INJECTED and any(p["a"] in "xy" and p["k"] in ("va", "vk") for p in sig):
        return False
    if shape in INJECTED and any(
        p["a"] in "xy" and p["k"] in ("po", "pk") and q["k"] in ("po", "va") and q["a"] not in "xy"
        for i, p in enumerate(sig) for q in sig[i + 1:]
    ):
        return False
    return shape != "lambda" or all(p["a"] == "-" for p in sig)


def cases(config: str) -> list[dict]:
    out = tlc.run_tlc("WiringGen.tla", config)
    found = [json.loads(json.loads('"' + m[1] + '"')) for m in map(CASE.match, out.splitlines()) if m]
    if "No error has been found" not in out or not found:
        raise tlc.TlcFailed(out[-4000:])
    found.sort(key=json.dumps)
    return found


def replay(case: dict, shape: str, seed: int) -> dict:
    """What the real container does with a case in one provider shape."""
    w = Wires(seed, case["keys"])
    names = dict(zip([p["n"] for p in case["sig"]], w.rng.sample([x for x in NAMES if x[0] != "_" and x not in ("self", "cls")], len(case["sig"]))))
    sig = marked(w.rng, case["sig"], case["keys"], 0) if shape in INJECTED else case["sig"]
    o = {"op": "reg", "pid": 1, "sig": sig, "isx": False, "root": False, "dec": 0, "expl": [],
         "shape": shape, "names": names}
    got: dict[str, Any] = {"reg": "ok", "r": "", "ev": []}
    try:
        try:
            w.register(o)
        except Exception as e:  # noqa: BLE001
            got["reg"] = w.error(e)
            return got
        try:
            got["r"], got["ev"] = w.resolve(
                {"op": "res", "pid": 1, "ctx": case["ctx"]}, {"async": shape in ASYNC or w.rng.random() < 0.3, "root": False})
        except Exception as e:  # noqa: BLE001
            got["r"] = w.error(e)
    finally:
        w.finish()
    return got


def replay_batch(jobs: list[tuple]) -> list[tuple]:
    bad = []
    for case, shape, seed in jobs:
        got = replay(case, shape, seed)
        if any(got[k] != case[k] for k in ("reg", "r", "ev")):
            bad.append((case, shape, seed, got))
    return bad


def enumerated(ck: Check) -> None:
    plans = [("WiringGen2.cfg", 2)] if not ck.thorough else [("WiringGen2.cfg", 40), ("WiringGen3.cfg", 4)]
    for config, per_case in plans:
        found = cases(config)
        ck.states += len(found)
        ck.transitions += len(found)
        rng = random.Random(ck.seed)
        jobs = []
        for n, case in enumerate(found):
            shapes = [s for s in SHAPES if fits(s, case["sig"])]
            for shape in rng.sample(shapes, min(per_case, len(shapes))):
                jobs.append((case, shape, n))
        step = 200
        parts = [jobs[a:a + step] for a in range(0, len(jobs), step)]
        for part, (kind, val) in zip(parts, parallel(replay_batch, parts, timeout=max(60.0, ck.left()))):
            if kind == "raised":
                raise RuntimeError(val)
            if kind == "hung":
                ck.violation("replaying enumerated signatures did not end", {"jobs": part[:1]})
                continue
            ck.traces += len(part)
            for case, shape, seed, got in val:
                want = {k: case[k] for k in ("reg", "r", "ev")}
                ck.violation(f"signature {show(case['sig'])} as {shape}, registered keys {case['keys']}, context "
                             f"{case['ctx']}: {got}, specified {want}", {"case": case, "shape": shape, "seed": seed})
        ck.count("signatures_enumerated", len(found))
        ck.count("signatures_replayed", len(jobs))


def show(sig: list[dict]) -> str:
    return "(" + ", ".join(f"{p['k']}:{p['a']}{p['key'] if p['a'] != '-' else ''}{'=' if p['d'] else ''}" for p in sig) + ")"


# ---- random histories ---------------------------------------------------------
def batch(job: tuple) -> list[dict]:
    lo, hi = job
    return [history(n) for n in range(lo, hi)]


def corrupted(t: dict) -> dict | None:
    t = copy.deepcopy(t)
    for o in t["ops"]:
        if o["ev"] and "=" in o["ev"][0]:
            parts = o["ev"][0].split(",")
            parts[0] = parts[0].split("=")[0] + "=k9"
            o["ev"] = [",".join(parts)]
            return t
    return None


def sampled(ck: Check) -> None:
    count, chunk = (60000, 4000) if ck.thorough else (2400, 2400)
    base = ck.seed * 1_000_000
    done = 0
    while done < count and (done == 0 or ck.left() > 40):
        n = min(chunk, count - done)
        jobs = [(base + done + a, base + done + min(a + 25, n)) for a in range(0, n, 25)]
        traces: list[dict] = []
        for job, (kind, val) in zip(jobs, parallel(batch, jobs, timeout=max(60.0, ck.left()))):
            if kind == "ok":
                traces.extend(val)
            elif kind == "hung":
                ck.violation(f"histories {job} did not end", {"job": job})
            else:
                raise RuntimeError(val)
        done += n
        bad = [b for b in map(corrupted, traces[:6]) if b]
        verdicts, st = tlc.validate(traces + bad, "WiringTrace")
        ck.states += st["states"]
        ck.transitions += st["transitions"]
        for i, t in enumerate(traces):
            v, k, exp = verdicts[i]
            ck.traces += 1
            ck.count("operations", len(t["ops"]))
            if v == "WILD":
                ck.count("left_domain")
            elif v != "ACCEPT":
                o = t["ops"][k - 1]
                reg = next(q for q in t["ops"] if q["op"] == "reg" and q["pid"] == o["pid"])
                ck.violation(
                    f"history {t['id']}, operation {k}: {o['op']} of {reg['shape']} {show(reg['sig'])} names {reg['names']} "
                    f"explicit {reg['expl']}, registered keys {t['keys']}, context {o.get('ctx')}: {o['r']} {o['ev']}, "
                    f"specified {exp['r']} {exp['ev']}", {"trace": {**t, "ops": t["ops"][:k]}, "expected": exp})
            shapes = ck.notes.setdefault("shapes", {})
            for o in t["ops"]:
                if o["op"] == "reg":
                    shapes[o["shape"]] = shapes.get(o["shape"], 0) + 1
        for j in range(len(bad)):
            if verdicts[len(traces) + j][0] == "ACCEPT":
                raise RuntimeError(f"a corrupted trace was accepted: {bad[j]}")
        ck.count("corrupted_traces_rejected", len(bad))
        if traces:
            t = traces[len(traces) // 2]
            ck.sample({"id": t["id"], "ops": [{k: (show(v) if k == "sig" else v) for k, v in o.items()} for o in t["ops"][:3]]})
        if len(ck.violations) >= 3:
            break
