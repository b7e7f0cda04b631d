"""Registers providers without naming their key and records what each key gives,
for spec/Inference.tla."""
from __future__ import annotations

import asyncio
import collections.abc as abc
import copy
import functools
import json
import random
import re
import sys
import typing
from contextlib import AbstractAsyncContextManager, AbstractContextManager, asynccontextmanager, contextmanager
from typing import Annotated, Any

sys.path.insert(0, "/repo/src")

from diwire import Component, Container, DependencyRegistrationPolicy, Lifetime, MissingPolicy, Scope  # noqa: E402
from diwire import exceptions as X  # noqa: E402

import tlc  # noqa: E402
from framework import Check, parallel  # noqa: E402

ERRORS = (
    (X.DIWireDependencyNotRegisteredError, "E:NotRegistered"),
    (X.DIWireAsyncDependencyInSyncContextError, "E:Async"),
    (X.DIWireInvalidProviderSpecError, "E:InvalidSpec"),
    (X.DIWireInvalidRegistrationError, "E:InvalidReg"),
)
PLAIN = ("no", "bad", "k", "none", "self", "h")


class Thing:
    pass


class Promise:
    """An awaitable that is no coroutine."""

    def __init__(self, v: Any) -> None:
        self.v = v

    def __await__(self) -> Any:
        yield from asyncio.sleep(0).__await__()
        return self.v


def outer(a: dict) -> dict:
    return outer(a["a"]) if a["t"] == "m" else a


def mentions(a: dict, t: str) -> bool:
    return a["t"] == t or (a["t"] not in PLAIN and mentions(a["a"], t))


class Inferring:
    def __init__(self, seed: int) -> None:
        self.rng = random.Random(seed)
        self.labels: dict[int, str] = {}
        self.keep: list[Any] = []
        self.owner: dict[int, Any] = {}
        self.loop = asyncio.new_event_loop()
        self.types = {i: type(f"K{i}", (), {"__module__": __name__}) for i in range(1, 5)}
        self.container = Container(
            missing_policy=MissingPolicy.ERROR,
            dependency_registration_policy=DependencyRegistrationPolicy.IGNORE,
            default_lifetime=self.rng.choice([Lifetime.SCOPED, Lifetime.TRANSIENT]),
            use_resolver_context=self.rng.random() < 0.5,
        )
        self.scope: Any = None

    def label(self, v: Any, text: str) -> Any:
        self.labels[id(v)] = text
        self.keep.append(v)
        return v

    def product(self, pid: int) -> Any:
        return self.label(Thing(), f"p{pid}")

    def error(self, e: BaseException) -> str:
        for cls, text in ERRORS:
            if isinstance(e, cls):
                return text
        return f"E:!{type(e).__name__}: {e}"

    # ---- annotations --------------------------------------------------------
    def of(self, a: dict, *, key: bool = False) -> Any:
        t = a["t"]
        if t == "k":
            return self.types[a["i"]]
        if t == "h":
            return self.owner.get(a["p"], Thing)
        if t == "none":
            return type(None) if key or self.rng.random() < 0.5 else None
        if t == "self":
            return typing.Self
        inner = self.of(a["a"], key=key)
        if t == "m":
            extra: list[Any] = [Component(a["c"])] if a["c"] else []
            if not extra or not key and self.rng.random() < 0.3:
                extra.insert(self.rng.randint(0, len(extra)), self.rng.choice(["doc", 0, None]))
            return Annotated[(inner, *extra)]
        old = mentions(a["a"], "none") or not key and not a.get("key") and self.rng.random() < 0.3
        mod = typing if old else abc
        if t == "un":
            return inner | None if self.rng.random() < 0.5 else typing.Optional[inner]
        return {
            "aw": lambda: mod.Awaitable[inner],
            "co": lambda: mod.Coroutine[Any, Any, inner],
            "ge": lambda: mod.Generator[inner, None, None],
            "ag": lambda: mod.AsyncGenerator[inner, None],
            "it": lambda: mod.Iterator[inner],
            "ai": lambda: mod.AsyncIterator[inner],
            "cm": lambda: typing.ContextManager[inner] if old else AbstractContextManager[inner],
            "am": lambda: typing.AsyncContextManager[inner] if old else AbstractAsyncContextManager[inner],
            "li": lambda: list[inner],
        }[t]()

    def arrow(self, a: dict, ns: dict, name: str, *, pid: int = 0, is_key: bool = False) -> str:
        """Source of a return annotation."""
        if a["t"] == "no":
            return ""
        if a["t"] == "bad":
            return f" -> 'Unknown{name}'"
        if outer(a)["t"] == "ec":
            v = self.entering(outer(a), pid, ns)
            ns[name] = Annotated[v, "doc"] if a["t"] == "m" else v
        else:
            ns[name] = self.of(dict(a, key=True) if is_key else a)
        return f" -> '{name}'" if self.rng.random() < 0.4 else f" -> {name}"

    # ---- providers ----------------------------------------------------------
    def exec(self, src: str, ns: dict) -> dict:
        exec(compile(src, "<provider>", "exec", dont_inherit=True), ns)  # noqa: S102
        return ns

    def entering(self, e: dict, pid: int, outside: dict, *, lead: str = "") -> Any:
        """A context manager class whose entry is annotated as e says."""
        ns: dict[str, Any] = {"W": self, "Promise": Promise}
        awaits = e["a"]["t"] in ("aw", "co")
        value = f"W.label(self, 'p{pid}')" if mentions(e["a"], "self") else f"W.product({pid})"
        arrow = self.arrow(e["a"], ns, "R")
        init = f"    def __init__(self{lead}){self.rng.choice(['', ' -> None'])}:\n        pass\n"
        base = ""
        if e["x"] == "a":
            if awaits:
                src = (f"    def __aenter__(self){arrow}:\n        async def go():\n            return {value}\n"
                       "        return go()\n")
            else:
                src = f"    async def __aenter__(self){arrow}:\n        return {value}\n"
            src += "    async def __aexit__(self, *exc):\n        return None\n"
        else:
            src = f"    def __enter__(self){arrow}:\n        return {value}\n    def __exit__(self, *exc):\n        return None\n"
            if e["x"] == "b":
                src += ("    async def __aenter__(self):\n        return 'wrong'\n"
                        "    async def __aexit__(self, *exc):\n        return None\n")
        if self.rng.random() < 0.3:
            self.exec(f"class B:\n{src}", ns)
            base, src = "(B)", ""
        self.exec(f"class E{base}:\n{init}{src}", ns)
        self.owner[pid] = ns["E"]
        outside["EC"] = ns["E"]
        return ns["E"]

    def build(self, o: dict) -> Any:
        rng, pid, how, form, decl, ann = self.rng, o["pid"], o["how"], o["form"], o["decl"], o["ann"]
        ns: dict[str, Any] = {
            "W": self, "functools": functools, "contextmanager": contextmanager,
            "asynccontextmanager": asynccontextmanager, "Promise": Promise, "asyncio": asyncio,
        }
        lead = ", lead_" if o["part"] else ""
        if form == "cls":
            if how == "m":
                cls = self.entering(ann, pid, ns, lead=lead)
            else:
                arrow = " -> None" if ann["t"] == "none" else ""
                if arrow and rng.random() < 0.3:
                    arrow = " -> 'None'"
                init = f"    def __init__(self{lead}){arrow}:\n        W.label(self, 'p{pid}')\n"
                shape = rng.choice(["plain", "base", "new"]) if not arrow else "plain"
                if shape == "new":
                    src = (f"class H:\n    def __new__(cls{lead}):\n        return W.label(object.__new__(cls), 'p{pid}')\n")
                elif shape == "base":
                    src = f"class B:\n{init}class H(B):\n    pass\n"
                else:
                    src = f"class H:\n{init}"
                cls = self.owner[pid] = self.exec(src, ns)["H"]
            if how == "i":
                return cls() if not o["part"] else cls(5)
            return functools.partial(cls, 5) if o["part"] else cls
        out = outer(ann)["t"]
        awaits = decl == "s" and how == "f" and out in ("aw", "co")
        value = f"W.product({pid})"
        if how == "f":
            if awaits and out == "aw" and rng.random() < 0.5:
                value = f"Promise({value})"
            elif awaits:
                self.exec(f"async def CO():\n    await asyncio.sleep(0)\n    return W.product({pid})\n", ns)
                value = "CO()"
            body = f"return {value}"
        elif decl == "s":
            asyn = out in ("ag", "am")
            self.exec(("async " if asyn else "") + f"def GE():\n    yield {value}\n", ns)
            if how == "m":
                ns["GE"] = (asynccontextmanager if asyn else contextmanager)(ns["GE"])
            body = "return EC()" if out == "ec" else "return GE()"
        else:
            body = f"yield {value}"
        keyed = how == "f" and decl == "a"
        arrow = self.arrow(ann, ns, "R", pid=pid, is_key=keyed)
        a = "async " if decl in ("a", "ag", "acm") else ""
        manage = {"cm": "@contextmanager\n", "acm": "@asynccontextmanager\n"}.get(decl, "")
        if a and how == "f" and rng.random() < 0.5:
            body = "await asyncio.sleep(0)\n{pad}" + body
        p = lead[2:]
        if form in ("def", "wraps"):
            text = body.replace("{pad}", "    ")
            if form == "def":
                self.exec(f"{manage}{a}def F({p}){arrow}:\n    {text}\n", ns)
            else:
                again = {"s": "return G(*args)", "a": "return await G(*args)", "g": "yield from G(*args)",
                         "cm": "yield from G(*args)"}.get(decl, "async for x in G(*args):\n        yield x")
                self.exec(f"{a}def G({p}){arrow}:\n    {text}\n"
                          f"{manage}@functools.wraps(G)\n{a}def F(*args):\n    {again}\n", ns)
            made = ns["F"]
        elif form == "lam":
            made = eval(f"lambda {p}: {value if how == 'f' else 'GE()'}", ns)  # noqa: S307
        else:
            deco = {"static": "    @staticmethod\n", "classm": "    @classmethod\n"}.get(form, "")
            first = {"static": p, "classm": "cls" + lead}.get(form, "self" + lead)
            name = "__call__" if form == "obj" else "make"
            text = body.replace("{pad}", "        ")
            hints = rng.choice(["", "    other: int = 3\n"])
            self.exec(f"class H:\n{hints}{deco}{'    ' + manage if manage else ''}    {a}def {name}({first}){arrow}:\n"
                      f"        {text}\n", ns)
            owner = ns["H"]
            if out != "ec":
                self.owner[pid] = owner
            if form == "obj":
                made = owner()
            elif form == "method" or rng.random() < 0.5:
                made = owner().make
            else:
                made = owner.make
        return functools.partial(made, 5) if o["part"] else made

    # ---- operations ---------------------------------------------------------
    def reg(self, o: dict) -> str:
        rng = self.rng
        target = self.build(o)
        kw: dict[str, Any] = {}
        if o["exp"]["t"] != "no":
            kw["provides"] = self.of(o["exp"], key=True)
        elif rng.random() < 0.3:
            kw["provides"] = "infer"
        if o["comp"]:
            kw["component"] = Component(o["comp"]) if rng.random() < 0.5 else o["comp"]
        if o["how"] != "i":
            if rng.random() < 0.4:
                kw["lifetime"] = rng.choice([Lifetime.SCOPED, Lifetime.TRANSIENT])
            if rng.random() < 0.3:
                kw["scope"] = Scope.REQUEST
        method = {"f": "add_factory", "g": "add_generator", "m": "add_context_manager", "c": "add", "i": "add_instance"}
        getattr(self.container, method[o["how"]])(target, **kw)
        return "ok"

    def dec(self, o: dict) -> str:
        rng, pid = self.rng, o["pid"]
        key = self.of(o["key"], key=True)
        ns: dict[str, Any] = {"W": self, "K": key, "functools": functools, "Promise": Promise}
        arrow = self.arrow(o["ann"], ns, "R")
        value = f"W.layer({pid}, inner)"
        if o["decl"] == "s" and outer(o["ann"])["t"] in ("aw", "co"):
            self.exec("async def CO(v):\n    return v\n", ns)
            value = f"Promise({value})" if outer(o["ann"])["t"] == "aw" else f"CO({value})"
        a = "async " if o["decl"] == "a" else ""
        form = o["form"]
        if form == "cls":
            self.exec(f"class H:\n    def __init__(self, inner: K) -> None:\n        W.layer({pid}, inner, self)\n", ns)
            made = ns["H"]
        elif form == "def":
            self.exec(f"{a}def F(inner: K){arrow}:\n    return {value}\n", ns)
            made = ns["F"]
        elif form == "wraps":
            self.exec(f"{a}def G(inner: K){arrow}:\n    return {value}\n"
                      f"@functools.wraps(G)\n{a}def F(*args, **kw):\n    return {'await ' if a else ''}G(*args, **kw)\n", ns)
            made = ns["F"]
        else:
            deco = {"static": "    @staticmethod\n", "classm": "    @classmethod\n"}.get(form, "")
            first = {"static": "", "classm": "cls, "}.get(form, "self, ")
            name = "__call__" if form == "obj" else "make"
            self.exec(f"class H:\n{deco}    {a}def {name}({first}inner: K){arrow}:\n        return {value}\n", ns)
            made = ns["H"]() if form == "obj" else ns["H"]().make
        if o["part"]:
            made = functools.partial(made)
        kw = {"inner_parameter": "inner"} if o["part"] or rng.random() < 0.5 else {}
        self.container.decorate(provides=key, decorator=made, **kw)
        return "ok"

    def layer(self, pid: int, inner: Any, me: Any = None) -> Any:
        return self.label(Thing() if me is None else me, f"d{pid}({self.labels.get(id(inner), '?' + repr(inner))})")

    def res(self, o: dict) -> str:
        key = self.of(o["key"], key=True)
        if o["as"]:
            async def go() -> Any:
                async with self.container.enter_scope(Scope.REQUEST) as s:
                    return await s.aresolve(key)
            v = self.loop.run_until_complete(go())
        else:
            async def inside() -> Any:
                s = self.container.enter_scope(Scope.REQUEST)
                try:
                    return s.resolve(key)
                finally:
                    await s.aclose()
            v = self.loop.run_until_complete(inside())
        return self.labels.get(id(v), f"?{v!r}")

    def do(self, o: dict) -> str:
        try:
            return getattr(self, o["op"])(o)
        except Exception as e:  # noqa: BLE001
            return self.error(e)

    def finish(self) -> None:
        self.loop.run_until_complete(self.loop.shutdown_asyncgens())
        self.loop.close()


# ---- enumerated registrations -------------------------------------------------
CASE = re.compile(r'^<<"CASE", "(.*)">>$')
K1, K2, NO = {"t": "k", "i": 1}, {"t": "k", "i": 2}, {"t": "no"}


def cases() -> list[dict]:
    out = tlc.run_tlc("InferenceGen.tla", "InferenceGen.cfg")
    found = [json.loads(json.loads('"' + m[1] + '"')) for m in map(CASE.match, out.splitlines()) if m]
    if "No error has been found" not in out or not found:
        raise tlc.TlcFailed(out[-4000:])
    found.sort(key=lambda c: json.dumps(c, sort_keys=True))
    return found


def replay(case: dict, seed: int) -> dict | None:
    w = Inferring(seed)
    try:
        r = w.do(case["o"])
        if r != case["r"]:
            return {"r": r}
        plain = [K1, K2, {"t": "none"}, {"t": "h", "p": 1}, {"t": "self"}, {"t": "un", "a": K1}, {"t": "li", "a": K1}]
        plain += [{"t": t, "a": K1} for t in ("aw", "co", "ge", "ag", "cm", "am")]
        keys = plain + [{"t": "m", "c": 1, "a": a} for a in plain]
        want = {(json.dumps(g["key"], sort_keys=True), g["as"]): g["r"] for g in case["got"]}
        for key in keys:
            if outer(key)["t"] == "h" and 1 not in w.owner:
                continue
            for asyn in (False, True):
                expected = want.get((json.dumps(key, sort_keys=True), asyn), "E:NotRegistered")
                got = w.do({"op": "res", "key": key, "as": asyn})
                if got != expected:
                    return {"key": key, "as": asyn, "r": got, "specified": expected}
        return None
    finally:
        w.finish()


def replay_batch(jobs: list[tuple]) -> list[tuple]:
    return [(case, seed, got) for case, seed in jobs if (got := replay(case, seed)) is not None]


def enumerated(ck: Check) -> None:
    found = cases()
    ck.states += len(found)
    ck.transitions += len(found)
    repeat = 8 if ck.thorough else 1
    jobs = [(case, ck.seed * 100_000 + n * 10 + k) for n, case in enumerate(found) for k in range(repeat)]
    step = 60
    parts = [jobs[a:a + step] for a in range(0, len(jobs), step)]
    for part, (kind, val) in zip(parts, parallel(replay_batch, parts, timeout=max(60.0, ck.left()))):
        if kind == "raised":
            raise RuntimeError(val)
        if kind == "hung":
            ck.violation("replaying enumerated registrations did not end", {"jobs": part[:1]})
            continue
        ck.traces += len(part)
        for case, seed, got in val:
            ck.violation(f"registration {show(case['o'])}, specified {case['r']}: {got}", {"case": case, "seed": seed})
    ck.count("registrations_enumerated", len(found))


def term(a: dict) -> str:
    t = a["t"]
    if t in ("k", "h"):
        return f"{t}{a.get('i', a.get('p'))}"
    if t in PLAIN:
        return t
    extra = {"m": f"{a.get('c')} ", "ec": f"{a.get('x')} "}.get(t, "")
    return f"{t}({extra}{term(a['a'])})"


def show(o: dict) -> str:
    if o["op"] == "res":
        return f"{'a' if o['as'] else ''}resolve {term(o['key'])}"
    text = f"{o.get('how', 'decorate')} {'partial ' if o['part'] else ''}{o['form']} {o['decl']} -> {term(o['ann'])}"
    if o["op"] == "dec":
        return f"{text} of {term(o['key'])}"
    return text + (f" component {o['comp']}" if o["comp"] else "") + (
        f" provides {term(o['exp'])}" if o["exp"]["t"] != "no" else "")


# ---- random histories ---------------------------------------------------------
def leaf(rng: random.Random) -> dict:
    k = {"t": "k", "i": rng.randint(1, 3)}
    a = rng.choice([k, k, k, k, {"t": "none"}, {"t": "self"}, {"t": "un", "a": k}, {"t": "li", "a": k}])
    return {"t": "m", "c": rng.choice([0, 1, 2]), "a": a} if rng.random() < 0.25 else a


def registration(rng: random.Random, pid: int) -> dict:
    how = rng.choices("fgmci", [6, 4, 5, 1, 1])[0]
    o: dict[str, Any] = {"op": "reg", "pid": pid, "how": how, "part": rng.random() < 0.2, "decl": "s"}
    o["form"] = rng.choice(["def", "method", "static", "classm", "obj", "wraps", "cls", "lam"])
    o["comp"] = rng.choice([0, 0, 0, 1, 2])
    o["exp"] = leaf(rng) if rng.random() < 0.2 else NO
    if mentions(o["exp"], "self"):
        o["exp"] = K2
    w = lambda t: {"t": t, "a": leaf(rng)}  # noqa: E731
    if how in "ci":
        o.update(form="cls", part=False, ann=NO)
        return o
    if o["form"] == "lam":
        o["ann"] = NO
        return o
    if how == "g" and o["form"] == "cls":
        o["form"] = "obj"
    if how == "f":
        if o["form"] == "cls":
            o["ann"] = rng.choice([NO, {"t": "none"}])
        else:
            o["decl"] = rng.choice("sa")
            o["ann"] = rng.choice([leaf(rng), leaf(rng), w("aw"), w("co")])
            if o["decl"] == "a" and o["ann"]["t"] in ("aw", "co"):
                o["ann"]["a"] = {"t": "k", "i": rng.randint(1, 3)}
    elif how == "g":
        o["decl"] = rng.choice(["g", "ag", "s"])
        o["ann"] = w({"g": "ge", "ag": "ag"}.get(o["decl"]) or rng.choice(["ge", "ag"]))
    else:
        x = rng.choice("sab")
        e = {"t": "ec", "x": x, "a": w(rng.choice(["aw", "co"])) if x == "a" and rng.random() < 0.3 else leaf(rng)}
        if o["form"] == "cls":
            o["ann"] = e
        else:
            o["decl"] = rng.choice(["cm", "acm", "s"])
            o["ann"] = w({"cm": "ge", "acm": "ag"}[o["decl"]]) if o["decl"] != "s" else rng.choice([w("cm"), w("am"), e])
    if rng.random() < 0.08:
        if o["ann"]["t"] == "ec":
            o["ann"] = dict(o["ann"], a=rng.choice([NO, {"t": "bad"}]))
        elif o["form"] != "cls":
            o["ann"] = rng.choice([NO, {"t": "bad"}, {"t": "li" if how == "f" else "ai" if o["decl"] in ("ag", "acm") else "it", "a": K1}])
            if how == "m" and o["decl"] == "s" and o["ann"]["t"] == "it":
                o["ann"] = NO
    return o


def history(n: int) -> dict:
    rng = random.Random(n * 7919 + 3)
    w = Inferring(n)
    ops: list[dict] = []
    keys: list[dict] = [K1]

    def do(o: dict) -> str:
        r = w.do(o)
        ops.append({**o, "r": r, "ev": []})
        return r

    try:
        pid = 0
        for _ in range(rng.randint(1, 5)):
            pid += 1
            o = registration(rng, pid)
            r = do(o)
            a = outer(o["ann"])
            cand = [o["exp"]] if o["exp"]["t"] != "no" else []
            while True:
                if a["t"] not in ("no", "bad", "self", "ec", "it", "ai") and (a["t"] in PLAIN or a["a"]["t"] != "m"):
                    cand.append(a)
                if a["t"] in PLAIN:
                    break
                a = outer(a["a"])
            if pid in w.owner:
                cand.append({"t": "h", "p": pid})
            for c in {0, o["comp"], *([o["ann"]["a"].get("c", 0)] if "a" in o["ann"] else []), o["ann"].get("c", 0)}:
                keys += [{"t": "m", "c": c, "a": outer(k)} if c else outer(k) for k in cand]
            keys = [k for i, k in enumerate(keys) if k not in keys[:i]]
            live = [k for k in keys if any(
                q["op"] == "res" and q["key"] == k and not q["r"].startswith("E:") for q in ops)]
            if live and rng.random() < 0.4 and r == "ok":
                pid += 1
                decl = rng.choice("ssa")
                base = rng.choice(live)
                form = rng.choice(["def", "method", "static", "classm", "obj", "wraps", "cls"])
                ann = rng.choice([NO, K1, {"t": "aw", "a": K1}, {"t": "co", "a": K1}]) if decl == "s" else rng.choice([NO, K1])
                if form == "cls":
                    decl, ann = "s", NO
                do({"op": "dec", "pid": pid, "key": base, "form": form, "decl": decl, "ann": ann,
                    "part": rng.random() < 0.2})
            for k in rng.sample(keys, min(len(keys), 8)):
                for asyn in rng.sample([False, True], rng.randint(1, 2)):
                    do({"op": "res", "key": k, "as": asyn})
        for k in keys:
            do({"op": "res", "key": k, "as": True})
    finally:
        w.finish()
    return {"id": n, "ops": ops}


def batch(job: tuple) -> list[dict]:
    lo, hi = job
    return [history(n) for n in range(lo, hi)]


def corrupted(t: dict) -> dict | None:
    t = copy.deepcopy(t)
    for o in t["ops"]:
        if o["op"] == "res" and o["r"].startswith("p"):
            o["r"] = "p99"
            return t
    return None


def sampled(ck: Check) -> None:
    count, chunk = (60000, 6000) if ck.thorough else (3000, 3000)
    base = ck.seed * 1_000_000
    done = 0
    while done < count and (done == 0 or ck.left() > 40):
        n = min(chunk, count - done)
        jobs = [(base + done + a, base + done + min(a + 25, n)) for a in range(0, n, 25)]
        traces: list[dict] = []
        for job, (kind, val) in zip(jobs, parallel(batch, jobs, timeout=max(60.0, ck.left()))):
            if kind == "ok":
                traces.extend(val)
            elif kind == "hung":
                ck.violation(f"histories {job} did not end", {"job": job})
            else:
                raise RuntimeError(val)
        done += n
        bad = [b for b in map(corrupted, traces[:6]) if b]
        verdicts, st = tlc.validate(traces + bad, "InferenceTrace")
        ck.states += st["states"]
        ck.transitions += st["transitions"]
        for i, t in enumerate(traces):
            v, k, exp = verdicts[i]
            ck.traces += 1
            ck.count("operations", len(t["ops"]))
            if v == "WILD":
                ck.count("left_domain")
            elif v != "ACCEPT":
                o = t["ops"][k - 1]
                before = "; ".join(f"{show(q)}: {q['r']}" for q in t["ops"][:k - 1] if q["op"] != "res")
                ck.violation(f"history {t['id']}, operation {k}: {show(o)}: {o['r']}, specified {exp['r']}; after {before}",
                             {"trace": {**t, "ops": t["ops"][:k]}, "expected": exp})
        for j in range(len(bad)):
            if verdicts[len(traces) + j][0] == "ACCEPT":
                raise RuntimeError(f"a corrupted trace was accepted: {bad[j]}")
        ck.count("corrupted_traces_rejected", len(bad))
        if traces:
            t = traces[len(traces) // 2]
            ck.sample({"id": t["id"], "ops": [f"{show(o)}: {o['r']}" for o in t["ops"][:12]]})
        if len(ck.violations) >= 3:
            break
