"""Open and closed generic types in histories: terms, the generic types and
type variables of a history, and generation of templates (registrations for
open generic types).  What a template serves is decided by spec/Templates.tla;
the matching here only serves to enumerate the types a history can mention."""
from __future__ import annotations

import collections.abc
import random
from typing import Any, Callable, Generic, NewType, TypeVar, Union, get_args, get_origin

FIRST = 50                      # number of the first closed generic type
LIST = 0                        # the built-in list; the others are declared
CALL = 4                        # Callable[[a], b]
ARITY = {0: 1, 1: 1, 2: 2, 3: 1, 4: 2}
RANK = {0: 0, 4: 0, 1: 1, 3: 2, 2: 3}
GEN_BASE = 9000


def names(x: list) -> set[int]:
    """Variables of a term."""
    if x[0] == "v":
        return {x[1]}
    if x[0] == "g":
        return set().union(*(names(a) for a in x[2]))
    return set()


def fits(x: list, room: int) -> int:
    """What is left of room after counting the nodes of x (negative: too big)."""
    room -= 1
    for a in x[2] if x[0] == "g" else ():
        if room < 0:
            break
        room = fits(a, room)
    return room


def match(p: list, x: list, m: dict[int, Any]) -> bool:
    if p[0] == "v":
        return m.setdefault(p[1], x) == x
    if p[0] == "c":
        return p == x
    return x[0] == "g" and x[1] == p[1] and all(match(a, b, m) for a, b in zip(p[2], x[2]))


def subst(p: list, m: dict[int, Any]) -> list:
    if p[0] == "v":
        return m.get(p[1], p)
    if p[0] == "g":
        return ["g", p[1], [subst(a, m) for a in p[2]]]
    return p


def intern(gen: dict, x: list) -> int:
    """The number of a closed term."""
    if x[0] == "c":
        return x[1]
    for e in gen["terms"]:
        if e["tm"] == x:
            return e["t"]
    for a in x[2]:
        intern(gen, a)
    gen["terms"].append({"t": FIRST + len(gen["terms"]), "tm": x})
    return gen["terms"][-1]["t"]


class Space:
    """The types of one history; `cfg` is what the specification gets to know."""

    def __init__(self, rng: random.Random, nt: int, consts: list[int], bounded: float = 0.15) -> None:
        self.rng = rng
        self.consts = list(consts)
        par = {t: rng.choice(consts[:i]) for i, t in enumerate(consts) if i and rng.random() < 0.4}
        sub = []
        for t in consts:
            a = t
            while a in par:
                a = par[a]
                sub.append([t, a])
        uni: list[dict] = []
        nty: list[dict] = []
        for t in (45, 46):
            if rng.random() < 0.2:
                nty.append({"t": t, "of": [["c", rng.choice(consts)]]})
                self.consts.append(t)
        for t in (41, 42):
            if rng.random() < 0.25 and len(self.consts) > 2:
                of = sorted(rng.sample(self.consts, rng.choice((2, 2, 3))))
                if all(t not in e["of"] for e in uni) and not any(x in (41, 42) for x in of) and not any(
                    e["of"] == [["c", x] for x in of] for e in uni
                ):
                    uni.append({"t": t, "of": [["c", x] for x in of]})
        self.consts += [e["t"] for e in uni]
        consts = self.consts
        self.child = rng.random() < 0.6          # type 3 derives from type 1
        if self.child:
            sub.append([GEN_BASE + 3, GEN_BASE + 1])
        self.vars: dict[int, list] = {}          # variable -> restrictions
        for v in (1, 2):
            self.vars[v] = []
        self.vars[3] = [self.bound()]
        self.vars[4] = [self.bound(), self.bound()]
        if self.vars[4][0] == self.vars[4][1]:
            self.vars[4] = []
        self.own = {g: [10 * g + i + 1 for i in range(ARITY[g])] for g in (1, 2, 3)}
        for g in (1, 2, 3):
            for v in self.own[g]:
                self.vars[v] = [["c", rng.choice(consts)]] if rng.random() < bounded else []
        if self.child:
            self.vars[self.own[3][0]] = self.vars[self.own[1][0]]
        self.cfg = {
            "tpls": [], "terms": [], "sub": sub, "uni": uni, "nty": nty,
            "vars": [{"v": v, "cons": c} for v, c in sorted(self.vars.items()) if c],
            # for the harness only
            "par": sorted(par.items()), "child": self.child,
            "own": [[g, vs] for g, vs in sorted(self.own.items())],
            "new": [g for g in (1, 2) if rng.random() < 0.3 and not any(self.vars[v] for v in self.own[g])],
        }
        self.specs: dict[int, list[list[dict]]] = {}   # open key -> dependencies of its registrations
        self.scope: dict[int, int] = {}

    def bound(self) -> list:
        rng = self.rng
        r = rng.random()
        if r < 0.08:
            return ["any"]
        if r < 0.2:
            return ["g", 1, [["c", rng.choice(self.consts)]]]
        return ["c", rng.choice(self.consts)]

    def intern(self, x: list) -> int:
        return intern(self.cfg, x)

    def term(self, t: int) -> list:
        return self.cfg["terms"][t - FIRST]["tm"] if t >= FIRST else ["c", t]

    def closed(self, depth: int = 2) -> list:
        rng = self.rng
        if depth == 0 or rng.random() < 0.6:
            return ["c", rng.choice(self.consts)]
        g = rng.choice((0, 0, 1, 2, 3, 4))
        return ["g", g, [self.closed(depth - 1) for _ in range(ARITY[g])]]

    def instance(self, x: int) -> list:
        """A closed term the open key x may serve."""
        p = self.cfg["tpls"][x]["tm"]
        return subst(p, {v: self.closed(1) for v in sorted(names(p))})

    def pattern(self, g: int, plain: bool) -> list:
        rng = self.rng
        pool = sorted({1, 2, 3, 4} | set(self.own[g]))
        if plain:
            if rng.random() < 0.5:
                return ["g", g, [["v", v] for v in self.own[g]]]
            return ["g", g, [["v", rng.choice(pool)] for _ in range(ARITY[g])]]

        def arg(depth: int) -> list:
            r = rng.random()
            if r < 0.5:
                return ["v", rng.choice(pool)]
            if r < 0.75 or depth == 0:
                return ["c", rng.choice(self.consts)]
            h = rng.choice((0, 1, 2, 3, 4))
            return ["g", h, [arg(depth - 1) for _ in range(ARITY[h])]]

        near = [e["tm"] for e in self.cfg["tpls"] if e["tm"][1] == g]
        if near and rng.random() < 0.5:
            # more specific than one there is, or nearly so
            args = list(rng.choice(near)[2])
            for _ in range(rng.choice((1, 1, 2))):
                i = rng.randrange(len(args))
                if args[i][0] == "v" and rng.random() < 0.4:
                    h = rng.choice((0, 1, 3))
                    args[i] = ["g", h, [args[i]]]
                else:
                    args[i] = arg(1)
            if any(names(a) for a in args):
                return ["g", g, args]
        while True:
            out = ["g", g, [arg(1) for _ in range(ARITY[g])]]
            if names(out):
                return out

    def open_key(self, tm: list, n: int) -> int:
        for i, e in enumerate(self.cfg["tpls"]):
            if e["tm"] == tm and e["n"] == n:
                return i
        self.cfg["tpls"].append({"tm": tm, "n": n})
        return len(self.cfg["tpls"]) - 1

    def dependency(self, x: int, odd: bool, plain: bool) -> list | None:
        """A generic type a provider of the open key x may depend on."""
        rng = self.rng
        p = self.cfg["tpls"][x]["tm"]
        vs = sorted(names(p))

        def arg(depth: int) -> list:
            r = rng.random()
            if r < 0.75:
                return ["v", rng.choice(vs)]
            if r < 0.9 or depth == 0 or plain:
                return ["c", rng.choice(self.consts)]
            h = rng.choice((0, 0, 1, 3, 4))
            return ["g", h, [arg(depth - 1) for _ in range(ARITY[h])]]

        if odd:
            g = rng.choice((1, 2, 3))
            return ["g", g, [["v", rng.choice(vs)] for _ in range(ARITY[g])]]
        lower = [g for g in (1, 2, 3) if RANK[g] < RANK[p[1]]]
        if lower:
            g = rng.choice(lower)
            return ["g", g, [arg(1) for _ in range(ARITY[g])]]
        inner = [a for a in p[2] if a[0] == "g" and a[1] == p[1]]
        return rng.choice(inner) if inner else None

    def served(self, t: int, n: int) -> list[int]:
        """Open keys whose pattern fits."""
        x = self.term(t)
        return [i for i, e in enumerate(self.cfg["tpls"]) if e["n"] == n and i in self.specs and match(e["tm"], x, {})]

    def close(self) -> None:
        """Number every type the templates can be asked about."""
        todo = [e["tm"] for e in self.cfg["terms"]]
        while todo:
            x = todo.pop()
            for i, specs in self.specs.items():
                m: dict[int, Any] = {}
                if not match(self.cfg["tpls"][i]["tm"], x, m):
                    continue
                for deps in specs:
                    for d in deps:
                        y = subst(d["tm"], m)
                        if fits(y, 200) < 0:
                            raise Endless
                        if not names(y):
                            known = len(self.cfg["terms"])
                            self.intern(y)
                            todo += [e["tm"] for e in self.cfg["terms"][known:]]
            if len(self.cfg["terms"]) > 400:
                raise Endless


class Endless(Exception):
    """The types of this history do not end."""


class PyTypes:
    """Python types for the terms of a history."""

    def __init__(self, world: Any, gen: dict) -> None:
        self.world = world
        self.gen = gen
        self.cons = {e["v"]: e["cons"] for e in gen["vars"]}
        self.own = dict(gen["own"])
        self.vars: dict[int, Any] = {}
        self.others: dict[int, Any] = {}
        self.generics: dict[int, Any] = {LIST: list}
        for g in (1, 2, 3):
            self.generics[g] = self.declare(g)

    def var(self, v: int) -> Any:
        if v not in self.vars:
            cons = [Any if c[0] == "any" else self.of(c) for c in self.cons.get(v, [])]
            if len(cons) > 1:
                self.vars[v] = TypeVar(f"V{v}", *cons)
            elif cons:
                self.vars[v] = TypeVar(f"V{v}", bound=cons[0])
            else:
                self.vars[v] = TypeVar(f"V{v}")
        return self.vars[v]

    def declare(self, g: int) -> Any:
        own = self.own[g]
        if g in self.gen["new"]:
            ns: dict[str, Any] = {}
            exec(f"class G{g}[{', '.join(f'V{v}' for v in own)}]: pass", ns)  # noqa: S102
            cls = ns[f"G{g}"]
            self.vars.update(zip(own, cls.__type_params__))
        elif g == 3 and self.gen["child"]:
            v = self.var(own[0])
            ns = {"G1": self.generics[1], "V": v, "Generic": Generic}
            exec("class G3(G1[V], Generic[V]): pass", ns)  # noqa: S102
            cls = ns["G3"]
        else:
            # bounds may mention type 1, which is declared by then
            ns = {"Generic": Generic, "VS": tuple(self.var(v) for v in own)}
            exec(f"class G{g}(Generic[VS]): pass", ns)  # noqa: S102
            cls = ns[f"G{g}"]
        cls.__module__ = __name__
        return cls

    def plain(self, t: int) -> Any:
        """A plain type that is no class."""
        if t not in self.others:
            for e in self.gen["uni"]:
                if e["t"] == t:
                    self.others[t] = Union[tuple(self.of(x) for x in e["of"])]
            for e in self.gen["nty"]:
                if e["t"] == t:
                    self.others[t] = NewType(f"N{t}", self.of(e["of"][0]))
        v = self.others[t]
        if get_origin(v) is Union and self.world.rng.random() < 0.5:
            out = None
            args = list(get_args(v))
            self.world.rng.shuffle(args)
            for a in args:
                out = a if out is None else out | a
            return out
        return v

    def of(self, x: list) -> Any:
        if x[0] == "c":
            if 40 < x[1] < FIRST:
                return self.plain(x[1])
            return self.world.type_of(x[1])
        if x[0] == "v":
            return self.var(x[1])
        args = tuple(self.of(a) for a in x[2])
        if x[1] == CALL:
            return Callable[[args[0]], args[1]]
        cls = self.generics[x[1]]
        if x[1] != LIST and self.world.rng.random() < 0.2:
            # by way of the open alias
            return cls[tuple(self.var(v) for v in self.own[x[1]])][args]
        return cls[args]

    def pattern(self, x: list) -> Any:
        """An open key, spelled in one of its ways."""
        if x[1] != LIST and x[2] == [["v", v] for v in self.own[x[1]]] and self.world.rng.random() < 0.5:
            return self.generics[x[1]]
        return self.generics[x[1]][tuple(self.of(a) for a in x[2])]

    def term(self, v: Any) -> list:
        """The term of a Python type."""
        origin = get_origin(v)
        if v in self.others.values():
            return ["c", next(t for t, known in self.others.items() if known == v)]
        if origin is None:
            return ["c", next(t for t, known in self.world.types.items() if known is v)]
        if origin is collections.abc.Callable:
            ps, r = get_args(v)
            return ["g", CALL, [self.term(ps[0]), self.term(r)]]
        g = next(g for g, cls in self.generics.items() if cls is origin)
        return ["g", g, [self.term(a) for a in get_args(v)]]
