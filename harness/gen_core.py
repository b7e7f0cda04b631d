"""Generates histories for DiwireCore and performs them as it goes.

The generator only keeps enough bookkeeping to stay in the specified domain
(which scopes may still be used) and to make interesting choices; what the
operations should do is decided by the specification alone."""
from __future__ import annotations

import random
import traceback
from typing import Any

import generics
from world import World

BASE_LADDER = [
    {"l": 1, "sk": False},
    {"l": 2, "sk": True},
    {"l": 3, "sk": False},
    {"l": 4, "sk": False},
    {"l": 5, "sk": False},
]

# weights of a profile; a profile overrides some of them
DEFAULT = dict(
    types=(3, 6),
    steps=(10, 24),
    ladder="base",          # base | any
    p_out=0.08,             # the ladder has levels outside the root scope
    kinds=dict(c=4, f=4, g=2, m=2, i=1),
    p_async=0.2,
    p_transient=0.3,
    p_inject=0.15,          # a provider is wrapped by inject
    p_nest=0.35,            # a provider that gets a handle calls it
    p_none=0.04,            # provider yields None
    p_comp=0.12,            # component-qualified registration
    dep_kinds=dict(p=10, m=2, a=1, h=2, g=1, x=1.5, y=1, f=0.5),
    ndeps=(0, 3),
    p_default=0.3,
    p_deeper=0.05,          # dependency of a deeper scope
    ops=dict(res=11, ent=3, cls=2.5, call=3, reg=0.6, dec=0.2, bad=0.15, cmp=0.15),
    tok_kinds=dict(p=12, m=2, a=1.5, h=1, g=0.6, x=1, y=0.7),
    p_async_op=0.4,
    p_fail=0.08,            # some provider raises in this request
    p_relfail=0.15,
    p_exc=0.25,
    p_ctx=0.5,
    p_bad_enter=0.05,
    p_root_close=0.01,
    mp="e", dp="i", dl=None,
    p_unregistered=0.15,    # type left unregistered at first
    p_defects=0.15,         # histories whose graphs may have cycles, gaps, deep handles
    p_fit=0.8,              # resolve where the key's scope is open
    p_pre_dec=0.1,
    autoreg=0,              # number of autoregistrable types
    p_pol=0.0,
    max_scopes=7,
    p_swarm=0.5,
    max_level=0,
    urc=None,
    templates=(0, 0),       # registrations for open generic types
    p_bounded=0.15,         # type variables of generic types that have a bound
    p_closed=0.6,           # ask for a closed generic type
    tdep_kinds=dict(t=5, p=8, m=2, h=1, g=0.7, v=0.8, w=0.5, a=0.4, f=0.6, u=0.3),
)


def pick(rng: random.Random, weights: dict) -> Any:
    ks = [k for k, w in weights.items() if w > 0]
    return rng.choices(ks, [weights[k] for k in ks])[0]


class Gen:
    world_class = World

    def __init__(self, seed: int, profile: dict) -> None:
        self.rng = rng = random.Random(seed)
        self.p = p = self.swarm({**DEFAULT, **profile})
        self.lad = self.ladder()
        self.out = self.outer_levels()
        self.nt = rng.randint(*p["types"])
        self.auto = list(range(self.nt + 1, self.nt + 1 + p["autoreg"]))
        self.defects = rng.random() < p["p_defects"]
        self.auto_deps = False
        self.pid = 0
        self.mand: dict[int, set[int]] = {}
        self.sc_of: dict[int, int] = {}
        self.regs: set[int] = set()
        cfg = {
            "lad": self.lad,
            "out": self.out,
            "mp": rng.choice(p["mp"]),
            "dp": rng.choice(p["dp"]),
            "dl": p["dl"] or rng.choice("SST"),
            "urc": rng.random() < 0.5 if p["urc"] is None else p["urc"],
            "lock": self.lock_mode(),
            "cls": [],
        }
        self.space = None
        if p["templates"][1]:
            self.space = generics.Space(rng, self.nt, list(range(1, self.nt + 1)), p["p_bounded"])
            cfg["gen"] = self.space.cfg
        cfg = self.make_cfg(cfg)
        for t in self.auto:
            self.sc_of[t * 10] = self.lad[0]["l"]
        for t in self.auto:
            ok = rng.random() < 0.85
            held = ok and rng.random() < 0.2
            deps = self.deps(t * 10, self.lad[0]["l"], "c") if ok and not held else []
            cfg["cls"].append({"t": t, "ok": ok, "set": held, "deps": deps})
        self.cfg = cfg
        self.world = self.world_class(cfg, random.Random(seed ^ 0x5EED))
        self.ops: list[dict] = []
        # bookkeeping of scopes: node -> [parent node, open]; node 0.. roots
        self.nodes: list[list] = []
        self.handle_node: list[int] = []
        self.root_node: int | None = None
        self.container_closed = False
        self.lazy: list[int | None] = []   # lazy handle -> scope handle (0 container)
        self.closed_handles: set[int] = set()

    def make_cfg(self, cfg: dict) -> dict:
        return cfg

    def lock_mode(self) -> str:
        return self.rng.choice("tanuu")

    def swarm(self, p: dict) -> dict:
        """Drop some features: several code paths exist only in their absence."""
        rng = self.rng
        if rng.random() >= p["p_swarm"]:
            return p
        p = dict(p)
        for name in ("kinds", "dep_kinds", "tok_kinds"):
            keep = {k: w for k, w in p[name].items() if rng.random() < 0.65}
            if keep and name != "tok_kinds":
                p[name] = keep
        for name in ("p_async", "p_comp", "p_fail", "p_relfail", "p_deeper", "p_transient", "p_none", "p_async_op"):
            if rng.random() < 0.35:
                p[name] = 0
        for name in ("reg", "dec", "bad", "call", "cmp"):
            if rng.random() < 0.3:
                p["ops"] = {k: w for k, w in p["ops"].items() if k != name}
        if rng.random() < 0.2:
            p["max_level"] = 1
        return p

    # ---- structure ---------------------------------------------------
    def ladder(self) -> list[dict]:
        rng = self.rng
        if self.p["ladder"] == "base":
            return BASE_LADDER
        n = rng.randint(2, 5)
        levels = sorted(rng.sample(range(1, 12), n))
        return [{"l": l, "sk": i > 0 and rng.random() < 0.35} for i, l in enumerate(levels)]

    def outer_levels(self) -> list[int]:
        """Levels of the ladder outside the root scope."""
        return [x for x in range(self.lad[0]["l"]) if self.rng.random() < 0.6] if self.rng.random() < self.p["p_out"] else []

    def new_pid(self) -> int:
        self.pid += 1
        return self.pid

    def any_key(self) -> int:
        if self.space and self.space.specs and self.rng.random() < self.p["p_closed"]:
            return self.closed_key()
        if self.sc_of and self.rng.random() < 0.9:
            return self.rng.choice(sorted(self.sc_of))
        return self.rng.randint(1, self.nt + 1) * 10

    def closed_key(self) -> int:
        """A closed generic type a template may serve (or not quite)."""
        rng, sp = self.rng, self.space
        if rng.random() < 0.5 and sp.cfg["terms"]:
            e = rng.choice(sp.cfg["terms"])
            hit = [x for x in sp.specs if generics.match(sp.cfg["tpls"][x]["tm"], e["tm"], {})]
            if hit:
                return e["t"] * 10 + sp.cfg["tpls"][rng.choice(hit)]["n"]
        if rng.random() < 0.1:
            x = sp.closed()
            return sp.intern(x) * 10 if x[0] == "g" else x[1] * 10
        x = rng.choice(sorted(sp.specs))
        return sp.intern(sp.instance(x)) * 10 + sp.cfg["tpls"][x]["n"]

    def depth_of(self, key: int) -> int:
        """The level a request for key needs, as far as that can be guessed."""
        if key in self.sc_of or key < generics.FIRST * 10:
            return self.sc_of.get(key, 0)
        return max((self.space.scope[x] for x in self.space.served(key // 10, key % 10)), default=0)

    def ctx_key(self) -> int:
        return self.rng.choice([10, 20, 21, 30])

    def deps(self, key: int, sc: int, kind: str) -> list[dict]:
        """Dependencies of a provider for key; sound ones unless self.defects."""
        rng, p = self.rng, self.p
        out = []
        for _ in range(rng.randint(*p["ndeps"])):
            k = pick(rng, p["dep_kinds"])
            if k == "f" and kind != "c":
                k = "p"
            if k in "xy":
                out.append({"k": k, "key": self.ctx_key(), "d": k == "y" and rng.random() < p["p_default"]})
                continue
            odd = self.defects and rng.random() < 0.3
            below = sorted(x for x in self.sc_of if x // 10 < key // 10)
            known = sorted(self.sc_of)
            absent = (self.nt + 1 + rng.randint(0, 3)) * 10
            if odd:
                dk = rng.choice([self.any_key(), absent, key])
            elif k in "hg":
                cand = [x for x in known if self.sc_of[x] <= sc]
                if rng.random() < p["p_nest"]:
                    cand = [x for x in cand if x in below] or cand
                if not cand:
                    continue
                dk = rng.choice(cand)
            elif k in "vw":
                cand = [x for x in known if self.sc_of[x] <= sc] + [absent]
                dk = rng.choice(cand)
            else:
                cand = [x for x in below if self.sc_of[x] <= sc]
                if rng.random() < p["p_deeper"] or not cand:
                    cand = below
                if k in "mf" and rng.random() < 0.35:
                    cand = [absent]
                if not cand:
                    if k in "pf":
                        continue
                    cand = [absent]
                dk = rng.choice(cand)
            if k == "a":
                dk = dk // 10 * 10
                # a collection containing the consumer itself is a cycle
                if dk // 10 == key // 10 and not odd:
                    continue
            d = k in "mvwp" and rng.random() < p["p_default"]
            out.append({"k": k, "key": dk, "d": d})
        return out

    def registration(self, t: int, key: int | None = None) -> dict:
        rng, p = self.rng, self.p
        if key is None:
            key = t * 10 + (rng.randint(1, 3) if rng.random() < p["p_comp"] else 0)
        kind = pick(rng, p["kinds"])
        levels = [e["l"] for e in self.lad]
        if p["max_level"] == 1:
            levels = levels[:1]
        w = [3] + [1.5 if not e["sk"] else 1 for e in self.lad[1:]]
        sc = rng.choices(levels, w[: len(levels)])[0]
        if self.out and rng.random() < 0.12:
            sc = rng.choice(self.out)
        dl = self.cfg["dl"]
        pid = self.new_pid()
        if kind == "i":
            o = {"op": "reg", "key": key, "pid": pid, "kind": "i", "as": False, "deps": [],
                 "sc": self.lad[0]["l"], "lt": dl, "rv": "n" if rng.random() < p["p_none"] else "o", "pol": ""}
        else:
            o = {"op": "reg", "key": key, "pid": pid, "kind": kind,
                 "as": kind != "c" and rng.random() < p["p_async"],
                 "deps": self.deps(key, sc, kind), "sc": sc,
                 "lt": "T" if rng.random() < p["p_transient"] else "S",
                 "rv": "n" if kind != "c" and rng.random() < p["p_none"] else "o",
                 "pol": rng.choice("ir") if rng.random() < p["p_pol"] else ""}
            if kind != "c":
                self.inject(o)
        return o

    def inject(self, o: dict) -> None:
        """Let inject fill some parameters of a provider: keys of types below its
        own, so that no construction needs itself; context values always."""
        if self.defects or self.p["autoreg"] or self.rng.random() >= self.p["p_inject"]:
            return
        tpl = "x" in o
        own = 40 if tpl else min(o["key"] // 10, 40)

        def moved(d: dict) -> bool:
            if tpl and d["tm"][0] != "c":
                return False
            return d["k"] in "xy" or d["k"] in "pmahgvw" and d["key"] // 10 < own and self.rng.random() < 0.6

        inj = [d for d in o["deps"] if moved(d)]
        o["deps"] = [d for d in o["deps"] if d not in inj]
        inj = [{"k": d["k"], "key": d["key"], "d": d["d"]} for d in inj]
        o["inj"] = [d for d in inj if d["k"] not in "xy"] + [d for d in inj if d["k"] in "xy"]
        o["auto"] = not tpl and self.rng.random() < 0.5

    def nest(self, o: dict) -> None:
        """Let the provider call one of its handles: to a type below its own, so
        that no construction needs itself."""
        o.pop("nest", None)
        if self.defects or self.p["autoreg"] or self.rng.random() >= self.p["p_nest"]:
            return
        kinds = "hvgw" if o["as"] else "hv"
        fit = [i + 1 for i, d in enumerate(o["deps"] + o.get("inj", []))
               if d["k"] in kinds and d["key"] // 10 < min(o["key"] // 10, 40)]
        if fit:
            o["nest"] = self.rng.choice(fit)

    # ---- templates ------------------------------------------------------
    def template_deps(self, x: int, sc: int, kind: str) -> list[dict]:
        rng, p, sp = self.rng, self.p, self.space
        tm = sp.cfg["tpls"][x]["tm"]
        out = []
        for _ in range(rng.randint(0, 3)):
            if rng.random() < 0.35:
                few = [d for d in self.deps(10 ** 9, sc, kind) if d["key"] < 10 ** 9]
                for d in few[:1]:
                    out.append(dict(d, tm=sp.term(d["key"] // 10), n=d["key"] % 10, al=-1))
                continue
            k = pick(rng, p["tdep_kinds"])
            d = {"k": k, "key": 0, "n": 0, "al": -1, "d": k in "pmvwt" and rng.random() < p["p_default"]}
            vs = sorted(generics.names(tm))
            if k == "t":
                d["tm"] = ["v", rng.choice(vs)]
            elif k == "u":
                if not self.defects:
                    continue
                d["k"] = rng.choice("pmht")
                d["tm"] = ["v", 2] if d["k"] == "t" else ["g", 1, [["v", 2]]]
                if 2 in vs:
                    continue
            else:
                if k == "f" and kind != "c":
                    d["k"] = "p"
                odd = self.defects and rng.random() < 0.4
                y = sp.dependency(x, odd, self.defects)
                if y is None:
                    continue
                d["tm"] = y
                near = [z for z in sp.specs if sp.cfg["tpls"][z]["tm"][1] == y[1]]
                if near and rng.random() < 0.5:
                    d["n"] = sp.cfg["tpls"][rng.choice(near)]["n"] if k != "a" else 0
                if near and not odd and d["k"] not in "vwa" and rng.random() > p["p_deeper"]:
                    if any(sp.scope[z] > sc for z in near):
                        continue
            out.append(d)
        return out

    def template(self, x: int | None = None) -> dict:
        rng, p, sp = self.rng, self.p, self.space
        if x is None:
            if sp.specs and rng.random() < 0.3:
                x = rng.choice(sorted(sp.specs))
            else:
                have = {sp.cfg["tpls"][y]["tm"][1] for y in sp.specs}
                fresh = [g for g in (1, 3, 2) if g not in have]
                g = fresh[0] if fresh and rng.random() < 0.6 else rng.choice((1, 2, 3))
                x = sp.open_key(sp.pattern(g, plain=g not in have), rng.randint(1, 3) if rng.random() < p["p_comp"] else 0)
        kind = pick(rng, {k: w for k, w in p["kinds"].items() if k != "i"} or {"f": 1})
        levels = [e["l"] for e in self.lad]
        sc = rng.choices(levels, [3] + [1] * (len(levels) - 1))[0]
        o = {"op": "tpl", "x": x, "pid": self.new_pid(), "kind": kind,
                "as": kind != "c" and rng.random() < p["p_async"], "deps": self.template_deps(x, sc, kind),
                "sc": sc, "lt": "T" if rng.random() < p["p_transient"] else "S",
                "rv": "n" if kind != "c" and rng.random() < p["p_none"] else "o",
                "pol": rng.choice("ir") if rng.random() < p["p_pol"] else ""}
        if kind != "c":
            self.inject(o)
        return o

    def tpl(self, o: dict) -> None:
        sp = self.space
        sp.specs.setdefault(o["x"], []).append(o["deps"])
        sp.scope[o["x"]] = o["sc"]
        self.perform(o)
        self.root_node = None

    def do_tpl(self) -> None:
        self.tpl(self.template())

    def do_tdec(self) -> None:
        rng, sp = self.rng, self.space
        if not sp.cfg["tpls"]:
            return
        x = rng.randrange(len(sp.cfg["tpls"]))
        e = sp.cfg["tpls"][x]
        deps = [d for d in self.template_deps(x, sp.scope.get(x, self.lad[0]["l"]), "f")
                if d["tm"] != e["tm"] and d["k"] != "f"]
        o = {"op": "tdec", "x": x, "pid": self.new_pid(),
             "as": rng.random() < self.p["p_async"] * 0.5, "deps": deps}
        self.inject(o)
        o["inn"] = rng.randint(1, len(o["deps"]) + 1)
        o["deps"].insert(o["inn"] - 1, {"k": "p", "key": 0, "tm": e["tm"], "n": e["n"], "al": -1, "d": False})
        self.tdec(o)

    def tdec(self, o: dict) -> None:
        self.space.specs.setdefault(o["x"], []).append(o["deps"])
        self.space.scope.setdefault(o["x"], 0)
        self.perform(o)
        self.root_node = None

    def decoration(self, key: int) -> dict:
        rng = self.rng
        sc = self.sc_of.get(key, self.lad[0]["l"])
        deps = [d for d in self.deps(key, sc, "f") if d["k"] not in "f" and d["key"] // 10 != key // 10]
        o = {"op": "dec", "key": key, "pid": self.new_pid(), "as": rng.random() < self.p["p_async"] * 0.5,
             "deps": deps}
        self.inject(o)
        o["inn"] = rng.randint(1, len(o["deps"]) + 1)
        o["deps"].insert(o["inn"] - 1, {"k": "p", "key": key, "d": False})
        self.nest(o)
        return o

    BAD = (
        ("not-callable", "E:InvalidReg", "fgc"), ("provides-none", "E:InvalidReg", "fgca"),
        ("instance-provides-none", "E:InvalidReg", ""), ("class-none", "E:InvalidReg", ""),
        ("scope", "E:InvalidReg", "fgca"), ("lifetime", "E:InvalidReg", "fgca"), ("policy", "E:InvalidReg", "fgca"),
        ("dependencies-type", "E:InvalidReg", "fgca"), ("dependencies-value", "E:InvalidReg", "fgca"),
        ("dependencies-incomplete", "E:InvalidSpec", "fgca"), ("dependencies-unknown", "E:InvalidSpec", "fgca"),
        ("untyped", "E:InvalidSpec", "fgca"), ("component", "E:InvalidReg", "fgca"),
        ("component-twice", "E:InvalidReg", "fgca"), ("instance-component", "E:InvalidReg", ""),
        ("dec-none", "E:InvalidReg", ""), ("dec-not-callable", "E:InvalidReg", ""),
        ("dec-no-inner", "E:InvalidReg", ""), ("dec-inner-name", "E:InvalidReg", ""),
        ("dec-generator", "E:InvalidReg", ""), ("dec-untyped", "E:InvalidReg", ""),
        ("dec-two-inners", "E:InvalidReg", ""), ("dec-component", "E:InvalidReg", ""),
    )

    # ---- bookkeeping -----------------------------------------------------
    def usable(self, h: int) -> bool:
        if h == 0:
            return not self.container_closed
        n: int | None = self.handle_node[h - 1]
        while n is not None:
            if not self.nodes[n][1]:
                return False
            n = self.nodes[n][0]
        return True

    def perform(self, o: dict) -> dict:
        before = len(self.world.handles)
        done = self.world.run(o)
        self.ops.append(done)
        for _ in range(len(self.world.handles) - before):
            self.lazy.append(self.origin(o))
        return done

    def origin(self, o: dict) -> int:
        if o["op"] == "call":
            return self.lazy[o["h"] - 1] or 0
        return o.get("at", 0)

    def faults(self) -> list[int]:
        rng = self.rng
        if rng.random() < self.p["p_fail"] and self.pid:
            pool = list(range(1, self.pid + 1)) + [1000 + t for t in self.auto]
            return sorted(set(rng.choices(pool, k=rng.randint(1, 3))))
        return []

    # ---- the history -------------------------------------------------------
    def run(self) -> None:
        rng, p = self.rng, self.p
        for t in range(1, self.nt + 1):
            if rng.random() < p["p_unregistered"]:
                continue
            for _ in range(2 if rng.random() < p["p_comp"] * 2 else 1):
                self.reg(self.registration(t))
            if rng.random() < p["p_pre_dec"]:
                self.dec(self.decoration(self.any_key()))
        self.more_registrations()
        for _ in range(rng.randint(*p["steps"])):
            self.step()
        # wind down: close what is open, newest first, sometimes the container
        for h in range(len(self.handle_node), 0, -1):
            if self.usable(h) and h not in self.closed_handles and rng.random() < 0.8:
                self.close(h)
        if rng.random() < 0.7 and not self.container_closed and self.root_node is not None:
            self.close(0)
        self.world.finish()

    def more_registrations(self) -> None:
        rng, p = self.rng, self.p
        for _ in range(rng.randint(*p["templates"]) if self.space else 0):
            self.do_tpl()
            if rng.random() < p["p_pre_dec"]:
                self.do_tdec()
            if rng.random() < 0.2:
                self.exact()

    def exact(self) -> None:
        """A closed generic type registered by itself."""
        if not self.space.specs:
            return
        t = self.closed_key() // 10
        if t >= generics.FIRST:
            self.reg(self.registration(t))

    def reg(self, o: dict) -> None:
        self.nest(o)
        self.sc_of[o["key"]] = o["sc"]
        self.perform(o)
        self.root_node = None

    def dec(self, o: dict) -> None:
        self.perform(o)
        self.root_node = None

    def step(self) -> None:
        rng, p = self.rng, self.p
        kind = pick(rng, p["ops"])
        if self.container_closed:
            kind = "cls"
        getattr(self, "do_" + kind)()

    def target(self, lvl: int = 0) -> int | None:
        """A usable scope handle or the container; preferably at level lvl or deeper."""
        rng = self.rng
        live = [h for h in range(1, len(self.handle_node) + 1) if self.usable(h)]
        if lvl and rng.random() < self.p["p_fit"]:
            fit = [h for h in live if self.level(h) >= lvl]
            if not self.container_closed and self.lad[0]["l"] >= lvl:
                fit.append(0)
            if fit:
                return rng.choice(fit)
            if not self.container_closed or live:
                self.do_ent(lvl)
                live = [h for h in range(1, len(self.handle_node) + 1) if self.usable(h)]
                fit = [h for h in live if self.level(h) >= lvl]
                if fit:
                    return rng.choice(fit)
        if not self.container_closed and (not live or rng.random() < 0.3):
            return 0
        return rng.choice(live[-4:] if rng.random() < 0.6 else live) if live else None

    def do_res(self) -> None:
        rng, p = self.rng, self.p
        k = pick(rng, p["tok_kinds"])
        key = self.ctx_key() if k in "xy" else self.any_key()
        if self.auto and k in "phgm" and rng.random() < 0.4:
            key = rng.choice(self.auto) * 10
        at = self.target(0 if k in "xy" else self.depth_of(key))
        if at is None:
            return
        if k == "a":
            key = key // 10 * 10
        o = {"op": "res", "at": at, "tok": {"k": k, "key": key},
             "md": "a" if rng.random() < p["p_async_op"] else "s",
             "pol": rng.choice("erc") if at == 0 and self.cfg["urc"] and rng.random() < p["p_pol"] else "",
             "fc": self.faults()}
        done = self.perform(o)
        if at == 0:
            self.after_root_request(done)

    def after_root_request(self, done: dict) -> None:
        if done["r"] in ("E:NotRegistered", "E:InvalidSpec") and self.root_node is None:
            # possibly the graph itself was refused
            if done["op"] == "ent" or self.rng.random() < 0.3:
                if self.rng.random() < 0.7:
                    self.repair()
                return
        if done["r"] not in ("E:NotRegistered", "E:InvalidSpec"):
            self.ensure_root()

    def repair(self) -> None:
        """Re-register things without dependencies so that the graph may compile again."""
        self.defects = False
        done = {o["key"]: o for o in self.ops if o["op"] == "reg"}
        known = set(done)
        for key, o in sorted(done.items()):
            bad = [d for d in o["deps"] if d["k"] in "phg" and d["key"] not in known
                   or d["k"] in "pmfa" and d["key"] // 10 >= key // 10
                   or d["k"] in "hgvw" and self.sc_of.get(d["key"], 0) > o["sc"]]
            if bad:
                self.reg(dict({k: v for k, v in o.items() if k not in ("r", "ev")},
                              pid=self.new_pid(), deps=[d for d in o["deps"] if d not in bad]))

    def ensure_root(self) -> None:
        if self.root_node is None:
            self.nodes.append([None, True])
            self.root_node = len(self.nodes) - 1

    def do_call(self) -> None:
        rng = self.rng
        live = [h for h in range(1, len(self.lazy) + 1) if self.usable(self.lazy[h - 1] or 0)]
        if self.container_closed or not live:
            return
        self.perform({"op": "call", "h": rng.choice(live), "fc": self.faults()})

    def do_ent(self, lvl: int = 0) -> None:
        rng, p = self.rng, self.p
        live = [h for h in range(1, len(self.handle_node) + 1) if self.usable(h)]
        if len(live) >= p["max_scopes"]:
            return
        at = self.target()
        if at is None:
            return
        deepest = self.lad[-1]["l"]
        cur = self.lad[0]["l"] if at == 0 else self.level(at)
        if lvl > cur and rng.random() < 0.7:
            req = lvl
        elif rng.random() < p["p_bad_enter"]:
            req = rng.choice([e["l"] for e in self.lad] + [99, self.lad[-1]["l"] + 1, *self.out])
        elif rng.random() < 0.5:
            req = 0
        else:
            deeper = [e["l"] for e in self.lad if e["l"] > cur]
            req = rng.choice(deeper) if deeper else 0
        if cur == deepest and req == cur:
            return  # entering the deepest level from itself is left unspecified
        ctx = []
        if rng.random() < p["p_ctx"]:
            for _ in range(rng.randint(1, 2)):
                k = self.ctx_key()
                if all(k != x[0] for x in ctx):
                    ctx.append([k, "n" if rng.random() < 0.1 else f"c{rng.randint(1, 40)}"])
        o = {"op": "ent", "at": at, "req": req, "ctx": ctx}
        done = self.perform(o)
        if at == 0:
            self.after_root_request(done)
        if done["r"] == "ok":
            if req == cur:
                self.handle_node.append(self.root_node if at == 0 else self.handle_node[at - 1])
                self.closed_handles.add(len(self.handle_node))  # an alias is not closed by itself
                self.levels.append(cur)
            else:
                parent = self.root_node if at == 0 else self.handle_node[at - 1]
                self.nodes.append([parent, True])
                self.handle_node.append(len(self.nodes) - 1)
                self.levels.append(req or self.default_next(cur))

    levels: list[int]

    def level(self, h: int) -> int:
        return self.levels[h - 1]

    def default_next(self, cur: int) -> int:
        deeper = [e for e in self.lad if e["l"] > cur]
        firm = [e for e in deeper if not e["sk"]]
        return (firm or deeper)[0]["l"]

    def do_cls(self) -> None:
        rng, p = self.rng, self.p
        if rng.random() < p["p_root_close"] and self.root_node is not None and not self.container_closed:
            self.close(0)
            return
        live = [h for h in range(1, len(self.handle_node) + 1)
                if h not in self.closed_handles and self.nodes[self.handle_node[h - 1]][1]]
        if not live:
            return
        # mostly the innermost ones, sometimes a scope that still has open children
        h = live[-1] if rng.random() < 0.6 else rng.choice(live)
        self.close(h)

    def close(self, h: int) -> None:
        rng, p = self.rng, self.p
        fr = sorted(set(rng.choices(range(1, self.pid + 2), k=rng.randint(1, 4)))) if rng.random() < p["p_relfail"] else []
        self.perform({"op": "cls", "at": h, "md": "a" if rng.random() < max(0.5, p["p_async_op"]) else "s",
                      "exc": "X" if rng.random() < p["p_exc"] else "", "fr": fr})
        if h == 0:
            self.container_closed = True
        else:
            self.nodes[self.handle_node[h - 1]][1] = False
            self.closed_handles.add(h)

    def do_reg(self) -> None:
        if self.space and self.rng.random() < 0.5:
            if self.rng.random() < 0.3:
                self.exact()
            else:
                self.do_tpl()
            return
        self.reg(self.registration(self.rng.randint(1, self.nt)))

    def do_dec(self) -> None:
        if self.space and self.rng.random() < 0.4:
            self.do_tdec()
            return
        key = self.any_key()
        if key % 10 == 0 and key // 10 in self.auto and self.rng.random() < 0.5:
            return
        self.dec(self.decoration(key))

    def do_cmp(self) -> None:
        done = self.perform({"op": "cmp"})
        if done["r"] == "ok":
            self.ensure_root()
            self.handle_node.append(self.root_node)
            self.closed_handles.add(len(self.handle_node))
            self.levels.append(self.lad[0]["l"])

    def do_bad(self) -> None:
        what, err, how = self.rng.choice(self.BAD)
        o = {"op": "bad", "what": what, "err": err, "key": self.any_key()}
        self.perform(dict(o, how=self.rng.choice(how)) if how else o)


def generate(seed: int, profile: dict) -> dict:
    g = Gen(seed, profile)
    g.levels = []
    aborted = ""
    try:
        g.run()
    except Exception:  # noqa: BLE001  the generator lost track of what the code did
        aborted = traceback.format_exc()
        g.world.finish()
    out = {"c": {k: g.cfg[k] for k in ("lad", "mp", "dp", "dl", "cls")}, "ops": g.ops}
    if g.space:
        try:
            g.space.close()
        except generics.Endless:  # left out: another history takes its place
            return generate(seed ^ 1 << 40, profile)
        out["c"]["gen"] = g.space.cfg
    if aborted:
        out["aborted"] = aborted
    return out
