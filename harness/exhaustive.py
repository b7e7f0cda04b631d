"""Performs every transition that TLC finds for the scenarios below
(spec/CoreMC.tla) on the real code."""
from __future__ import annotations

import contextvars
import itertools
import json
import os
import random
import re
import tempfile
import threading
from typing import Any

import gen_inject
import generics
import tlc
from framework import Check, parallel
from world import Body, World

LADDER = [{"l": 1, "sk": False}, {"l": 2, "sk": True}, {"l": 3, "sk": False}, {"l": 4, "sk": False}]
SHORT = [{"l": 1, "sk": False}, {"l": 3, "sk": False}]
EDGE = re.compile(r'^<<"EDGE", (\d+), "(.*)">>$')


def dep(text: str) -> dict:
    """"p20", "m20=" (with a parameter default)."""
    return {"k": text[0], "key": int(text[1:].rstrip("=")), "d": text.endswith("=")}


def reg(pid: int, key: int, kind: str = "f", deps: str = "", sc: int = 1, lt: str = "S", a: bool = False,
        rv: str = "o", pol: str = "") -> dict:
    return {"op": "reg", "key": key, "pid": pid, "kind": kind, "as": a, "deps": [dep(d) for d in deps.split()],
            "sc": sc, "lt": lt, "rv": rv, "pol": pol}


def dec(pid: int, key: int, deps: str, inn: int = 1, a: bool = False) -> dict:
    return {"op": "dec", "key": key, "pid": pid, "as": a, "deps": [dep(d) for d in deps.split()], "inn": inn}


def bad(what: str, key: int) -> dict:
    return {"op": "bad", "what": what, "err": "E:InvalidReg" if not what.startswith("dependencies") else "E:InvalidSpec", "key": key}


# ---- open generic types -------------------------------------------------------
def term(text: str) -> list:
    """"c1", "v11", "2[c1,0[v21]]"; generic type 0 is list, 4 Callable."""
    if text[0] in "cv":
        return [text[0], int(text[1:])]
    g, rest = text[:-1].split("[", 1)
    args, depth = [""], 0
    for ch in rest:
        depth += (ch == "[") - (ch == "]")
        if ch == "," and not depth:
            args.append("")
        else:
            args[-1] += ch
    return ["g", int(g), [term(a) for a in args]]


def tdep(text: str) -> dict:
    """"p1[v21]", "m1[v21].2=", "tv11", "pc2"."""
    d = text.endswith("=")
    x, _, n = text.rstrip("=")[1:].partition(".")
    return {"k": text[0], "key": 0, "tm": term(x), "n": int(n or 0), "al": -1, "d": d}


def tpl(pid: int, x: int, kind: str = "f", deps: str = "", sc: int = 1, lt: str = "S", a: bool = False, rv: str = "o") -> dict:
    return {"op": "tpl", "x": x, "pid": pid, "kind": kind, "as": a, "deps": [tdep(d) for d in deps.split()], "sc": sc,
            "lt": lt, "rv": rv, "pol": ""}


def tdec(pid: int, x: int, deps: str, inn: int = 1, a: bool = False) -> dict:
    return {"op": "tdec", "x": x, "pid": pid, "as": a, "deps": [tdep(d) for d in deps.split()], "inn": inn}


def opens(patterns: str, asked: str, start: list[dict], toks: str, depth: int, cons: dict[int, list[str]] | None = None,
          sub: tuple = (), child: bool = False, make: Any = None, **kw: Any) -> dict:
    """A scenario with templates for the patterns; tokens name the types asked for
    by position: p0 is the first of them, p1.2 the second as component 2."""
    sp = generics.Space.__new__(generics.Space)
    sp.cfg = {
        "tpls": [{"tm": term(x.partition(".")[0]), "n": int(x.partition(".")[2] or 0)} for x in patterns.split()], "terms": [],
        "sub": [list(q) for q in sub], "uni": [], "nty": [],
        "vars": [{"v": v, "cons": [term(c) for c in cs]} for v, cs in sorted((cons or {}).items())],
        "par": [list(q) for q in sub if q[0] < generics.GEN_BASE], "child": child,
        "own": [[1, [11]], [2, [21, 22]], [3, [31]]], "new": [],
    }
    sp.specs = {}
    numbers = [sp.intern(term(x)) for x in asked.split()]
    for o in [*start, *kw.get("more", ())]:
        if "x" in o:
            sp.specs.setdefault(o["x"], []).append(o["deps"])
    sp.close()

    def tok(t: str) -> str:
        i, _, n = t[1:].partition(".")
        return f"{t[0]}{numbers[int(i)] * 10 + int(n or 0)}"

    def exact(o: dict) -> dict:
        return dict(o, key=numbers[-o["key"] // 10] * 10) if o["op"] in ("reg", "dec") and o["key"] <= 0 else o

    kw["more"] = tuple(exact(o) for o in kw.get("more", ()))
    m = (make or menu)([exact(o) for o in start], " ".join(tok(t) if t[1] != "c" else t[0] + t[2:] for t in toks.split()), depth, **kw)
    m["c"]["gen"] = sp.cfg
    return m


def menu(start: list[dict], toks: str, depth: int, *, lad: list = LADDER, mds: str = "s", fcs: tuple = ((),),
         reqs: tuple = (0,), ctxs: tuple = ((),), excs: tuple = ("",), frs: tuple = ((),), clmds: str = "a",
         more: tuple = (), calls: bool = False, root: bool = False, scopes: int = 3, merge: bool = True,
         mp: str = "e", dp: str = "i", cls: tuple = (), deeper: int = 1) -> dict:
    return {
        "c": {"lad": lad, "mp": mp, "dp": dp, "dl": "S", "urc": False, "lock": "u", "cls": list(cls)},
        "start": start, "toks": [{k: v for k, v in dep(t).items() if k != "d"} for t in toks.split()], "mds": list(mds),
        "fcs": [list(f) for f in fcs], "reqs": list(reqs), "ctxs": [[list(p) for p in c] for c in ctxs],
        "excs": list(excs), "frs": [list(f) for f in frs], "clmds": list(clmds), "more": list(more), "calls": calls,
        "root": root, "scopes": scopes, "merge": merge, "depth": depth, "deeper": deeper,
    }


MENUS: dict[str, list[dict]] = {
    "P01": [
        menu([reg(1, 10, "c", "", 1), reg(2, 20, "c", "p10", 3), reg(3, 30, "c", "p20 p10 h20", 3, "T")],
             "p20 p30 a20", 5, deeper=3, calls=True, scopes=2),
        menu([reg(1, 10, "f", "", 3, rv="n"), reg(2, 20, "i"), reg(3, 30, "f", "m10 p20", 3)], "p10 p30", 5, deeper=3, mds="sa", scopes=2),
    ],
    "P02": [
        menu([reg(1, 10, "c", "", 3), reg(2, 20, "c", "p10 y30", 3, "T")], "p20", 4, deeper=2, scopes=3,
             ctxs=((), ((30, "c1"),)), excs=("",), merge=False, lad=SHORT),
        menu([reg(1, 10, "g", "", 3), reg(2, 20, "c", "p10", 4)], "p10 p20", 5, reqs=(0, 4), scopes=3),
    ],
    "P03": [
        menu([reg(1, 10, "c", "", 1), reg(2, 20, "c", "p10", 2), reg(3, 30, "c", "m20", 3), reg(4, 40, "f", "p30", 4, "T")],
             "p20 p30 p40", 4, reqs=(0, 1, 2, 3, 4, 9), scopes=3),
    ],
    "P04": [
        menu([reg(1, 10, "g", "", 1), reg(2, 20, "m", "p10", 3), reg(3, 30, "g", "p20", 4, "T")],
             "p20 p30", 6, deeper=2, reqs=(0, 4), root=True, scopes=2, excs=("", "X")),
        menu([reg(1, 10, "g", "", 1, a=True), reg(2, 20, "m", "p10", 3)], "p20", 7, deeper=3, mds="a", root=True, scopes=2,
             excs=("", "X"), clmds="as", lad=SHORT),
    ],
    "P05": [
        menu([reg(1, 10, "g", "", 3), reg(2, 20, "m", "p10", 3), reg(3, 30, "g", "p10 p20", 3, "T")],
             "p20 p30", 5, deeper=2, fcs=((), (2,), (3,)), scopes=2, frs=((), (1,), (2, 1), (3,)), excs=("", "X"), lad=SHORT),
        menu([reg(1, 10, "g", "", 1), reg(2, 20, "g", "p10", 3, a=True)], "p20", 6, deeper=3, mds="a", fcs=((), (1,), (2,)),
             scopes=2, frs=((), (1, 2)), excs=("", "X"), clmds="as", root=True, lad=SHORT),
    ],
    "P06": [
        menu([reg(1, 10, "c", "x20", 3), reg(2, 30, "c", "y20 p10", 4), reg(3, 40, "f", "y20=", 1, "T")],
             "p10 p30 p40 x20", 3, reqs=(0, 4), ctxs=((), ((20, "c1"),), ((20, "n"),)), scopes=3),
        # nothing lives below the root: scopes differ by their context only
        menu([reg(1, 10, "f", "y20=", 1, "T")], "p10 x20", 4, reqs=(0, 2, 4), ctxs=((), ((20, "c1"),)), scopes=3, deeper=1,
             lad=[{"l": 1, "sk": False}, {"l": 2, "sk": True}, {"l": 3, "sk": False}, {"l": 4, "sk": True}, {"l": 5, "sk": False}]),
    ],
    "P07": [
        menu([reg(1, 10, "f", "", 1, a=True), reg(2, 20, "c", "p10", 1), reg(3, 30, "f", "h20 g20", 1), reg(4, 40, "c", "p30 m10", 1, "T")],
             "p10 p20 p30 p40", 6, deeper=4, mds="sa", calls=True, scopes=0, lad=SHORT),
        # asynchronous members of collections
        menu([reg(1, 10, "f", "", 1, a=True), reg(2, 20, "c", "a10 m11=", 1), reg(3, 30, "f", "a20", 3, "T")],
             "p20 p30 a10", 4, mds="sa", scopes=1, lad=SHORT, more=(reg(11, 11, "f", "", 1), reg(12, 21, "f", "a10", 1, a=True))),
    ],
    "P10": [
        menu([reg(1, 10, "c", "", 1), reg(2, 20, "c", "p10", 3)], "p10 p20", 4, scopes=2, lad=SHORT,
             more=(reg(11, 10, "f", "", 1), reg(12, 20, "g", "m30", 3), reg(13, 30, "c", "", 1, "T"), reg(14, 10, "c", "p20", 3))),
    ],
    "P11": [
        menu([reg(1, 10, "g", "", 1), reg(2, 20, "c", "p10", 3)], "p10 p20", 6, deeper=2, scopes=1, root=True, lad=SHORT,
             more=(bad("class-none", 10), bad("dec-inner-name", 10), bad("dependencies-unknown", 30), dec(11, 20, "p20 p10"))),
    ],
    "P12": [
        menu([reg(1, 10, "c", "", 3), reg(2, 20, "c", "p10", 3)], "p10 p20", 4, scopes=1, lad=SHORT,
             more=(dec(11, 10, "p10"), dec(12, 10, "p30 p10", 2), reg(13, 10, "g", "", 3), dec(14, 30, "p30"), reg(15, 30, "c", "", 1, "T"))),
    ],
    "P13": [
        menu([reg(1, 10, "c", "", 1), reg(2, 11, "c", "", 1), reg(3, 20, "c", "a10 m12", 1, "T")], "p10 p11 p12 a10 p20", 4,
             lad=SHORT, scopes=0, more=(reg(11, 12, "f", "", 1), reg(12, 10, "f", "", 1, "T"), dec(13, 11, "p11"))),
    ],
    "P14": [
        menu([reg(1, 10, "c", "h20", 3), reg(2, 20, "g", "h10 x30", 3), reg(3, 40, "c", "h40 v50", 1)],
             "p10 p40 h20", 4, calls=True, scopes=2, ctxs=((), ((30, "c1"),)), lad=SHORT, fcs=((), (2,))),
    ],
    "P17": [
        # which registration serves a closed type, in every order of registration
        opens("2[v21,v22] 2[v21,c1] 2[c1,v22] 2[v1,v1]", "2[c1,c1] 2[c2,c1] 2[c2,c2]", [reg(9, 10, "c")], "p0 p1 p2 m2", 4,
              lad=SHORT, scopes=0, more=(tpl(1, 0, "f", "", 1), tpl(2, 1, "c", "tv21 pc1", 1), tpl(3, 2, "g", "", 1, "T"),
                                         tpl(4, 3, "f", "tv1", 1), reg(5, 0, "f"))),
        # how much of a type two templates fix
        opens("2[v21,c1] 2[0[v21],c1] 2[0[v21],v22] 2[0[c1],v22]", "2[0[c1],c1] 2[0[c2],c1] 2[0[c1],c2] 2[c1,c1]", [],
              "p0 p1 p2 p3", 5, lad=SHORT, scopes=0, deeper=1,
              more=(tpl(1, 0, "f", "", 1), tpl(2, 1, "c", "tv21", 1), tpl(3, 2, "g", "", 1), tpl(4, 3, "f", "tv22", 1))),
        # sharing, transients and releases per scope, dependencies of the same and an outer scope
        opens("1[v11] 2[v21,v22]", "1[c1] 2[c1,c2] 2[c2,c2] 1[c2]",
              [reg(9, 10, "c", "", 1), tpl(1, 0, "g", "pc1 tv11", 3), tpl(2, 1, "m", "p1[v22] tv21", 3, "T")], "p0 p1 p2", 5, lad=SHORT,
              scopes=2, excs=("", "X"), deeper=2),
        # asynchronous providers, handles, failures
        opens("1[v11] 2[v21,v22]", "1[c1] 2[c1,c1] 1[c2]",
              [tpl(1, 0, "f", "", 1, a=True), tpl(2, 1, "f", "g1[v21] h1[v22]", 1)], "p0 p1 h0 g1", 4, lad=SHORT, mds="sa", calls=True,
              scopes=0, fcs=((), (1,))),
        # bounds, and a fallback for what they do not admit
        opens("1[v11] 1[v1] 3[v31]", "1[c1] 1[c2] 1[c3] 3[c3]", [tpl(1, 0, "f", "tv11", 1), tpl(3, 2, "c", "m1[v31] p1[v31]", 1, "T")],
              "p0 p1 p2 m2 p3 h2", 4, lad=SHORT, scopes=0, cons={11: ["c1"]}, sub=((2, 1),), more=(tpl(2, 1, "f", "", 3),), calls=True),
        # decorated templates
        opens("1[v11] 1[0[v1]]", "1[c1] 1[0[c1]]", [reg(9, 10, "c", "", 1)], "p0 p1", 5, lad=SHORT, scopes=1,
              more=(tpl(1, 0, "g", "tv11", 3), tpl(2, 1, "f", "", 1), tdec(3, 0, "p1[v11] pc1"), tdec(4, 0, "tv11 p1[v11]", 2))),
        # the most specific template is the one asked for: what it lacks, no other supplies
        opens("2[v21,v22] 2[c1,v22] 1[v11].2", "2[c1,c2] 2[c2,c2] 1[c2]",
              [tpl(1, 0, "c", "f1[v22].2 m1[v21].2", 1, "T"), tpl(2, 1, "f", "p1[v22].2", 3)], "p0 p1 p2.2 p2", 5, lad=SHORT, scopes=1,
              more=(tpl(3, 2, "c", "", 3), reg(4, 0, "c", "", 1))),
    ],
    "P18": [
        menu([reg(1, 10, "c", "", 1)], "p10 p20 p30 m20", 4, lad=SHORT, scopes=1, mp="c", dp="r",
             cls=({"t": 2, "ok": True, "deps": [dep("p10"), dep("p30")]}, {"t": 3, "ok": True, "deps": []}),
             more=(reg(11, 30, "f", "", 1, "T"), reg(12, 40, "c", "p20", 1), dec(13, 20, "p20"))),
        menu([reg(1, 10, "c", "", 1)], "p10 p20 p30 h20", 4, lad=SHORT, scopes=1, mp="r", dp="i",
             cls=({"t": 2, "ok": True, "deps": [dep("p10"), dep("m30")]}, {"t": 3, "ok": True, "deps": []}),
             more=(reg(11, 40, "c", "p30", 1, pol="r"), reg(12, 30, "f", "", 1, "T"))),
        # settings belong to the root, whoever needs them first
        menu([], "p10 p20 p30 m30", 4, lad=SHORT, scopes=2, mp="c", dp="i",
             cls=({"t": 2, "ok": True, "deps": [dep("p30")]}, {"t": 3, "ok": True, "set": True, "deps": []}),
             more=(reg(1, 10, "f", "p30 p20", 3, "T", pol="r"), reg(2, 30, "c", "", 3))),
    ],
    "P19": [
        menu([reg(1, 10, "f", "x40", 3, "T"), reg(2, 20, "c", "m10= m30= y40= f30", 3, "T")], "m10 m20 m30 p20 y40", 4,
             lad=SHORT, scopes=2, ctxs=((), ((40, "n"),)), fcs=((), (1,)), more=(reg(11, 30, "c", "", 1),)),
    ],
}


def ladders(longest: int) -> list[list[dict]]:
    return [[{"l": 2 * i + 1, "sk": i in sk} for i in range(n)]
            for n in range(2, longest + 1) for k in range(n) for sk in itertools.combinations(range(1, n), k)]


def ladder_menus(thorough: bool) -> list[dict]:
    """Every ladder of a few levels, with a provider at each level and requests for every target."""
    found = []
    for lad in ladders(6 if thorough else 4):
        levels = [e["l"] for e in lad]
        start = [reg(i + 1, (i + 1) * 10, "cgf"[i % 3], f"p{i * 10}" if i % 2 else "", x) for i, x in enumerate(levels)]
        found.append(menu(start, " ".join(f"p{(i + 1) * 10}" for i in range(len(lad))), 3, lad=lad,
                          reqs=(0, 2, *levels), scopes=3 if thorough else 2, deeper=0))
    return found


# ---- bindings and injected callables (spec/InjectMC.tla) ---------------------
def par(text: str) -> dict:
    """"pk:p10", "ko:m20=", "po:-", "pk:-=", "va:-"."""
    k, a = text.split(":")
    d = a.endswith("=")
    a = a.rstrip("=")
    return {"k": k, "a": a[0], "key": int(a[1:] or 0), "d": d}


def dcl(ps: str, sc: int = 0, auto: bool = True, pol: str = "", a: bool = False) -> dict:
    return {"op": "dcl", "ps": [par(p) for p in ps.split()], "sc": sc, "auto": auto, "pol": pol, "as": a}


def imenu(start: list[dict], toks: str, depth: int, *, args: tuple = (), ats: tuple = (-1,), cxs: tuple = ("no",),
          rs: bool = False, flows: int = 1, depthf: int = 2, bmds: str = "s", urc: bool = True, up: bool = True,
          **kw: Any) -> dict:
    m = menu([{**o, "fl": 1} for o in start], toks, depth, **kw)
    m["c"].update(urc=urc, up=up)
    m.update(kind="inject", ats=list(ats), args=[[[list(v) for v in a] for a in alts] for alts in args], cxs=list(cxs),
             rs=rs, flows=flows, depthf=depthf, bmds=list(bmds))
    return m


NONE: tuple = ((),)    # called without arguments
INJECT_MENUS: dict[str, list[dict]] = {
    "P11": [
        # registrations that an earlier declaration forbids
        imenu([reg(1, 10, "c", "", 1), reg(2, 20, "g", "p10", 3), dcl("pk:p20", sc=3), dcl("pk:m30=", sc=1)], "p10 p20", 4,
              args=(NONE, NONE), scopes=1, lad=[SHORT[0], SHORT[1], {"l": 5, "sk": False}], deeper=1,
              more=(reg(11, 20, "c", "", 5), reg(12, 30, "c", "", 3), reg(13, 10, "f", "m30", 5), reg(14, 30, "f", "", 1, "T"),
                    dec(15, 10, "p20 p10", 2), dcl("pk:p20", sc=1))),
        # decorations, refused while others of the key stand
        imenu([reg(1, 10, "c", "", 1), reg(2, 20, "g", "", 3), reg(3, 30, "c", "p20", 3), dec(4, 10, "p10"), dcl("pk:p10", sc=1)],
              "p10 p30", 4, args=(NONE,), scopes=1, lad=SHORT, deeper=1,
              more=(dec(15, 10, "p20 p10", 2), dec(16, 10, "p10 m40"), reg(17, 10, "f", "p20", 3), reg(18, 10, "f", "", 1, "T"),
                    reg(19, 40, "f", "", 1))),
    ],
    "P15": [
        imenu([reg(1, 10, "c", "", 1), reg(2, 20, "g", "p10 y40", 3), dcl("pk:- pk:p20 ko:p10")], "p20", 4,
              args=((((1, "u1"),), ((1, "u1"), (2, "u2")), ((1, "u1"), (3, "u3"))),), excs=("", "X"), scopes=2,
              cxs=("no", "yes"), ctxs=((), ((40, "c1"),)), rs=True, lad=SHORT, deeper=1),
        imenu([reg(1, 10, "g", "", 1), reg(2, 20, "m", "p10", 3), reg(3, 30, "g", "p20", 4, "T"),
               dcl("pk:p20 pk:p30"), dcl("pk:p10 pk:m20=", sc=3), dcl("pk:h20", auto=False)], "p20", 4,
              args=(NONE, NONE, NONE), excs=("", "X"), frs=((), (2,)), fcs=((), (2,)), scopes=1, calls=True, deeper=1),
        imenu([reg(1, 10, "f", "", 3, a=True), dcl("pk:p10 pk:-=", a=True), dcl("pk:p10", sc=3)], "p10", 4, mds="sa",
              args=(((), ((2, "u1"),)), NONE), excs=("", "X"), scopes=2, lad=SHORT, flows=2, deeper=1),
        imenu([reg(1, 10, "c", "", 3), dcl("pk:p10", sc=3), dcl("po:- po:m20= pk:y30= ko:x30=")], "p10", 4,
              args=(NONE, (((1, "u1"),), ((1, "u1"), (2, "u2")))), scopes=1, lad=SHORT, cxs=("no", "yes", "bad"),
              ctxs=((), ((30, "n"),)), more=(reg(11, 20, "f", "", 1), reg(12, 10, "f", "p20", 1)), deeper=1),
    ],
    "P16": [
        imenu([reg(1, 10, "c", "", 1), reg(2, 20, "c", "", 3)], "p20", 8, flows=2, scopes=2, lad=SHORT, depthf=2, deeper=3),
        imenu([reg(1, 20, "c", "y30", 3), dcl("pk:m20")], "p20", 5, flows=2, scopes=2, lad=SHORT, args=(NONE,),
              ats=(-1, 0, 1), ctxs=(((30, "c1"),),), excs=("", "X"), deeper=1),
        imenu([reg(1, 20, "g", "", 3), dcl("pk:p20")], "p20", 5, flows=2, scopes=2, lad=SHORT, args=(NONE,),
              ats=(-1, 0), urc=False, rs=True, bmds="sa", excs=("", "X"), deeper=1),
    ],
    "P17": [
        # what an injected callable needs follows the templates, which may come later
        opens("1[v11] 1[v1] 2[v21,v22]", "1[c1] 1[c3]", [dcl("pk:p500", sc=1), dcl("pk:m510= ko:v500=", sc=3)], "p0", 4,
              make=imenu, lad=SHORT, args=(NONE, NONE), scopes=1, cons={11: ["c1"]},
              more=(tpl(1, 0, "g", "tv11", 1), tpl(2, 1, "f", "", 3), tpl(3, 0, "c", "", 3), reg(4, 510, "c", "", 1)), deeper=1),
        opens("1[v11] 2[v21,v22]", "1[c1] 2[c1,c2]",
              [reg(9, 10, "c", "", 1), tpl(1, 0, "g", "pc1", 3), tpl(2, 1, "m", "p1[v21]", 3, "T"),
               dcl("pk:p500 pk:-="), dcl("po:m510 pk:h500 ko:p10")], "p0 p1", 4, make=imenu, lad=SHORT,
              args=(((), ((2, "u1"),)), NONE), scopes=1, excs=("", "X"), rs=True, cxs=("no", "yes"), ctxs=((),), calls=True, deeper=1),
    ],
}


class Script:
    """Performs a given interleaving: every flow is a thread, which runs in a copy
    of its parent's context or in an empty one."""

    def __init__(self, w: Any, rng: random.Random, steps: list[dict]) -> None:
        self.w, self.rng, self.steps = w, rng, steps
        self.at = 0
        self.got: list[tuple[str, list]] = []
        self.cond = threading.Condition()
        self.error: BaseException | None = None
        self.fns: list[dict] = []
        self.kids: list[threading.Thread] = []

    def next(self, fl: int) -> dict | None:
        with self.cond:
            self.cond.wait_for(lambda: self.over() or self.steps[self.at]["fl"] == fl)
            return None if self.over() else self.steps[self.at]

    def over(self) -> bool:
        return self.error is not None or self.at >= len(self.steps)

    def done(self, out: dict) -> None:
        with self.cond:
            self.got.append((out["r"], out["ev"]))
            self.at += 1
            self.cond.notify_all()

    def flow(self, fl: int, in_call: bool = False) -> dict | None:
        """Operations of the flow; in a call, up to its end."""
        w = self.w
        while (o := self.next(fl)) is not None:
            if o["op"] == "fin":
                assert in_call
                return o
            if o["op"] == "cll":
                self.call(o)
                continue
            out = w.run(o)
            if o["op"] == "flo":
                ctx = contextvars.copy_context() if o["inh"] else contextvars.Context()
                t = threading.Thread(target=self.guarded, args=(ctx, o["new"]), daemon=True)
                self.kids.append(t)
                t.start()
            if o["op"] == "dcl" and out["r"].startswith("ok"):
                self.fns.append(o)
            self.done(out)
        return None

    def guarded(self, ctx: contextvars.Context, fl: int) -> None:
        try:
            ctx.run(self.flow, fl)
        except BaseException as e:  # noqa: BLE001
            self.fail(e)

    def fail(self, e: BaseException) -> None:
        with self.cond:
            self.error = self.error or e
            self.cond.notify_all()

    def arguments(self, o: dict) -> tuple[list, dict]:
        ps = self.fns[o["f"] - 1]["ps"]
        given = {i: self.w.user_value(text) for i, text in o["arg"]}
        order = [i for i, p in enumerate(ps, 1) if p["k"] in ("po", "pk")]
        least = max([n + 1 for n, i in enumerate(order) if i in given and ps[i - 1]["k"] == "po"], default=0)
        most = next((n for n, i in enumerate(order) if i not in given), len(order))
        npos = self.rng.randint(least, most)
        return [given[i] for i in order[:npos]], {f"p{i}": v for i, v in given.items() if i not in order[:npos]}

    def call(self, o: dict) -> None:
        w = self.w
        entered = False
        fin: dict | None = None
        result = object()
        pos, kw = self.arguments(o)
        if o["cx"] == "yes":
            kw["diwire_context"] = {w.key(k, meta=False): w.context_value(v) for k, v in o["ctx"]}
        elif o["cx"] == "bad":
            kw["diwire_context"] = 3
        if o["rs"] > 0:
            kw["diwire_resolver"] = w.scopes[o["rs"] - 1]

        def body(vals: tuple) -> Any:
            nonlocal entered, fin
            entered = True
            self.done(w.end(o, "call(" + ",".join(w.show(v) for v in vals) + ")"))
            fin = self.flow(o["fl"], True)
            w.begin(fin or {})
            if fin and fin["exc"]:
                w.body = Body("body")
                raise w.body
            return result

        async def abody(vals: tuple) -> Any:
            return body(vals)

        w.begin(o)
        w.sbody, w.abody = body, abody
        try:
            v = w.fns[o["f"] - 1](*pos, **kw)
            if self.fns[o["f"] - 1]["as"]:
                v = gen_inject.drive(v)
            r = "ok" if v is result else "?ret"
        except BaseException as e:  # noqa: BLE001
            r = w.error(e)
            w.keep.append(e)
            e.__traceback__ = None
        if not entered:
            self.done(w.end(o, r))
        elif fin:
            self.done(w.end(fin, r))

    def run(self) -> list[tuple[str, list]]:
        ctx = contextvars.Context()
        t = threading.Thread(target=self.guarded, args=(ctx, 1), daemon=True)
        t.start()
        t.join(30)
        if t.is_alive():
            self.fail(TimeoutError("a flow did not end"))
        for k in self.kids:
            k.join(5)
        return self.got


class ScriptWorld(gen_inject.InjWorld):
    def user_value(self, text: str) -> Any:
        return None if text == "n" else self.name(gen_inject.gen_core_value(self.rng), text)


def perform_inject(job: tuple) -> dict | None:
    m, path, seed = job
    rng = random.Random(seed)
    w = ScriptWorld(m["c"], rng)
    steps = [*m["start"], *(e["h"][-1] for e in path)]
    want = [*({"r": None, "ev": [], "alt": []} for _ in m["start"]), *path]
    try:
        script = Script(w, rng, steps)
        got = script.run()
    finally:
        w.finish()
    for n, (o, (r, ev), e) in enumerate(zip(steps, got, want)):
        if e["r"] is None:
            if r[:2] == "E:":
                return {"at": o, "got": [r, ev], "want": ["ok", []], "done": []}
        elif r in e["r"] and ev == e["ev"]:
            continue
        elif any(r in a["r"] and ev == a["ev"] for a in e["alt"]):
            return None
        else:
            return {"at": o, "got": [r, ev], "want": [e["r"], e["ev"]], "done": [name(x) for x in steps[len(m["start"]):n]]}
    if script.error is not None or len(got) != len(steps):
        raise RuntimeError("the script was not performed to its end") from script.error
    return None


def explore(menus: list[dict], module: str = "CoreMC") -> tuple[list[tuple[int, dict]], dict]:
    fd, path = tempfile.mkstemp(prefix="menus-", suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(menus, f)
        out = tlc.run_tlc(f"{module}.tla", f"{module}.cfg", env={"MENUS": path})
    finally:
        os.unlink(path)
    if "Model checking completed. No error has been found." not in out:
        raise tlc.TlcFailed(out[-6000:])
    edges = []
    for line in out.splitlines():
        m = EDGE.match(line)
        if m:
            edges.append((int(m[1]) - 1, json.loads(json.loads('"' + m[2] + '"'))))
    m = re.search(r"(\d+) states generated, (\d+) distinct", out)
    return edges, {"states": int(m[2]), "transitions": int(m[1])}


def name(o: dict) -> str:
    return json.dumps(o, sort_keys=True)


def paths(edges: list[tuple[int, dict]]) -> list[tuple[int, list[dict]]]:
    """Operation sequences, with predictions, that cover every transition."""
    pred = {(m, tuple(map(name, e["h"]))): e for m, e in edges}
    inner = {(m, h[:-1]) for m, h in pred}
    found = []
    for (m, h), e in sorted(pred.items()):
        if (m, h) not in inner:
            found.append((m, [pred[m, h[:k + 1]] for k in range(len(h))]))
    return found


def perform(job: tuple) -> dict | None:
    """What differs when a path is performed, or None."""
    if job[0].get("kind") == "inject":
        return perform_inject(job)
    m, path, seed = job
    w = World(m["c"], random.Random(seed))
    done: list[str] = []
    try:
        for o in m["start"]:
            got = w.run(o)
            if got["r"] != "ok":
                return {"at": o, "got": [got["r"], got["ev"]], "want": ["ok", []], "done": done}
        for e in path:
            o = e["h"][-1]
            got = w.run(o)
            if not (got["r"] in e["r"] and got["ev"] == e["ev"]
                    or any(got["r"] in a["r"] and got["ev"] == a["ev"] for a in e["alt"])):
                return {"at": o, "got": [got["r"], got["ev"]], "want": [e["r"], e["ev"]], "done": done}
            if e["alt"] and got["ev"] != e["ev"]:
                return None  # the other allowed outcome: the predictions that follow do not apply
            done.append(name(o))
    finally:
        w.finish()
    return None


def perform_batch(jobs: list[tuple]) -> list[tuple[int, dict]]:
    return [(n, bad) for n, job in enumerate(jobs) if (bad := perform(job))]


def transitions(ck: Check) -> None:
    deepen(ck, [*MENUS.get(ck.pid, ()), *(ladder_menus(ck.thorough) if ck.pid == "P03" else ())], "CoreMC")


def bindings(ck: Check) -> None:
    deepen(ck, INJECT_MENUS[ck.pid], "InjectMC")


def deepen(ck: Check, menus: list[dict], module: str) -> None:
    menus = [dict(m, depth=m["depth"] + (m["deeper"] if ck.thorough else 0)) for m in menus]
    edges, st = explore(menus, module)
    ck.states += st["states"]
    ck.transitions += st["transitions"]
    todo = paths(edges)
    jobs = [(menus[m], path, ck.seed * 1_000_003 + n) for n, (m, path) in enumerate(todo)]
    random.Random(ck.seed).shuffle(jobs)
    parts = [jobs[a:a + 60] for a in range(0, len(jobs), 60)]
    for part, (how, val) in zip(parts, parallel(perform_batch, parts, timeout=max(60.0, ck.left()))):
        if how == "raised":
            raise RuntimeError(val)
        if how == "hung":
            ck.violation("performing a generated behaviour did not end", {"jobs": part[:1]})
            continue
        ck.traces += len(part)
        for n, differs in val:
            m, path, seed = part[n]
            ck.violation(
                f"generated behaviour {[name(o) for o in m['start']]} then {differs['done']}: {name(differs['at'])} "
                f"gave {differs['got']}, specified {differs['want']}",
                {"menu": m, "path": [e["h"][-1] for e in path], "seed": seed, **differs})
    ck.count("exhaustive_scenarios", len(menus))
    ck.count("exhaustive_states", st["states"])
    ck.count("exhaustive_transitions_performed", len(edges))
    ck.count("exhaustive_paths_performed", len(jobs))
    if jobs:
        m, path, _ = jobs[0]
        ck.sample({"exhaustive_path": [f"{name(e['h'][-1])} -> {e['r']} {e['ev']}" for e in path]}, 4)
