"""Properties decided by DiwireCore: generated histories performed on the real
code and validated by TLC."""
from __future__ import annotations

import copy
import random
from typing import Any

import gen_core
import gen_inject
import tlc
from framework import Check, parallel

PROFILES: dict[str, dict] = {
    "general": {},
    "sharing": dict(
        p_fail=0.03, p_relfail=0.05, p_deeper=0.15, ops=dict(res=14, ent=3, cls=2, call=4, reg=0.3, dec=0.1),
        dep_kinds=dict(p=10, m=3, a=2, h=2, g=1, x=0.3, y=0.3, f=0.3), p_none=0.15, p_unregistered=0.05,
        types=(4, 7), ndeps=(0, 4),
    ),
    "pooled": dict(  # graphs without resources reuse scope objects
        kinds=dict(c=5, f=5, i=1), ops=dict(res=10, ent=6, cls=5, call=2), p_bad_enter=0.02,
        p_async=0.05, p_fail=0.03, max_scopes=6, types=(2, 5), steps=(16, 34), p_ctx=0.6,
    ),
    "stateless": dict(
        kinds=dict(c=5, f=5, i=1, g=0.5), max_level=1, ops=dict(res=10, ent=6, cls=5, call=2),
        types=(1, 4), steps=(14, 28), p_ctx=0.6, dep_kinds=dict(p=8, x=2, y=2, h=1),
    ),
    "ladder": dict(
        ladder="any", p_bad_enter=0.25, ops=dict(res=8, ent=8, cls=3, call=2), p_deeper=0.25,
        max_scopes=9, p_fit=0.6, types=(2, 5),
    ),
    "resources": dict(
        kinds=dict(g=6, m=6, c=1, f=1), ops=dict(res=12, ent=4, cls=3, call=3, reg=0.8, dec=0.2),
        p_exc=0.35, p_relfail=0.25, p_fail=0.06, p_root_close=0.05, p_async_op=0.6, p_unregistered=0.03,
    ),
    "failures": dict(
        kinds=dict(g=5, m=5, c=3, f=3), p_fail=0.45, p_relfail=0.6, p_exc=0.3, p_async=0.3, p_async_op=0.6,
        p_unregistered=0.03,
    ),
    "context": dict(
        dep_kinds=dict(p=6, m=1, a=0.5, h=2, g=1, x=5, y=5, f=0.2), tok_kinds=dict(p=10, m=1, x=3, y=3, h=1),
        p_ctx=0.9, ops=dict(res=10, ent=6, cls=3, call=3, reg=0.2), max_scopes=8,
    ),
    "modes": dict(p_async=0.45, p_async_op=0.5, p_none=0.1, p_unregistered=0.03),
    "histories": dict(
        ops=dict(res=8, ent=4, cls=2, call=2, reg=5, dec=1, bad=0.5, cmp=0.5), steps=(18, 36), types=(2, 5),
        p_unregistered=0.35,
    ),
    "refusals": dict(
        ops=dict(res=8, ent=3, cls=2, call=2, reg=1, dec=0.7, bad=6), steps=(16, 30), types=(2, 5),
        kinds=dict(c=3, f=3, g=3, m=3, i=1), autoreg=1, mp="er", dp="ir",
    ),
    "decorators": dict(
        ops=dict(res=9, ent=3, cls=2, call=2, reg=2, dec=4, bad=0.2), types=(1, 4), p_pre_dec=0.5, p_comp=0.25,
        p_unregistered=0.25, steps=(14, 28), p_async=0.25,
    ),
    "components": dict(
        p_comp=0.6, dep_kinds=dict(p=8, m=2, a=6, h=1, g=0.5, x=0.5, y=0.5),
        tok_kinds=dict(p=8, m=2, a=7, h=1, g=0.5), types=(2, 4),
        ops=dict(res=10, ent=3, cls=2, call=2, reg=2, dec=0.5),
    ),
    "handles": dict(
        dep_kinds=dict(p=6, m=1, a=0.5, h=6, g=4, v=2, w=1, x=1, y=1), tok_kinds=dict(p=10, h=4, g=3, m=1),
        ops=dict(res=9, ent=4, cls=2, call=9, reg=0.4, dec=0.3), p_defects=0.25,
    ),
    "reentrant": dict(   # providers that call the handles they get
        p_nest=0.95, dep_kinds=dict(p=9, m=1, a=1.5, h=8, g=3, v=1, w=0.5, x=0.5, y=0.5), types=(4, 7), ndeps=(1, 4),
        kinds=dict(c=3, f=3, g=4, m=3, i=0.3), p_defects=0, p_unregistered=0.03, p_transient=0.35, p_deeper=0.02,
        ops=dict(res=12, ent=4, cls=3, call=3, reg=0.6, dec=0.4), p_fail=0.12, p_relfail=0.2, p_async_op=0.6,
    ),
    "autoreg": dict(
        autoreg=4, mp="eerc", dp="ir", p_pol=0.4, types=(1, 4), p_unregistered=0.2, p_defects=0.1,
        ops=dict(res=12, ent=3, cls=2, call=3, reg=1, dec=0.4, bad=0.3), urc=True,
        dep_kinds=dict(p=12, m=2, a=1, h=2, g=1, x=0.5, y=0.5, f=1),
    ),
    "open": dict(templates=(2, 6), types=(2, 4), steps=(12, 26), p_closed=0.8),
    "open-scopes": dict(   # scopes that hold nothing but what templates provide
        templates=(2, 4), types=(1, 3), max_level=1, steps=(16, 32), p_closed=0.85, p_fit=0.95, p_bad_enter=0.02,
        kinds=dict(g=5, m=5, c=2, f=2, i=0.5), ops=dict(res=12, ent=6, cls=5, call=2), max_scopes=8, p_ctx=0.15,
        p_unregistered=0, p_fail=0.03, p_relfail=0.1,
    ),
    "optional": dict(
        dep_kinds=dict(p=4, m=9, a=0.5, h=0.5, v=3, w=2, x=1, y=4, f=1), tok_kinds=dict(p=8, m=8, y=3, a=0.5),
        p_unregistered=0.4, p_default=0.5, p_fail=0.12, ndeps=(1, 4),
    ),
}

# histories of bindings and injected callables (spec/Inject.tla)
INJECT: dict[str, dict] = {
    "inject": {},
    "calls": dict(ops=dict(res=4, ent=2, cls=0.8, call=2, reg=0.8, dec=0.3, cmp=0.1, bnd=2, cll=10, dcl=3, flo=0.6)),
    "bindings": dict(
        ops=dict(res=9, ent=3, cls=1, call=1.5, reg=0.3, cmp=0.2, bnd=6, cll=5, dcl=1, flo=3),
        p_at=(1, 2.5, 1.5), p_late=0.25, p_urc=0.75, depth=6, steps=(20, 44), p_explicit=0.2,
    ),
    "call-resources": dict(
        kinds=dict(g=6, m=5, c=1, f=1), p_async=0.3, p_relfail=0.4, p_exc=0.45, p_fail=0.2, p_fscope=0.5,
        ops=dict(res=5, ent=3, cls=1, call=3, reg=0.3, bnd=3, cll=9, dcl=2, flo=1),
    ),
    "call-optional": dict(
        par_kinds=dict(p=3, m=7, v=2, w=1, x=1, y=6), p_default=0.5, p_unregistered=0.2, p_cx=0.6,
        ops=dict(res=4, ent=3, cls=1, call=2, reg=0.6, bnd=3, cll=10, dcl=3, flo=0.7),
    ),
    "call-autoreg": dict(
        autoreg=4, types=(1, 3), mp="erc", dp="rri", p_pol=0.4, p_fscope=0.5, p_unregistered=0.2,
        ops=dict(res=7, ent=3, cls=1, call=2, reg=1.2, dec=0.4, bnd=3, cll=7, dcl=3, flo=0.5),
    ),
    "call-contracts": dict(
        p_fscope=0.8, ops=dict(res=4, ent=2, cls=0.8, call=1, reg=4, dec=1.5, bad=0.5, bnd=2, cll=6, dcl=4, flo=0.4),
        par_kinds=dict(p=8, m=5, a=2, h=2, g=1, v=1, w=0.5, x=0.5, y=1), p_deeper=0.25, p_unregistered=0.3, autoreg=2,
    ),
    "call-open": dict(
        templates=(1, 4), types=(2, 4), p_closed=0.7, p_fscope=0.4, p_default=0.4,
        par_kinds=dict(p=10, m=5, a=0.6, h=2, g=1, v=2, w=1, x=0.4, y=1),
        ops=dict(res=5, ent=3, cls=1, call=2, reg=1.5, dec=0.5, bnd=2.5, cll=9, dcl=3, flo=0.7),
    ),
    "call-bounds": dict(   # contracts, and templates that come later
        templates=(0, 1), types=(1, 3), p_closed=0.8, p_fscope=0.9, p_late=0.1, p_bounded=0.5, p_plain=0.2,
        par_kinds=dict(p=10, m=5, a=0.3, h=2, g=1, v=2, w=1, x=0.2, y=0.5),
        ops=dict(res=3, ent=2, cls=0.5, call=1, reg=7, dec=1, bnd=1, cll=5, dcl=4, flo=0.3),
    ),
}
INJECT_MIX: dict[str, list[str]] = {
    "P15": ["calls", "calls", "call-resources", "call-optional", "call-autoreg", "call-contracts", "call-open"],
    "P16": ["bindings", "bindings", "bindings", "inject", "call-resources", "call-open"],
    "P01": ["calls"], "P06": ["call-optional"], "P11": ["call-contracts"], "P14": ["calls"],
    "P18": ["call-autoreg"], "P19": ["call-optional"], "P05": ["call-resources"], "P17": ["call-open", "call-open", "call-bounds"],
    "P21": ["general", "histories", "components", "open", "modes"],
}

MIX: dict[str, list[str]] = {
    "P01": ["sharing", "sharing", "reentrant", "pooled", "modes", "general"],
    "P02": ["pooled", "pooled", "stateless", "context", "resources"],
    "P03": ["ladder", "ladder", "sharing"],
    "P04": ["resources", "resources", "reentrant", "histories", "ladder"],
    "P05": ["failures", "failures", "reentrant", "resources"],
    "P06": ["context", "context", "pooled", "stateless"],
    "P07": ["modes", "modes", "failures", "resources"],
    "P10": ["histories", "histories", "decorators", "components", "resources"],
    "P11": ["refusals", "refusals", "autoreg"],
    "P12": ["decorators"],
    "P13": ["components", "components", "decorators"],
    "P14": ["handles", "handles", "reentrant", "reentrant", "context"],
    "P17": ["open", "open", "open", "open", "open-scopes", "open-scopes", "sharing", "resources", "failures", "histories", "handles", "optional", "decorators"],
    "P18": ["autoreg"],
    "P19": ["optional", "optional", "context"],
}


def profile_for(pid: str, n: int) -> tuple[str, dict]:
    """Profile of the n-th history: mostly the property's own, with the others mixed in."""
    rng = random.Random(n * 7919 + 13)
    own = MIX.get(pid, ["general"])
    name = rng.choice(own) if rng.random() < 0.75 else rng.choice(sorted(PROFILES))
    p = copy.deepcopy(PROFILES[name])
    if name != "ladder" and rng.random() < 0.15:
        p["ladder"] = "any"
    if pid == "P17" and "templates" not in p:
        p["templates"] = (1, 5)
    elif pid != "P17" and rng.random() < 0.07:
        p["templates"] = (1, 3)
    if name not in ("autoreg", "refusals") and rng.random() < 0.08:
        p.update(autoreg=2, mp="er", dp="ir", urc=True)
    return name, p


def batch(job: tuple) -> list[dict]:
    pid, lo, hi = job
    out = []
    for n in range(lo, hi):
        name, p = profile_for(pid, n)
        t = gen_core.generate(n, p)
        t["id"] = n
        t["profile"] = name
        out.append(t)
    return out


def inject_batch(job: tuple) -> list[dict]:
    pid, lo, hi = job
    out = []
    for n in range(lo, hi):
        rng = random.Random(n * 104729 + 7)
        name = rng.choice(INJECT_MIX[pid]) if rng.random() < 0.8 else rng.choice(sorted(INJECT))
        p = copy.deepcopy(INJECT[name])
        if rng.random() < 0.3:
            p["ladder"] = "any"
        t = gen_inject.generate(n, p)
        t["id"] = n
        t["profile"] = name
        out.append(t)
    return out


KINDS = {"core": (batch, "CoreTrace"), "inject": (inject_batch, "InjectTrace")}


def corrupted(t: dict, rng: random.Random) -> dict | None:
    """A copy of trace t with one observation changed."""
    t = copy.deepcopy(t)
    idx = [k for k, o in enumerate(t["ops"]) if o["ev"] or o["op"] == "res"]
    if not idx:
        return None
    o = t["ops"][rng.choice(idx)]
    if o["ev"] and rng.random() < 0.7:
        if rng.random() < 0.5:
            o["ev"] = o["ev"][:-1]
        else:
            o["ev"] = [*o["ev"], o["ev"][-1]]
    else:
        o["r"] += "'"
    return t


def histories(ck: Check, count: int, chunk: int = 1500, kind: str = "core", reserve: float = 0.0) -> None:
    """Generate, perform and validate `count` histories (or as many as time allows)."""
    generate, module = KINDS[kind]
    base = ck.seed * 1_000_000
    done = 0
    stats = ck.notes
    stats.setdefault("operations", 0)
    stats.setdefault("left_domain", 0)
    stats.setdefault("observed_results", {})
    stats.setdefault("profiles", {})
    while done < count and (done == 0 or ck.left() - reserve > 40):
        n = min(chunk, count - done)
        step = 25
        jobs = [(ck.pid, base + done + a, base + done + min(a + step, n)) for a in range(0, n, step)]
        res = parallel(generate, jobs, timeout=max(60.0, ck.left()))
        traces: list[dict] = []
        for job, (how, val) in zip(jobs, res):
            if how == "ok":
                traces.extend(val)
            elif how == "hung":
                ck.violation(f"histories {job[1]}..{job[2] - 1} did not end", {"job": job})
            else:
                raise RuntimeError(val)
        done += n
        aborted = [t for t in traces if t.get("aborted")]
        bad = [corrupted(t, random.Random(t["id"])) for t in traces[:4]]
        bad = [b for b in bad if b]
        verdicts, st = tlc.validate(traces + bad, module)
        ck.states += st["states"]
        ck.transitions += st["transitions"]
        for i, t in enumerate(traces):
            v, k, exp = verdicts[i]
            ck.traces += 1
            stats["operations"] += len(t["ops"])
            stats["profiles"][t["profile"]] = stats["profiles"].get(t["profile"], 0) + 1
            if v == "WILD":
                stats["left_domain"] += 1
            elif v != "ACCEPT":
                o = t["ops"][k - 1]
                what = (
                    f"{kind} history {t['id']} ({t['profile']}), operation {k}: {short(o)} gave {o['r']} {o['ev']}, "
                    + (f"specified {exp['r']} {exp['ev']}" if exp else "an invariant of the specification fails")
                )
                ck.violation(what, {"kind": kind, "trace": {**t, "ops": t["ops"][:k]}, "expected": exp, "verdict": v})
            for o in t["ops"]:
                key = f"{o['op']}:{o['r'].lstrip('~')[:6] if o['r'].lstrip('~')[:2] == 'E:' else 'value'}"
                stats["observed_results"][key] = stats["observed_results"].get(key, 0) + 1
        for t in aborted:
            if not ck.violations:
                raise RuntimeError("the driver failed: " + t["aborted"])
        for j in range(len(bad)):
            if verdicts[len(traces) + j][0] == "ACCEPT":
                raise RuntimeError(f"a corrupted trace was accepted: {bad[j]}")
        ck.count("corrupted_traces_rejected", len(bad))
        if traces:
            t = traces[len(traces) // 2]
            ck.sample({"id": t["id"], "profile": t["profile"], "ops": [f"{short(o)} -> {o['r']} {o['ev']}" for o in t["ops"]][:14]})
        if len(ck.violations) >= 3:
            break


def short(o: dict) -> str:
    return " ".join(f"{k}={v}" for k, v in o.items() if k not in ("r", "ev") and v not in ("", [], None))


def replay(data: dict) -> Any:
    """Verdict of a stored history, performed again."""
    t = data["trace"]
    _, p = profile_for(data["property"], t["id"])
    return gen_core.generate(t["id"], p)
