"""P08, P09: controlled schedules of the real code, validated by TLC against
spec/Concurrent.tla."""
from __future__ import annotations

import copy
import functools
import random

import conc
import tlc
from framework import Check, parallel

EXPLORE = {
    "threads": conc.explore_threads,
    "tasks": conc.explore_tasks,
    "threads-open": functools.partial(conc.explore_threads, share=1.0),
    "tasks-open": functools.partial(conc.explore_tasks, share=1.0),
}


def batch(job: tuple) -> tuple[list[dict], int]:
    kind, lo, hi, budget = job
    out: list[dict] = []
    runs = 0
    for n in range(lo, hi):
        traces, k = EXPLORE[kind](n, budget)
        out.extend(traces)
        runs += k
    return out, runs


def corrupted(t: dict, rng: random.Random) -> dict | None:
    """A copy of t in which one event is missing, repeated or altered."""
    t = copy.deepcopy(t)
    idx = [k for k, e in enumerate(t["ev"]) if e["e"] in "bkr" or (e["e"] == "ret" and e["r"].startswith("o"))]
    if not idx:
        return None
    k = rng.choice(idx)
    e = t["ev"][k]
    if e["e"] == "ret":
        e["r"] += "0"
    elif rng.random() < 0.5:
        del t["ev"][k]
    else:
        t["ev"].insert(k, dict(e))
    return t


def schedules(ck: Check, kind: str, scenarios: int, budget: int, chunk: int = 240) -> None:
    base = ck.seed * 1_000_000
    stats = ck.notes
    done = 0
    while done < scenarios and (done == 0 or ck.left() > 60):
        n = min(chunk, scenarios - done)
        jobs = [(kind, base + done + a, base + done + a + 1, budget) for a in range(n)]
        res = parallel(batch, jobs, timeout=max(120.0, ck.left()))
        traces: list[dict] = []
        for job, (verdict, val) in zip(jobs, res):
            if verdict == "ok":
                traces.extend(val[0])
                ck.count("schedules", val[1])
            elif verdict == "hung" or "the child hung" in val:
                ck.violation(f"{kind}: scenario {job[1]} did not end", {"job": job})
            else:
                raise RuntimeError(val)
        done += n
        ck.count("scenarios", n)
        bad = [b for b in (corrupted(t, random.Random(t["seed"])) for t in traces[:6]) if b]
        verdicts, st = tlc.validate(traces + bad, "ConcTrace")
        ck.states += st["states"]
        ck.transitions += st["transitions"]
        for i, t in enumerate(traces):
            v, k, exp = verdicts[i]
            ck.traces += 1
            ck.count("events", len(t["ev"]))
            for e in t["ev"]:
                name = "event_" + {"q": "request", "b": "call", "k": "delivered", "x": "raised", "r": "released",
                                   "ret": "returned", "can": "cancelled", "end": "stuck"}[e["e"]]
                stats[name] = stats.get(name, 0) + 1
            if v == "WILD":
                ck.count("left_domain")
            elif v != "ACCEPT":
                e = t["ev"][k - 1]
                what = (
                    f"{kind}: scenario {t['seed']}, schedule '{t['schedule']}', event {k} {e}: "
                    + (exp["r"] if exp else "an invariant of the specification fails")
                )
                ck.violation(what, {"trace": {**t, "ev": t["ev"][:k]}, "verdict": v})
        for j in range(len(bad)):
            if verdicts[len(traces) + j][0] == "ACCEPT":
                raise RuntimeError(f"a corrupted trace was accepted: {bad[j]}")
        ck.count("corrupted_traces_rejected", len(bad))
        if traces:
            t = traces[len(traces) // 2]
            ck.sample({"scenario": t["seed"], "schedule": t["schedule"], "events": [str(e) for e in t["ev"][:16]]})
        if len(ck.violations) >= 3:
            break
