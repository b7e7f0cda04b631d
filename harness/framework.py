"""Common ground of the checks: seeds, parallel generation, verdicts, evidence."""
from __future__ import annotations

import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback
from pathlib import Path
from typing import Any, Callable

VERIF = Path(__file__).resolve().parent.parent
REPLAYS = VERIF / "evidence" / "replays"
WORKERS = min(8, os.cpu_count() or 1)


class Check:
    """One run of the check of one property."""

    def __init__(self, pid: str, tier: str, seed: int, budget: float) -> None:
        self.pid, self.tier, self.seed, self.budget = pid, tier, seed, budget
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples: list[Any] = []
        self.notes: dict[str, Any] = {}
        self.violations: list[str] = []
        self.assumptions: list[str] = []
        self.known: list[str] = []

    @property
    def thorough(self) -> bool:
        return self.tier == "thorough"

    def left(self) -> float:
        return self.budget - (time.time() - self.t0)

    def count(self, name: str, n: int = 1) -> None:
        self.notes[name] = self.notes.get(name, 0) + n

    def sample(self, x: Any, limit: int = 3) -> None:
        if len(self.samples) < limit:
            self.samples.append(x)

    def violation(self, what: str, data: Any) -> None:
        if len(self.violations) >= 5:
            return
        REPLAYS.mkdir(parents=True, exist_ok=True)
        path = REPLAYS / f"{self.pid}-{len(self.violations) + 1}.json"
        path.write_text(json.dumps({"property": self.pid, "what": what, "seed": self.seed, "data": data}, indent=1, default=str))
        self.violations.append(what)
        print(f"# {what}")
        print(f"VIOLATION property={self.pid} replay={path}", flush=True)

    def finish(self, level: str = "model_checking") -> int:
        evidence = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": level,
            "coverage": {
                "states": self.states,
                "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples,
                **self.notes,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        out = VERIF / "evidence"
        out.mkdir(exist_ok=True)
        (out / f"{self.pid}.json").write_text(json.dumps(evidence, indent=1, default=str) + "\n")
        print(
            f"{self.pid} {self.tier}: states={self.states} transitions={self.transitions} "
            f"traces={self.traces} violations={len(self.violations)} wall={evidence['wall_s']}s"
        )
        return 1 if self.violations else 0


def parallel(fn: Callable[[Any], Any], jobs: list[Any], timeout: float) -> list[tuple[str, Any]]:
    """fn over jobs in worker processes: ("ok", result) | ("raised", text) | ("hung", "")."""
    ctx = mp.get_context("fork")
    results: list[tuple[str, Any]] = [("hung", "")] * len(jobs)
    sys.stdout.flush()
    pool = ctx.Pool(min(WORKERS, max(1, len(jobs))), maxtasksperchild=50)
    try:
        pending = [pool.apply_async(_guard, (fn, j)) for j in jobs]
        end = time.time() + timeout
        for i, p in enumerate(pending):
            try:
                results[i] = p.get(max(0.1, end - time.time()))
            except mp.TimeoutError:
                pass
    finally:
        pool.terminate()
        pool.join()
    return results


def _guard(fn: Callable[[Any], Any], job: Any) -> tuple[str, Any]:
    try:
        return "ok", fn(job)
    except BaseException:  # noqa: BLE001
        return "raised", traceback.format_exc()


# ---- known findings ---------------------------------------------------------
FINDING = re.compile(r"^finding: property=(\S+) id=(\S+) (.*)$")


def known_findings(pid: str) -> list[tuple[str, str]]:
    path = VERIF / "known_findings.txt"
    found = []
    for line in path.read_text().splitlines() if path.exists() else ():
        m = FINDING.match(line.strip())
        if m and m[1] == pid:
            found.append((m[2], m[3]))
    return found
