"""check.py <property>: runs the check of one property (tier from VERIF_TIER)."""
from __future__ import annotations

import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import logging

logging.getLogger("asyncio").setLevel(logging.CRITICAL)
import conc_all  # noqa: E402
import conc_check  # noqa: E402  (first: it patches locks while diwire is imported)
import core_check  # noqa: E402
import exhaustive  # noqa: E402
import findings  # noqa: E402
import inference  # noqa: E402
import wiring  # noqa: E402
import world  # noqa: E402
from framework import Check, known_findings  # noqa: E402


def core(ck: Check) -> None:
    core_check.histories(ck, 60000 if ck.thorough else 3000)


def inject(ck: Check) -> None:
    core_check.histories(ck, 60000 if ck.thorough else 3000, kind="inject")


def core_then_inject(ck: Check) -> None:
    core_check.histories(ck, 40000 if ck.thorough else 2500, reserve=0.3 * ck.budget if ck.thorough else 60)
    core_check.histories(ck, 20000 if ck.thorough else 800, kind="inject")


def threads(ck: Check) -> None:
    conc_all.every(ck, "threads")
    conc_check.schedules(ck, "threads", 4000 if ck.thorough else 240, 120 if ck.thorough else 36)


def tasks(ck: Check) -> None:
    conc_all.every(ck, "tasks")
    conc_check.schedules(ck, "tasks", 4000 if ck.thorough else 240, 120 if ck.thorough else 30)


def open_core(ck: Check) -> None:
    core_check.histories(ck, 40000 if ck.thorough else 2500, reserve=0.4 * ck.budget if ck.thorough else 100)
    core_check.histories(ck, 10000 if ck.thorough else 800, kind="inject", reserve=0.3 * ck.budget if ck.thorough else 60)


def named(ck: Check) -> None:
    """Histories in which every key that can be inferred is."""
    world.World.p_infer = 1.0
    core_check.histories(ck, 20000 if ck.thorough else 1000)


def open_concurrent(ck: Check) -> None:
    conc_check.schedules(ck, "threads-open", 1500 if ck.thorough else 72, 80 if ck.thorough else 24)
    conc_check.schedules(ck, "tasks-open", 1500 if ck.thorough else 72, 80 if ck.thorough else 20)


PLAN: dict[str, list] = {pid: [core] for pid in core_check.MIX}
for _pid in core_check.INJECT_MIX:
    PLAN[_pid] = [core_then_inject] if _pid in core_check.MIX else [inject]
for _pid in exhaustive.MENUS:
    PLAN[_pid].insert(0, exhaustive.transitions)

_HIST = (
    "TLA+/TLC: every transition of bounded instances of spec/DiwireCore.tla (CoreMC) performed on the real code, and "
    "trace validation of recorded executions against it",
    "Every operation of every generated history is compared in full (result, provider events) with the specification; "
    "histories are sampled, the specification decides. Trusts the recorder (harness/world.py) and TLC.",
)
NOTES: dict[str, tuple[str, str]] = {pid: _HIST for pid in PLAN}
for _pid in ("P15", "P16"):
    NOTES[_pid] = (
        "TLA+/TLC: every transition of bounded instances of spec/Inject.tla (InjectMC) performed on the real code, and "
        "trace validation of recorded executions against it",
        "Histories of nested binding blocks, injected callables and operations inside their bodies, in threads, tasks "
        "and copied contexts; every result and provider event is compared with the specification. Histories are "
        "sampled. Trusts the recorder (harness/world.py, harness/gen_inject.py) and TLC.",
    )
for _pid in exhaustive.INJECT_MENUS:
    PLAN[_pid].insert(0, exhaustive.bindings)
PLAN["P17"] = [exhaustive.bindings, exhaustive.transitions, open_core, open_concurrent]
PLAN["P08"] = [threads]
PLAN["P09"] = [tasks]
NOTES["P17"] = (
    "TLA+/TLC: every transition of bounded instances of spec/DiwireCore.tla with spec/Templates.tla (CoreMC, InjectMC) "
    "performed on the real code, and trace validation of recorded executions against them and spec/Concurrent.tla",
    "Random sets of open generics over a term algebra of types, used directly, by injected callables and concurrently; "
    "every result and provider event is compared with the specification. Histories are sampled. Trusts the recorder "
    "(harness/world.py, harness/generics.py) and TLC.",
)
NOTES["P08"] = (
    "TLA+/TLC: every order of events of bounded instances of spec/Concurrent.tla (ConcMC), and executions of the real "
    "code under a controlled thread scheduler validated against it",
    "Threads run one at a time; where they may be preempted (function entry, return of a call, loop back edge, lock "
    "wait) a schedule decides. Small scenarios: every placement of one or two preemptions. Generated scenarios: all "
    "single preemptions up to a budget plus sampled multiple ones. The event order is judged by the specification's "
    "monitor.",
)
NOTES["P09"] = (
    "TLA+/TLC: every order of events of bounded instances of spec/Concurrent.tla (ConcMC), and executions of the real "
    "code under controlled task schedules validated against it",
    "Providers suspend on gates that a schedule opens; tasks are cancelled at scheduled points. Small scenarios: every "
    "schedule with a bounded number of cancellations and of acts before the tasks have settled. Generated scenarios, "
    "also over two event loops in succession: sampled schedules. The event order is judged by the specification's "
    "monitor.",
)

PLAN["P20"] = [wiring.enumerated, wiring.sampled]
NOTES["P20"] = (
    "TLA+/TLC: every signature of spec/WiringGen.tla replayed in real providers, and recorded registrations and calls "
    "validated against spec/Wiring.tla",
    "All signatures of at most 2 parameters (thorough: 3) with every choice of supplied keys, generated by TLC and "
    "performed in the provider shapes they fit; longer signatures, explicit dependencies and decorators are sampled.",
)

PLAN["P21"] = [inference.enumerated, inference.sampled, named]
NOTES["P21"] = (
    "TLA+/TLC: every registration of spec/InferenceGen.tla replayed on the real code, recorded histories of "
    "registrations validated against spec/Inference.tla, and histories whose registrations leave their key to be "
    "inferred against spec/DiwireCore.tla",
    "All combinations of registration method, shape of the callable, declaration and return annotation of a bounded "
    "term algebra, generated by TLC; re-registration, decorators and components are sampled. Only registrations whose "
    "annotation is true of the provider are claimed.",
)


def main() -> int:
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ck = Check(pid, tier, seed, 800.0 if tier == "thorough" else 400.0)
    for fid, text in known_findings(pid):
        try:
            got = findings.SCENARIOS[fid]()
        except Exception:  # noqa: BLE001  the scenario itself went another way
            got = None
        if got:
            print(f"KNOWN-FINDING: property={pid} {fid}: {got}")
            ck.count("known_findings_reproduced")
        else:
            print(f"# known finding {fid} no longer shows: {text}")
    for part in PLAN[pid]:
        part(ck)
        if ck.violations:
            break
    return ck.finish()


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        code = 2
    sys.exit(code)
