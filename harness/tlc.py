"""Runs TLC on a trace module and collects its verdicts."""
from __future__ import annotations

import json
import os
import re
import shutil
import subprocess
import tempfile
from pathlib import Path

SPEC = Path(__file__).resolve().parent.parent / "spec"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
LINE = re.compile(r'^<<"(ACCEPT|WILD|DIVERGE|UNSAFE)", (\d+), (\d+)(?:, "(.*)")?>>$')


class TlcFailed(RuntimeError):
    pass


def run_tlc(module: str, config: str, *, env: dict | None = None, workers: int = 8,
            timeout: int = 800, args: tuple = (), heap: str = "6g") -> str:
    work = tempfile.mkdtemp(prefix="tlc-")
    try:
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", work, "-noGenerateSpecTE",
               "-config", config, *args, module]
        r = subprocess.run(cmd, cwd=SPEC, env={**os.environ, **(env or {})}, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.stdout
    finally:
        shutil.rmtree(work, ignore_errors=True)


def validate(traces: list[dict], module: str = "CoreTrace", workers: int = 8) -> tuple[dict[int, tuple], dict]:
    """Verdict per trace: ("ACCEPT"|"WILD"|"DIVERGE"|"UNSAFE", step, expected)."""
    fd, path = tempfile.mkstemp(prefix="traces-", suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(traces, f)
        out = run_tlc(f"{module}.tla", f"{module}.cfg", env={"TRACES": path}, workers=workers)
    finally:
        os.unlink(path)
    verdicts: dict[int, tuple] = {}
    for line in out.splitlines():
        m = LINE.match(line)
        if m:
            exp = json.loads(json.loads('"' + m[4] + '"')) if m[4] else None
            verdicts[int(m[2]) - 1] = (m[1], int(m[3]), exp)
    ok = "Model checking completed. No error has been found." in out
    if not ok or len(verdicts) != len(traces):
        raise TlcFailed(out[-6000:])
    m = re.search(r"(\d+) states generated, (\d+) distinct", out)
    return verdicts, {"states": int(m[2]), "transitions": int(m[1])}
