"""Running TLC and reading its verdicts."""
from __future__ import annotations

import json
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

JOBS = 8
HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.realpath(os.path.join(HERE, "..", "spec"))
JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = None


class TlcError(Exception):
    pass


def classpath() -> str:
    global CM
    if CM is None:
        d = os.path.dirname(JAR)
        CM = ":".join(os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".jar"))
    return CM


def run(module: str, cfg: str, env: dict[str, str], *, workers: int = 8, timeout: float = 800,
        heap: str = "8g", extra: list[str] | None = None, stack: str = "64m",
        quick: bool = False) -> str:
    """Runs TLC on spec/<module>.tla; returns its output."""
    meta = tempfile.mkdtemp(prefix="awtlc-", dir="/tmp")
    try:
        cf = os.path.join(meta, "m.cfg")
        with open(cf, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update({"SPECDIR": SPEC, **env})
        cmd = ["java", f"-Xmx{heap}", f"-Xss{stack}", *(["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4"] if quick else ["-XX:+UseParallelGC"]), "-cp", classpath(), "tlc2.TLC",
               "-metadir", meta, "-workers", str(workers), "-config", cf, "-noGenerateSpecTE",
               *(extra or []), os.path.join(SPEC, module + ".tla")]
        of = os.path.join(meta, "out.txt")
        with open(of, "w") as f:
            p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=SPEC)
            late = False
            try:
                p.wait(timeout)
            except subprocess.TimeoutExpired:
                late = True
            finally:
                p.kill()
                p.wait()
        with open(of, errors="replace") as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(0)
            out = f.read() if n < 64 << 20 else f.read(32 << 20)
        return out + ("\nError: TLC timed out\n" if late else "")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


STATS = re.compile(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found")


def stats(out: str) -> tuple[int, int]:
    m = STATS.findall(out)
    if not m:
        return 0, 0
    a, b = m[-1]
    return int(a.replace(",", "")), int(b.replace(",", ""))


def ok(out: str) -> bool:
    return "Model checking completed. No error has been found." in out


VERDICT = re.compile(r'<<\s*"VERDICT",\s*"([^"]*)",\s*(\{.*?\})\s*>>', re.S)


def _clauses(s: str) -> list[str]:
    return re.findall(r'"((?:[^"\\]|\\.)*)"', s)


def _judge_once(traces: list[dict], prop: str, timeout: float):
    """Judges in parallel processes: TLC's workers contend for its string table."""
    k = min(JOBS, (len(traces) + 11) // 12)
    parts = [traces[i::k] for i in range(k)]
    with ThreadPoolExecutor(k) as ex:
        rs = list(ex.map(lambda p: _judge_part(p, prop, timeout), parts))
    res: dict[str, list[str]] = {}
    for r, _ in rs:
        res.update(r)
    bad = [o for _, o in rs if not ok(o)]
    return res, (bad[0] if bad else rs[0][1]), sum(stats(o)[1] for _, o in rs)


def _judge_part(traces: list[dict], prop: str, timeout: float):
    fd, path = tempfile.mkstemp(prefix="awtr-", suffix=".ndjson", dir="/tmp")
    with os.fdopen(fd, "w") as f:
        for t in traces:
            f.write(json.dumps(t, ensure_ascii=True) + "\n")
    try:
        out = run("Conform", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n",
                  {"VERIF_PROP": prop, "TRACES": path}, timeout=timeout, workers=1, heap="3g", quick=True)
    finally:
        os.unlink(path)
    res = {i: _clauses(c) for i, c in VERDICT.findall(out)}
    return res, out


def judge(traces: list[dict], prop: str, timeout: float = 150) -> tuple[dict[str, list[str]], int]:
    """id -> violated clauses. A recording the specification cannot even evaluate is
    outside its vocabulary and rejected as such."""
    if not traces:
        return {}, 0
    res, out, states = _judge_once(traces, prop, timeout)
    if ok(out) and len(res) == len(traces):
        return res, states
    missing = [t for t in traces if t["id"] not in res]
    if len(missing) == len(traces) and ("Parsing or semantic analysis failed" in out or "Error: Parsing" in out):
        raise TlcError(out[-3000:])
    # isolate the recordings that cannot be evaluated
    for k, t in enumerate(missing):
        if k >= 4:
            for x in missing:
                res.setdefault(x["id"], ["unexplainable: not evaluated"])
            break
        if t["id"] in res:
            continue
        r, o, _ = _judge_once([t], prop, 45)
        if t["id"] in r and ok(o):
            res.update(r)
        else:
            m = re.search(r"Error: (.*?)(?:\n\d+ states|\Z)", o, re.S)
            res[t["id"]] = ["unexplainable: " + (m.group(1)[:600] if m else o[-600:])]
        # try all the rest in one go after each isolated failure
        rest = [x for x in missing if x["id"] not in res]
        if not rest:
            break
        r, o, _ = _judge_once(rest, prop, 60)
        res.update(r)
        if all(x["id"] in res for x in rest):
            break
    return res, states
