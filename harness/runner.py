"""Runs scenarios against the real code and records observations.

Each scenario runs in a scratch root as an unprivileged user; each process
group of its steps is a forked child of a worker that has auditwheel (from
/repo/src) loaded."""
from __future__ import annotations

import io
import json
import multiprocessing as mp
import os
import pwd
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VENV_BIN = "/opt/venv/bin"
PY = os.path.join(VENV_BIN, "python")


def drop_privileges() -> None:
    if os.getuid() != 0:
        return
    try:
        pw = pwd.getpwnam("nobody")
        os.setgroups([])
        os.setgid(pw.pw_gid)
        os.setuid(pw.pw_uid)
    except (OSError, KeyError):
        pass


def load_auditwheel() -> None:
    sys.path.insert(0, SRC)
    sys.dont_write_bytecode = True
    import auditwheel
    import auditwheel.main, auditwheel.repair, auditwheel.wheel_abi  # noqa
    f = os.path.realpath(auditwheel.__file__ or "")
    assert f.startswith(os.path.realpath(SRC)), f


class Ctx:
    """Everything an operation needs."""

    def __init__(self, root: str, scn: dict):
        self.root = root
        self.scn = scn

    def real(self, s: str) -> str:
        return s.replace("/@", self.root)

    def sub(self, s: str) -> str:
        return s.replace(self.root, "/@")


def base_env(ctx: Ctx) -> dict[str, str]:
    return {
        "PATH": f"{ctx.root}/bin:{VENV_BIN}:/usr/local/bin:/usr/bin:/bin",
        "TMPDIR": f"{ctx.root}/tmp", "HOME": f"{ctx.root}", "LC_ALL": "C.UTF-8", "TZ": "UTC",
        "PYTHONDONTWRITEBYTECODE": "1", "SOURCE_DATE_EPOCH": "1600000000", "PYTHONHASHSEED": "0",
    }


def run_child(ctx: Ctx, steps: list[dict], timeout: float) -> list[dict]:
    """Run steps in one forked process; returns their observations."""
    resf = os.path.join(ctx.root, "result.json")
    if os.path.exists(resf):
        os.unlink(resf)
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.setpgid(0, 0)
            import ops
            out = []
            for st in steps:
                out.append(ops.run_step(ctx, st))
                with open(resf + ".tmp", "w") as f:
                    json.dump(out, f)
                os.replace(resf + ".tmp", resf)
            code = 0
        except BaseException:  # noqa
            try:
                with open(os.path.join(ctx.root, "harness-error"), "w") as f:
                    traceback.print_exc(file=f)
            except OSError:
                pass
        finally:
            os._exit(code)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    deadline = time.monotonic() + timeout
    status = None
    delay = 0.0005
    while time.monotonic() < deadline:
        p, s = os.waitpid(pid, os.WNOHANG)
        if p:
            status = s
            break
        time.sleep(delay)
        delay = min(delay * 1.5, 0.02)
    timed_out = status is None
    if timed_out:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        _, status = os.waitpid(pid, 0)
    res = []
    if os.path.exists(resf):
        with open(resf) as f:
            res = json.load(f)
        os.unlink(resf)
    err = os.path.join(ctx.root, "harness-error")
    if os.path.exists(err):
        with open(err) as f:
            raise RuntimeError("harness error in scenario %s\n%s" % (ctx.scn.get("id"), f.read()))
    if len(res) < len(steps):
        # the process died in the middle of a step
        res.append({"exit": 137 if timed_out else 128 + (status & 0x7F) if status & 0x7F else status >> 8,
                    "exc": "TIMEOUT" if timed_out else "DIED", "died": True})
    return res


def run_scenario(scn: dict, keep: str | None = None) -> dict:
    import scenario
    root = keep or tempfile.mkdtemp(prefix="s", dir=os.environ["VERIF_SCRATCH"])
    root = os.path.realpath(root)
    ctx = Ctx(root, scn)
    try:
        return scenario.execute(ctx, run_child)
    finally:
        if not keep:
            for d, dn, _ in os.walk(root):
                for x in dn:
                    try:
                        os.chmod(os.path.join(d, x), 0o755)
                    except OSError:
                        pass
            shutil.rmtree(root, ignore_errors=True)


def _worker(args):
    i, scn = args
    try:
        return i, run_scenario(scn), None
    except BaseException as e:  # noqa
        return i, None, f"{type(e).__name__}: {e}\n{traceback.format_exc()}"


def _init(scratch):
    os.environ["VERIF_SCRATCH"] = scratch
    drop_privileges()
    os.umask(0o022)
    os.chdir(scratch)
    load_auditwheel()
    import ops, scenario  # noqa


def scratch_dir() -> str:
    d = tempfile.mkdtemp(prefix="awverif-", dir="/tmp")
    os.chmod(d, 0o777)
    return os.path.realpath(d)


def run_all(scns: list[dict], jobs: int | None = None, deadline: float | None = None) -> list[dict]:
    """Run all scenarios; returns traces (in order). Raises on harness errors."""
    jobs = jobs or min(8, os.cpu_count() or 4)
    scratch = scratch_dir()
    out: list = [None] * len(scns)
    errors = []
    try:
        with mp.get_context("fork").Pool(jobs, initializer=_init, initargs=(scratch,)) as pool:
            for i, tr, err in pool.imap_unordered(_worker, list(enumerate(scns)), chunksize=4):
                if err:
                    errors.append((scns[i].get("id"), err))
                out[i] = tr
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if errors:
        sys.stderr.write(f"{len(errors)} harness errors; first:\n{errors[0][0]}\n{errors[0][1]}\n")
        raise RuntimeError("harness error")
    return out
