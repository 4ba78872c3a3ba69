"""Operations a scenario step can perform (inside the forked child)."""
from __future__ import annotations

import glob
import io
import json
import logging
import os
import shutil
import sys

import facts
import runner

_logging_ready = False


def snapshot(ctx):
    return {d: facts.listing(os.path.join(ctx.root, d)) for d in ("in", "out", "sys", "tmp", "cwd")
            if os.path.isdir(os.path.join(ctx.root, d))}


def diff(a, b):
    ch = []
    for d in sorted(set(a) | set(b)):
        x, y = a.get(d, {}), b.get(d, {})
        for p in sorted(set(x) | set(y)):
            if x.get(p) != y.get(p):
                ch.append(f"/@/{d}/{p}")
    return ch


def out_wheels(ctx, outdir):
    real = ctx.real(outdir)
    res = []
    if os.path.isdir(real):
        for f in sorted(os.listdir(real)):
            if f.endswith(".whl"):
                res.append(facts.wheel_facts(os.path.join(real, f), ctx.sub))
    return res


def observe(ctx, st, before, obs):
    after = snapshot(ctx)
    obs["changed"] = diff(before, after)
    obs["tmp"] = sorted(set(after.get("tmp", {})) - set(before.get("tmp", {})))
    # files (directories apart) the step created or changed
    obs["x_touched"] = [p for p in obs["changed"] if not after.get(p.split("/")[2], {}).get(p.split("/", 3)[3], "").startswith("D")]
    outdir = st.get("out", "/@/out")
    obs["files"] = sorted(os.listdir(ctx.real(outdir))) if os.path.isdir(ctx.real(outdir)) else []
    if st.get("facts", True):
        obs["outw"] = out_wheels(ctx, outdir)
    return obs


def set_env(ctx, st):
    env = runner.base_env(ctx)
    for k, v in st.get("env", {}).items():
        if v is None:
            env.pop(k, None)
        else:
            env[k] = ctx.real(v)
    os.environ.clear()
    os.environ.update(env)
    import time
    time.tzset()


def wheel_args(ctx, st):
    """Wheel arguments; patterns stand for files of earlier steps."""
    out = []
    for w in st.get("wheels", []):
        out += sorted(glob.glob(ctx.real(w))) if "*" in w else [ctx.real(w)]
    return out


def argv_of(ctx, st):
    if "argv" in st:
        return [ctx.real(a) for a in st["argv"]]
    a = ["-v"] * st.get("verbose", 0) + [st["op"]]
    if st["op"] == "repair":
        if st.get("plat", "auto") != "auto" or st.get("plat_explicit"):
            if not st.get("plat_env"):
                a += ["--plat", st["plat"]]
        for e in st.get("exclude", []):
            a += ["--exclude", ctx.real(e)]
        if st.get("only_plat"):
            a.append("--only-plat")
        if st.get("no_update_tags"):
            a.append("--no-update-tags")
        if st.get("strip"):
            a.append("--strip")
        if st.get("lib_sdir", ".libs") != ".libs":
            a += ["-L", st["lib_sdir"]]
        if st.get("zlevel", -1) != -1:
            a += ["-z", str(st["zlevel"])]
        if st.get("patcher"):
            a += ["--patcher", st["patcher"]]
        if not st.get("no_w"):
            a += ["-w", ctx.real(st.get("w", st.get("out", "/@/out")))]
        a += st.get("more", [])
    elif st["op"] == "show":
        if st.get("json", True):
            a.append("--json")
    if st.get("noisa"):
        a.append("--disable-isa-ext-check")
    if st.get("pure"):
        a.append("--allow-pure-python-wheel")
    if st.get("ldpaths") is not None:
        a += ["--ldpaths", ctx.real(st["ldpaths"])]
    a += wheel_args(ctx, st)
    return a


class Fault(OSError):
    pass


class _PauseHook:
    """Stops the program at one point of its way to the result, runs another command to its end, and lets it go on.
    at: mkdir, open, write, rename (operations on the output directory) or a fraction of all operations."""

    def __init__(self, ctx, f, out, other):
        self.ctx, self.at, self.nth, self.other = ctx, f["at"], f.get("nth", 0), other
        self.dir = ctx.real(out)
        self.out = out
        self.on = False
        self.fired = ""
        self.opened = False
        self.count = 0
        self.atfire, self.mid, self.oexit = [], [], -1
        self.removing = False

    def within(self, x):
        if not isinstance(x, (str, bytes, os.PathLike)):
            return False
        x = os.path.abspath(os.fsdecode(x))
        return x == self.dir or x.startswith(self.dir + "/")

    def hit(self, event, args):
        if self.at == "frac":
            if not event.startswith(_FaultHook.EVENTS):
                return False
            self.count += 1
            return self.count >= self.nth
        if self.at == "mkdir":
            return event == "os.mkdir" and self.within(args[0])
        if event == "open" and self.within(args[0]) and (isinstance(args[1], str) and set(args[1]) & set("wax+")
                                                         or isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR)):
            self.opened = True
            return self.at == "open"
        if event == "os.rename" and self.within(args[1]):
            return self.at == "rename"
        if self.at == "write" and self.opened and event.startswith(("open", "os.", "shutil.")):
            self.count += 1
            return self.count > self.nth
        return False

    def __call__(self, event, args):
        if not self.on or not self.hit(event, args):
            return
        self.on = False
        self.fired = event
        self.atfire = published(self.ctx, self.out)
        self.oexit = self.other()
        self.mid = published(self.ctx, self.out)


class _FaultHook:
    """Counts audited operations performed by the program; fails the n-th."""
    EVENTS = ("open", "os.", "shutil.", "subprocess.Popen", "tempfile.")

    def __init__(self, ctx, n, kind):
        self.ctx, self.n, self.kind = ctx, n, kind
        self.count = 0
        self.on = False
        self.fired = ""
        self.log = []
        self.out = ""
        self.atfire = []
        self.removing = False

    def __call__(self, event, args):
        if not self.on:
            return
        if not event.startswith(self.EVENTS):
            return
        what = ""
        if args:
            what = os.fsdecode(args[0]) if isinstance(args[0], (str, bytes, os.PathLike)) else repr(type(args[0]))
        if event == "open":
            if not isinstance(args[0], (str, bytes)):
                return
            if not what.startswith("/") and not os.getcwd().startswith(self.ctx.root):
                return
            if what.startswith("/") and not what.startswith(self.ctx.root):
                return
        self.count += 1
        if self.kind == "count":
            mode = args[1] if event == "open" and len(args) > 1 else ""
            self.log.append(f"{event} {self.ctx.sub(what)} {mode}")
        if self.count == self.n:
            self.on = False
            fr = sys._getframe(1)
            while fr:
                if os.path.basename(fr.f_code.co_filename) in ("shutil.py", "tempfile.py") and any(
                        x in fr.f_code.co_name for x in ("rm", "cleanup", "_get_default_tempdir")):
                    self.removing = True
                fr = fr.f_back
            self.atfire = published(self.ctx, self.out)
            self.on = True
            # cleanup of temporary directories must be allowed to proceed: only one fault
            self.fired = f"{event} {self.ctx.sub(what)}"
            if self.kind == "oserror":
                raise Fault(28, "injected fault: No space left on device", what)
            if self.kind == "interrupt":
                raise KeyboardInterrupt
            if self.kind == "kill":
                os.kill(os.getpid(), 9)


_hook = None


def published(ctx, outdir):
    """Wheels (name, content) lying in a directory."""
    real = ctx.real(outdir)
    res = []
    if os.path.isdir(real):
        for f in sorted(os.listdir(real)):
            if f.endswith(".whl") and os.path.isfile(os.path.join(real, f)):
                with open(os.path.join(real, f), "rb") as fh:
                    res.append({"n": f, "sha": facts.sha256(fh.read())})
    return res


def call_main(ctx, argv, cwd, mute=False, tail=3000):
    """Run the command line entry point in this process."""
    global _logging_ready
    import auditwheel.main as m
    so, se = os.path.join(ctx.root, "stdout"), os.path.join(ctx.root, "stderr")
    sys.stdout.flush()
    sys.stderr.flush()
    save1, save2 = os.dup(1), os.dup(2)
    f1 = os.open("/dev/null" if mute else so, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    f2 = os.open("/dev/null" if mute else se, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(f1, 1)
    os.dup2(f2, 2)
    old = sys.stdout, sys.stderr
    sys.stdout = open(1, "w", closefd=False, encoding="utf-8")
    sys.stderr = open(2, "w", closefd=False, encoding="utf-8")
    for h in list(logging.root.handlers):
        logging.root.removeHandler(h)
    argv0 = sys.argv
    sys.argv = ["auditwheel", *argv]
    exc = ""
    msg = ""
    os.chdir(cwd)
    if _hook:
        _hook.on = True
    try:
        try:
            r = m.main()
            code = r if isinstance(r, int) else 0
        finally:
            if _hook:
                _hook.on = False
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        exc = "SystemExit" if code else ""
    except BaseException as e:  # noqa
        code = 1
        exc = type(e).__name__
        msg = str(e)
    end_cwd = None
    try:
        end_cwd = os.getcwd()
    except OSError:
        end_cwd = "?"
    sys.stdout.flush()
    sys.stderr.flush()
    sys.stdout, sys.stderr = old
    os.dup2(save1, 1)
    os.dup2(save2, 2)
    for f in (save1, save2, f1, f2):
        os.close(f)
    sys.argv = argv0
    out = err = ""
    if not mute:
        with open(so, errors="replace") as f:
            out = f.read()
        with open(se, errors="replace") as f:
            err = f.read()
        os.unlink(so)
        os.unlink(se)
    return {"exit": code, "exc": exc, "msg": ctx.sub(msg)[:400], "stdout": ctx.sub(out),
            "stderr": ctx.sub(err)[-tail:], "cwd": ctx.sub(end_cwd) == ctx.sub(os.path.realpath(cwd))}


def op_cli(ctx, st):
    global _hook
    before = snapshot(ctx)
    inw = []
    paths = []
    cwd = ctx.real(st.get("cwd", "/@/cwd"))
    os.makedirs(cwd, exist_ok=True)
    for p in wheel_args(ctx, st):
        paths.append(ctx.sub(p))
        if not os.path.isabs(p):
            p = os.path.join(cwd, p)
        if os.path.isfile(p) and st.get("facts", True):
            inw.append({**facts.wheel_facts(p, ctx.sub), "path": paths[-1]})
    pre = published(ctx, st.get("out", "/@/out"))
    set_env(ctx, st)
    f = st.get("fault")
    _hook = None
    if f and f["kind"] in ("oserror", "interrupt", "kill", "count"):
        cf = os.path.join(ctx.root, "faultcount")
        n = f.get("n", 0)
        if "frac" in f and os.path.exists(cf):
            with open(cf) as fh:
                n = 1 + int(f["frac"] * int(fh.read()))
        _hook = _FaultHook(ctx, n, f["kind"])
        _hook.out = st.get("out", "/@/out")
        sys.addaudithook(_hook)
    if f and f["kind"] == "pause":
        import apiops
        other = {**f["other"], "op": "exec", "cli": "repair", "facts": False}
        run = lambda: apiops.run_fresh(ctx, other).returncode  # noqa
        if f["at"] == "frac":
            with open(os.path.join(ctx.root, "faultcount")) as fh:
                f = {**f, "nth": 1 + int(f["frac"] * int(fh.read()))}
        _hook = _PauseHook(ctx, f, st.get("out", "/@/out"), run)
        sys.addaudithook(_hook)
    limit = None
    if f and f["kind"] == "fsize":
        import resource
        import signal
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        limit = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (f["n"], limit[1]))
    for k, v in st.get("patch", {}).items():
        _patch(ctx, k, v)
    obs = call_main(ctx, argv_of(ctx, st), cwd, mute=limit is not None)
    if limit:
        resource.setrlimit(resource.RLIMIT_FSIZE, limit)
    obs["x_pre"] = pre
    obs["x_post"] = published(ctx, st.get("out", "/@/out"))
    obs["x_paths"] = paths
    obs["x_atfire"] = []
    obs["x_removing"] = bool(_hook and _hook.removing)
    if _hook:
        _hook.on = False
        obs["fired"] = _hook.fired
        if f["kind"] == "pause":
            if not _hook.fired:
                # it never came by that point: one after the other
                _hook.atfire = published(ctx, _hook.out)
                _hook.oexit = _hook.other()
                _hook.mid = published(ctx, _hook.out)
                obs["x_post"] = _hook.mid
            obs["x_oexit"], obs["x_mid"] = _hook.oexit, _hook.mid
            obs["x_paused"] = bool(_hook.fired)
        else:
            obs["count"] = _hook.count
            obs["log"] = _hook.log
        obs["x_atfire"] = _hook.atfire
        if f["kind"] == "count":
            with open(os.path.join(ctx.root, "faultcount"), "w") as fh:
                fh.write(str(_hook.count))
    obs["op"] = st["op"]
    js = {}
    if st["op"] == "show" and st.get("json", True):
        try:
            js = json.loads(obs["stdout"])
        except ValueError:
            js = {"bad": True}
    obs["js"] = js
    obs["inw"] = inw
    os.chdir(ctx.root)
    return observe(ctx, st, before, obs)


def _patch(ctx, k, v):
    """Simulated host facts: the machine name, and a musl system (a C library below
    /lib that tells its version when run)."""
    if k == "machine":
        import platform
        platform.machine = lambda: v
    elif k == "musl":
        import pathlib
        a, b = v.removeprefix("musllinux_").split("_")
        exe = pathlib.Path(ctx.root) / "bin" / "libc.musl-x86_64.so.1"
        exe.write_text(f"#!/bin/sh\necho 'musl libc (x86_64)\nVersion {a}.{b}.5\nDynamic Program Loader' >&2\nexit 1\n")
        exe.chmod(0o755)
        glob = pathlib.Path.glob

        def fake(self, pattern, **kw):
            if str(self) == "/lib" and str(pattern).startswith("libc.musl-"):
                return iter([exe])
            return glob(self, pattern, **kw)
        pathlib.Path.glob = fake
    else:
        raise ValueError(k)


def op_mv(ctx, st):
    """File operations between program runs (performed by the environment)."""
    for kind, *a in st["do"]:
        a = [ctx.real(x) for x in a]
        if kind == "cp":
            for f in sorted(glob.glob(a[0])) if "*" in a[0] else [a[0]]:
                os.makedirs(os.path.dirname(a[1]), exist_ok=True)
                shutil.copy2(f, a[1])
        elif kind == "mv":
            os.rename(*a)
        elif kind == "rm":
            os.unlink(a[0])
        elif kind == "rmtree":
            shutil.rmtree(a[0])
        elif kind == "mkdir":
            os.makedirs(a[0], exist_ok=True)
        elif kind == "stale":       # older files under the names of the wheels of a[0]
            os.makedirs(a[1], exist_ok=True)
            for f in sorted(os.listdir(a[0])) if os.path.isdir(a[0]) else []:
                with open(os.path.join(a[1], f), "w") as fh:
                    fh.write("older file " + f)
        elif kind == "chmod":
            os.chmod(a[0], int(a[1], 8))
    return {"op": "env", "exit": 0, "exc": ""}


OPS = {"repair": op_cli, "show": op_cli, "lddtree": op_cli, "cli": op_cli, "env": op_mv}


def run_step(ctx, st):
    if st["op"] not in OPS:
        import apiops  # noqa  registers more operations
    if "osrel" in ctx.scn and not ctx.__dict__.get("osrel_set"):
        import apiops
        apiops.redirect("os-release", os.path.join(ctx.root, "os-release"))
        ctx.osrel_set = True
    return OPS[st["op"]](ctx, st)
