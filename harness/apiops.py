"""Operations beyond the plain command line: fresh interpreters, the packing,
patching, policy and dependency-resolution interfaces, installed launchers.
Everything they record is put under x_<field> (visible to the specification
as <field> of the step)."""
from __future__ import annotations

import hashlib
import itertools
import json
import logging
import os
import shutil
import stat
import subprocess
import sys
import zipfile
from pathlib import Path

import facts
import ops
import runner
import world

BLANK = {"exit": 0, "exc": "", "changed": [], "tmp": [], "files": [], "outw": [], "inw": [], "js": {}, "cwd": True,
         "msg": "", "stdout": "", "stderr": ""}


def blank(op, **kw):
    return {"op": op, **{k: (list(v) if isinstance(v, list) else v) for k, v in BLANK.items()}, **kw}


# ---------------------------------------------------------------- a fresh interpreter
PRELUDE = r"""
import sys, os
sys.path.insert(0, {src!r})
sys.dont_write_bytecode = True
{extra}
from auditwheel.main import main
sys.argv[0] = "auditwheel"
sys.exit(main())
"""
SHUFFLE = r"""
import random as _r
_scandir, _listdir = os.scandir, os.listdir
class _It:
    def __init__(self, it, k): self.q = list(it); it.close(); _r.Random(k).shuffle(self.q); self.i = iter(self.q)
    def __iter__(self): return self
    def __next__(self): return next(self.i)
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass
def _sd(p="."): return _It(_scandir(p), {k})
def _ld(p="."):
    q = _listdir(p); _r.Random({k}).shuffle(q); return q
os.scandir, os.listdir = _sd, _ld
"""
CLOCK = r"""
import time as _t
_tt = _t.time
_t.time = lambda: _tt() + {k}
"""


def run_fresh(ctx, st):
    """The command line of the step in a fresh interpreter."""
    cli = {**st, "op": st["cli"]}
    env = runner.base_env(ctx)
    for k, v in st.get("env", {}).items():
        if v is None:
            env.pop(k, None)
        else:
            env[k] = ctx.real(v)
    for d in ([env["TMPDIR"]] if "TMPDIR" in env else []):
        os.makedirs(d, exist_ok=True)
    cwd = ctx.real(st.get("cwd", "/@/cwd"))
    os.makedirs(cwd, exist_ok=True)
    extra = ""
    if st.get("shuffle"):
        extra += SHUFFLE.replace("{k}", str(st["shuffle"]))
    if st.get("clock"):
        extra += CLOCK.replace("{k}", str(st["clock"]))
    code = PRELUDE.replace("{src!r}", repr(runner.SRC)).replace("{extra}", extra)
    old = os.umask(st["umask"]) if "umask" in st else None
    try:
        p = subprocess.run([runner.PY, "-c", code, *ops.argv_of(ctx, cli)], cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=50)
    finally:
        if old is not None:
            os.umask(old)
    return p


def op_exec(ctx, st):
    """The program in a fresh interpreter; st["cli"] says which command."""
    before = ops.snapshot(ctx)
    cli = {**st, "op": st["cli"]}
    inw = []
    for p in ops.wheel_args(ctx, st):
        if os.path.isfile(p) and st.get("facts", True):
            inw.append(facts.wheel_facts(p, ctx.sub))
    pre = ops.published(ctx, st.get("out", "/@/out"))
    p = run_fresh(ctx, st)
    out = p.stdout.decode("utf-8", "replace")
    err = p.stderr.decode("utf-8", "replace")
    last = err.strip().splitlines()[-1] if err.strip() else ""
    exc = last.split(":")[0].split(".")[-1] if "Traceback" in err else ("SystemExit" if p.returncode else "")
    obs = {"op": st["cli"], "exit": p.returncode if p.returncode >= 0 else 128 - p.returncode, "exc": exc,
           "msg": ctx.sub(last)[:300], "stdout": ctx.sub(out), "stderr": ctx.sub(err)[-3000:], "cwd": True, "inw": inw,
           "x_osha": hashlib.sha256(p.stdout).hexdigest(), "x_pre": pre,
           "x_post": ops.published(ctx, st.get("out", "/@/out"))}
    js = {}
    if st["cli"] == "show" and st.get("json", True):
        try:
            js = json.loads(out)
        except ValueError:
            js = {"bad": True}
    obs["js"] = js
    return ops.observe(ctx, st, before, obs)


# ---------------------------------------------------------------- packing
def op_pack(ctx, st):
    """Unpack and pack: through zip2dir/dir2zip or through the wheel context."""
    from datetime import datetime, timezone
    ops.set_env(ctx, st)
    logging.disable(logging.CRITICAL)
    src = Path(ctx.real(st["wheels"][0]))
    out = Path(ctx.real(st.get("out", "/@/out"))) / src.name
    inw = [facts.wheel_facts(str(src), ctx.sub)]
    before = ops.snapshot(ctx)
    obs = blank("pack")
    obs["inw"] = inw
    obs["x_via"], obs["x_date"] = st["via"], -2 if st.get("date", -1) is None else st.get("date", -1)
    obs["x_tree"] = []
    os.chdir(ctx.real("/@/cwd"))
    try:
        if st["via"] == "zip":
            from auditwheel.tools import dir2zip, zip2dir
            d = Path(ctx.root) / "tmp" / "u"
            d.mkdir()
            zip2dir(src, d)
            t = st.get("date", -1)
            obs["x_tree"] = [{"p": e["p"].lstrip("/"), "mode": e.get("mode", 0)} for e in facts.tree_facts(str(d), lambda s: s.replace(str(d), ""), elf=False)
                             if e["t"] == "file"]
            dir2zip(d, out, st.get("zlevel", -1), None if t is None else datetime.fromtimestamp(t, tz=timezone.utc))
            shutil.rmtree(d)
        else:
            from auditwheel.wheeltools import InWheelCtx
            with InWheelCtx(src, out) as c:
                if "zlevel" in st:
                    c.zip_compression_level = st["zlevel"]
    except Exception as e:  # noqa
        obs["exit"], obs["exc"], obs["msg"] = 1, type(e).__name__, str(e)[:300]
    obs["cwd"] = os.getcwd() == ctx.real("/@/cwd")
    return ops.observe(ctx, st, before, obs)


# ---------------------------------------------------------------- installed launchers
RUN = r"""
import sys, sysconfig, runpy
root = sys.argv[1]; launcher = sys.argv[2]
sysconfig.get_path = lambda name, *a, **k: root + "/" + name
sysconfig.get_paths = lambda *a, **k: {n: root + "/" + n for n in ("platlib", "purelib", "scripts", "data", "stdlib")}
sys.argv = [launcher] + sys.argv[3:]
runpy.run_path(launcher, run_name="__main__")
"""
RECORDER = """#!/bin/sh
printf '%s\\n' "$0" "$#" "$@" > '{log}'
exit {code}
"""


def op_runshim(ctx, st):
    """Installs the wheels of an output directory and runs their launchers."""
    obs = blank("runshim")
    outs = ops.out_wheels(ctx, st.get("out", "/@/out"))
    env = runner.base_env(ctx)
    for w in outs:
        if not w["ok"]:
            continue
        inst = os.path.join(ctx.root, "inst")
        plat = os.path.join(inst, "platlib")
        os.makedirs(plat)
        with zipfile.ZipFile(os.path.join(ctx.real(st.get("out", "/@/out")), w["fname"])) as z:
            z.extractall(plat)
        os.makedirs(os.path.join(inst, "bin"))
        for e in w["ents"]:
            c = e["n"].split("/")
            if e["dir"] or e["elf"] or len(c) != 3 or not c[0].endswith(".data") or c[1] != "scripts":
                continue
            if not any(x["elf"] and x["n"].split("/")[-1] == c[2] and x["n"].split("/")[0].endswith(".scripts") for x in w["ents"]):
                continue          # a plain script
            rec = {"n": e["n"], "ran": "", "args": False, "status": False, "hashbang": False}
            src = os.path.join(plat, e["n"])
            with open(src, encoding="utf-8", errors="replace") as f:
                text = f.read()
            rec["hashbang"] = text.startswith("#!python")
            launcher = os.path.join(inst, "bin", c[2])
            shutil.copy(src, launcher)
            # every ELF file of the wheel records that it was run
            log = os.path.join(inst, "log")
            code = 17 + len(w["shims"])
            for x in w["ents"]:
                if x["elf"] and "/scripts/" not in x["n"]:
                    p = os.path.join(plat, x["n"])
                    with open(p, "w") as f:
                        f.write(RECORDER.format(log=log, code=code))
                    os.chmod(p, 0o755)
            args = ["a b", "", "--x=1", "é*"]
            r = subprocess.run([runner.PY, "-c", RUN, inst, launcher, *args], env=env, cwd=ctx.root, stdin=subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=30)
            if os.path.exists(log):
                with open(log, encoding="utf-8") as f:
                    got = f.read().split("\n")[:-1]
                rec["ran"] = os.path.relpath(got[0], plat)
                rec["args"] = got[1:] == [str(len(args)), *args]
                os.unlink(log)
            rec["status"] = r.returncode == code
            w["shims"].append(rec)
        shutil.rmtree(inst)
    obs["outw"] = outs
    return obs


# ---------------------------------------------------------------- the patcher
def op_patcher(ctx, st):
    """A sequence of requests to one ElfPatcher; st["files"]: name -> elf, st["links"]: [(name, target)]."""
    from auditwheel.patcher import ElfPatcher
    ops.set_env(ctx, st)
    obs = blank("patcher")
    d = os.path.join(ctx.root, "out", "p")
    os.makedirs(d)
    os.chdir(d)
    for f in st["files"]:
        os.makedirs(os.path.dirname(os.path.join(d, f["n"])) or d, exist_ok=True)
        with open(f["n"], "wb") as fh:
            fh.write(world.elf_bytes(f["elf"], ctx.real))
        os.chmod(f["n"], 0o755)
    for a, b in st.get("links", []):
        os.makedirs(os.path.dirname(os.path.join(d, a)) or d, exist_ok=True)
        os.symlink(b, a)

    def snap():
        res = []
        for f in facts.tree_facts(d, lambda s: s.replace(d + "/", "")):
            if f["t"] == "elf":
                e = f["e"]
                res.append({"n": f["p"], "id": e["id"], "soname": e["soname"], "needed": e["needed"], "rpath": e["rpath"],
                            "runpath": e["runpath"], "sha": f["sha"]})
        return res

    pt = ElfPatcher.get_patcher(st.get("patcher", "patchelf"), st.get("platform", "manylinux_2_28_x86_64"))
    log = []
    first = snap()
    for q in st["seq"]:
        rec = {"k": q["k"], "f": q.get("f", ""), "a": q.get("a", []), "err": "", "ret": "", "files": []}
        try:
            p = Path(q["f"]) if q.get("abs") is None else Path(d) / q["f"]
            match q["k"]:
                case "soname": pt.set_soname(p, q["a"][0])
                case "replace": pt.replace_needed(p, *[tuple(x) for x in q["a"]])
                case "remove": pt.remove_needed(p, *q["a"])
                case "rpath": pt.set_rpath(p, q["a"][0])
                case "clear": pt.clear_rpath(p)
                case "get": rec["ret"] = pt.get_rpath(p)
                case "move":
                    new = Path(q["a"][0])
                    new.parent.mkdir(exist_ok=True)
                    shutil.copy(p, str(new) + ".tmp")        # keep the old name resolvable until told
                    os.rename(str(new) + ".tmp", new)
                    pt.update_elf_path(p, new)
                    os.unlink(p)
                case "apply": pt.apply_updates()
        except Exception as e:  # noqa
            rec["err"] = type(e).__name__
        if q["k"] in ("apply", "move"):
            rec["files"] = snap()
        rec["a"] = [list(x) if isinstance(x, (list, tuple)) else [x] for x in rec["a"]]
        log.append(rec)
    os.chdir(ctx.root)
    obs["x_first"] = first
    obs["x_log"] = log
    obs["x_links"] = [{"n": a, "to": os.path.normpath(os.path.join(os.path.dirname(a), b))} for a, b in st.get("links", [])]
    return obs


# ---------------------------------------------------------------- policies
def op_policies(ctx, st):
    """Loads the policy tables (possibly altered ones) and queries them."""
    import auditwheel.policy as P
    from auditwheel.architecture import Architecture
    from auditwheel.libc import Libc
    ops.set_env(ctx, st)
    logging.disable(logging.CRITICAL)
    obs = blank("policies")
    libc = Libc[st["libc"].upper()]
    if "alter" in st:
        name = {"glibc": "manylinux", "musl": "musllinux", "android": "android"}[st["libc"]] + "-policy.json"
        with open(os.path.join(os.path.dirname(P.__file__), name)) as fh:
            tab = json.load(fh)
        for a in st["alter"]:
            apply_alter(tab, a)
        f = os.path.join(ctx.root, name)
        with open(f, "w") as fh:
            json.dump(tab, fh)
        redirect(name, f)
    kw = {}
    if st.get("musl"):
        kw["musl_policy"] = st["musl"]
    if st.get("wheel"):
        kw["wheel_fn"] = Path("/x") / st["wheel"]
    pols, err = [], ""
    queries = []
    try:
        wp = P.WheelPolicies(libc=libc, arch=Architecture(st["arch"]), **kw)
        for p in [] if "alter" in st else wp:
            pols.append({"name": p.name, "aliases": list(p.aliases), "prio": p.priority,
                         "sym": [{"k": k, "v": sorted(v)} for k, v in sorted(p.symbol_versions.items())],
                         "wl": sorted(p.whitelist), "bl": [{"k": k, "v": sorted(v)} for k, v in sorted(p.blacklist.items())]})
        for q in st.get("queries", []):
            r = {"k": q["k"], "a": q["a"], "ret": "", "err": ""}
            try:
                if q["k"] == "name":
                    r["ret"] = wp.get_policy_by_name(q["a"][0]).name
                else:
                    req: dict = {}
                    for l, v in q["a"]:
                        req.setdefault(l, set()).add(v)
                    r["ret"] = wp.versioned_symbols_policy(req).name
            except Exception as e:  # noqa
                r["err"] = type(e).__name__
            queries.append(r)
        for attr in ("highest", "lowest", "linux"):
            queries.append({"k": attr, "a": [], "ret": getattr(wp, attr).name, "err": ""})
    except Exception as e:  # noqa
        err = type(e).__name__
    obs["x_pols"], obs["x_err"], obs["x_queries"] = pols, err, queries
    obs["x_libc"], obs["x_arch"], obs["x_altered"] = st["libc"], st["arch"], "alter" in st
    obs["x_musl"], obs["x_wheel"] = st.get("musl", ""), st.get("wheel", "")
    obs["x_alter"] = [alter_rec(a) for a in st.get("alter", [])]
    return obs


def redirect(name, path):
    """Whoever opens a file of that name gets the other one."""
    import builtins
    import io
    real = io.open

    def fake(file, *a, **kw):
        if isinstance(file, (str, os.PathLike)) and os.path.basename(os.fspath(file)) == name:
            file = path
        return real(file, *a, **kw)
    io.open = builtins.open = fake


def alter_rec(a):
    return {"k": a["k"], "pol": a["pol"], "arch": a.get("arch", ""), "sym": a.get("sym", ""), "v": str(a.get("v", ""))}


def apply_alter(tab, a):
    row = next(r for r in tab if r["name"] == a["pol"])
    if a["k"] == "addsym":
        row["symbol_versions"][a["arch"]].setdefault(a["sym"], []).append(a["v"])
    elif a["k"] == "delsym":
        q = row["symbol_versions"][a["arch"]].get(a["sym"], [])
        if a["v"] in q:
            q.remove(a["v"])
    elif a["k"] == "addlib":
        row["lib_whitelist"].append(a["v"])
    elif a["k"] == "dellib":
        if a["v"] in row["lib_whitelist"]:
            row["lib_whitelist"].remove(a["v"])
    elif a["k"] == "delarch":
        row["symbol_versions"].pop(a["arch"], None)
    elif a["k"] == "delsymall":
        row["symbol_versions"][a["arch"]].pop(a["sym"], None)


# ---------------------------------------------------------------- dependency resolution
def op_ldd(ctx, st):
    """The dependency tree of every ELF file named in st["objs"]."""
    from auditwheel import lddtree
    from auditwheel.libc import Libc
    ops.set_env(ctx, st)
    obs = blank("ldd")
    if "shuffle" in st:
        exec(SHUFFLE.replace("{k}", str(st["shuffle"])), {"os": os})
    cwd = ctx.real(st.get("cwd", "/@/sys"))
    os.makedirs(cwd, exist_ok=True)
    os.chdir(cwd)
    trees = []

    def plat(p):
        """The architecture and the instruction set a file is for, as 'arch/level'; the report of the command is not read."""
        if p is None or isinstance(p, dict):
            return "?"
        try:
            return p.baseline_architecture.value + "/" + (p.extended_architecture.value if p.extended_architecture else "")
        except ValueError:
            return ""

    def add(rec, get):
        rec["plat"] = plat(get("platform"))
        rec["needed"] = list(get("needed"))
        rec["libs"] = [{"s": s, "key": v["soname"], "path": ctx.sub(str(v["path"] or "")),
                        "real": ctx.sub(str(v["realpath"] or "")), "needed": list(v["needed"]),
                        "plat": plat(v["platform"])} for s, v in get("libraries").items()]
        rec["interp"] = ctx.sub(get("interpreter") or "")
        libc = get("libc")
        rec["libc"] = "" if libc is None else next(x.name.lower() for x in Libc if x.name in str(libc))

    for i, o in enumerate(st["objs"]):
        rec = {"p": o, "err": "", "needed": [], "libs": [], "interp": "", "libc": "", "plat": ""}
        shown = ctx.real(o)
        if st.get("rel"):
            shown = os.path.relpath(shown, os.path.realpath(cwd))
        if st.get("cli"):
            argv = ["lddtree"] + (["--ldpaths", ctx.real(st["ldpaths"])] if st.get("ldpaths") is not None else []) + [shown]
            r = ops.call_main(ctx, argv, cwd, tail=10 ** 6)
            t = r["stdout"] if r["stdout"].strip() else r["stderr"]
            if r["exit"] or r["exc"]:
                rec["err"] = r["exc"] or f"exit {r['exit']}"
            else:
                try:
                    doc = json.loads(t[t.index("{"):])
                    add(rec, doc.__getitem__)
                except (ValueError, KeyError, StopIteration) as e:
                    rec["err"] = f"report: {type(e).__name__} {e}"[:100]
            trees.append(rec)
            continue
        logging.disable(logging.CRITICAL)
        try:
            kw = {}
            if st.get("etc"):
                # configuration files below a scratch root
                root = ctx.real("/@/sys/root/")
                kw["ldpaths"] = {k: list(v) for k, v in lddtree.load_ld_paths(Libc[st["etc"].upper()], root).items()}
            elif st.get("ldpaths") is not None:
                kw["ldpaths"] = {k: list(v) for k, v in lddtree.ld_paths_from_arg(ctx.real(st["ldpaths"])).items()}
            t = lddtree.ldd(Path(shown), exclude=frozenset(ctx.real(x) for x in st.get("exclude", [])), **kw)
            d = {"needed": t.needed, "platform": t.platform, "interpreter": t.interpreter, "libc": t.libc and t.libc.name,
                 "libraries": {s: {"soname": v.soname, "path": v.path, "realpath": v.realpath, "needed": v.needed, "platform": v.platform}
                               for s, v in t.libraries.items()}}
            add(rec, d.__getitem__)
        except Exception as e:  # noqa
            rec["err"] = type(e).__name__
        trees.append(rec)
    os.chdir(ctx.root)
    obs["x_trees"] = trees
    obs["x_cwdir"] = st.get("cwd", "/@/sys")
    obs["x_conf"] = st.get("conf", [])
    obs["x_etc"] = st.get("etc", "")
    return obs


def levels_of(path):
    """Compression levels that give what every deflated entry of a wheel occupies."""
    import zlib
    out = []
    with zipfile.ZipFile(path) as z:
        for zi in z.infolist():
            if zi.is_dir():
                continue
            data = z.read(zi)
            ok = []
            for k in range(10):
                c = zlib.compressobj(k, zlib.DEFLATED, -15)
                if zi.compress_type == zipfile.ZIP_DEFLATED and len(c.compress(data) + c.flush()) == zi.compress_size:
                    ok.append(k)
            out.append({"n": zi.filename, "v": ok})
    return out


FLAG = {"plat": ("", "--plat"), "z": ("-z", "--zip-compression-level"), "patcher": ("", "--patcher"),
        "L": ("-L", "--lib-sdir"), "w": ("-w", "--wheel-dir")}
ENVN = {"plat": "AUDITWHEEL_PLAT", "z": "AUDITWHEEL_ZIP_COMPRESSION_LEVEL", "patcher": "AUDITWHEEL_PATCHER"}


def op_config(ctx, st):
    """A repair whose options come from the command line and the environment."""
    toks = []
    cfg = {}
    env = dict(st.get("env", {}))
    for o in FLAG:
        c = st["cfg"].get(o, {})
        cfg[o] = {"cli": [x["v"] for x in c.get("cli", [])], "env": {"set": c.get("env") is not None, "v": c.get("env") or ""}}
        if c.get("env") is not None:
            env[ENVN[o]] = c["env"]
        for x in c.get("cli", []):
            short, long = FLAG[o]
            v = ctx.real(x["v"])
            f = x.get("f", "long")
            if v[:1] == "-" and not v[1:].isdigit():
                f = "eq"    # would be taken for an option
            if f == "eq":
                toks.append([f"{long}={v}"])
            elif f == "short" and short:
                toks.append([short, v])
            elif f == "glued" and short and v:
                toks.append([short + v])
            elif f == "abbr":
                toks.append([long[:{"plat": 5, "z": 6, "patcher": 7, "L": 7, "w": 9}[o]], v])
            else:
                toks.append([long, v])
    base = ops.argv_of(ctx, {**st, "op": "repair", "no_w": True})
    # options before or after the wheel
    k = st.get("after", 0)
    argv = [base[0]] + [t for q in toks[:k] for t in q] + base[1:] + [t for q in toks[k:] for t in q]
    obs = ops.op_cli(ctx, {**st, "op": "repair", "argv": argv, "env": env})
    found = []
    for d, _, fn in sorted(os.walk(ctx.root)):
        if d.startswith(os.path.join(ctx.root, "in")) or d.startswith(os.path.join(ctx.root, "tmp")):
            continue
        for f in sorted(fn):
            p = os.path.join(d, f)
            if f.endswith(".whl"):
                found.append({"dir": ctx.sub(d), "w": facts.wheel_facts(p, ctx.sub), "lv": levels_of(p)})
                os.unlink(p)     # a later step starts afresh
    obs["op"] = "config"
    obs["outw"] = []
    obs["x_found"] = found
    obs["x_cfg"] = cfg
    obs["x_cwdir"] = st.get("cwd", "/@/cwd")
    return obs


ops.OPS.update(config=op_config, exec=op_exec, pack=op_pack, runshim=op_runshim, patcher=op_patcher, policies=op_policies, ldd=op_ldd)
