"""More world generators: archives, scripts, packages, wheels without binaries, sessions, faults."""
from __future__ import annotations

import random
import re
from urllib.parse import quote

import gen
from gen import LDP, S, World, vn
from world import elf


def distro():
    try:
        with open("/etc/os-release") as f:
            for ln in f:
                m = re.match(r'^ID=(?:"([^"]*)"|(.*))$', ln.strip())
                if m:
                    return m.group(1) or m.group(2)
    except OSError:
        pass
    return ""


# ---------------------------------------------------------------- C16
NAMES = ["a", "a.b", "a-b", "a_b", "A", "B", "Z", "b", "pkg", "pkg2", "pkg.d", "0", "data", "RECORD", "zz", "x y", "~t", "+p", "WHEEL"]


def archive_members(r, di, uni=False):
    names = set()
    mem = []
    for _ in range(r.randint(2, 14)):
        depth = r.choice([0, 0, 1, 1, 1, 2, 3])
        pool = NAMES + (["é", "漢字", "ñ.b", "Ω"] if uni else [])
        comps = [r.choice(pool) for _ in range(depth)]
        if r.random() < 0.12:
            comps = [r.choice([di, "other.dist-info" if False else "pkg", "pkg/sub.dist-info", "pkg/x.dist-info"])] + comps[:1]
        leaf = r.choice(pool) + r.choice(["", ".py", ".txt", ".bin", ".so.py", ".json"])
        p = "/".join(comps + [leaf])
        if p in names or any(q.startswith(p + "/") or p.startswith(q + "/") for q in names):
            continue
        if p in (f"{di}/RECORD", f"{di}/WHEEL", f"{di}/METADATA") or p.startswith((f"{di}/RECORD/", f"{di}/WHEEL/")):
            continue
        if any(c.endswith(".dist-info") for c in p.split("/")[:1]) and p.split("/")[0] != di:
            continue
        names.add(p)
        mode = r.choice([0o644, 0o644, 0o755, 0o600, 0o444, 0o555, 0o000, 0o777, 0o711, 0o4755, 0o200, -1])
        if r.random() < 0.15:
            mem.append({"p": p, "t": "hex", "data": "%02x" % r.randrange(256) * r.choice([0, 1, 7, 5000]), "mode": mode})
        else:
            mem.append({"p": p, "data": r.choice(["", "x", "line\r\n" * 3, "data " * 700, "é漢" * 10]), "mode": mode})
    for _ in range(r.choice([0, 0, 1, 2])):
        p = "/".join(r.choice(["empty", "E", "pkg", "a", "none.d"]) for _ in range(r.randint(1, 2)))
        if p not in names and not any(p.startswith(q + "/") for q in names):
            mem.append({"p": p, "t": "dirent", "mode": r.choice([0o755, 0o700, 0o555, 0o000])})
            names.add(p + "/.")
    return mem


def sde(r):
    return r.choice(["0", "315532799", "315532800", "1", "1600000000", "1700000001", "2000000000", "951782399", "1709164799", "1709210096", ""])


def pack_world(rng, id_):
    r = rng
    di = "pkg-1.0.dist-info"
    uni = r.random() < 0.2
    wh = {"fname": "pkg-1.0-py3-none-any.whl", "members": archive_members(r, di, uni),
          "order": r.choice(["asis", "reversed", "recordfirst"]), "dirs": r.random() < 0.4, "stored": r.random() < 0.2,
          "wheel_mode": r.choice([0o644, 0o444, 0o755])}
    if r.random() < 0.3:
        wh["record_skip"] = [m["p"] for m in wh["members"] if r.random() < 0.3]
    if r.random() < 0.15:
        wh["members"].append({"p": f"{di}/RECORD.{r.choice(['jws', 'p7s'])}", "data": "sig"})
    st = {"op": "pack", "via": r.choice(["zip", "zip", "ctx"]), "wheels": [f"/@/in/{wh['fname']}"]}
    if r.random() < 0.7:
        st["zlevel"] = r.choice([0, 1, 2, 6, 9, -1])
    if st["via"] == "zip":
        st["date"] = r.choice([None, 0, 315532799, 315532800, 1, 86399, 951782400, 1709210097, 2147483000, 1600000001])
    else:
        st["env"] = {"SOURCE_DATE_EPOCH": sde(r)}
    steps = [st]
    if r.random() < 0.4:
        steps.append({"op": "env", "do": [["cp", f"/@/out/{wh['fname']}", f"/@/in2/{wh['fname']}"]], "proc": 1})
        st2 = dict(st, wheels=[f"/@/in2/{wh['fname']}"], out="/@/out2", proc=2, tag="again")
        if r.random() < 0.5:
            st2["via"] = "zip"
            st2.setdefault("date", 315532800)
        steps.append({"op": "env", "do": [["mkdir", "/@/out2"]], "proc": 1})
        steps.append(st2)
    return {"id": id_, "fs": [], "wheels": [wh], "steps": steps, "kind": "pack"}


def archive_repair_world(rng, id_):
    r = rng
    s = gen.repair_world(r, id_, nlibs=(1, 2), exts=(1, 1), nonpy=(0, 1), bad=0, black=0, isa=0, missing=0, ver=0.1, scripts=0.1)
    w = s["wheels"][0]
    di = "-".join(w["fname"].split("-")[:2]) + ".dist-info"
    have = {m["p"] for m in w["members"]}
    for m in archive_members(r, di):
        if m["p"] not in have and not any(h.startswith(m["p"] + "/") or m["p"].startswith(h + "/") for h in have) \
                and not m["p"].startswith(("pkg/", "pkg.", "pkg2/RECORD")):
            w["members"].append(m)
            have.add(m["p"])
    w["order"] = r.choice(["asis", "reversed", "recordfirst"])
    w["dirs"] = r.random() < 0.4
    w["stored"] = r.random() < 0.3
    st = s["steps"][0]
    st.setdefault("env", {})["SOURCE_DATE_EPOCH"] = sde(r)
    if r.random() < 0.6:
        st["zlevel"] = r.choice([0, 1, 6, 9])
    return s


# ---------------------------------------------------------------- C19
SCRIPTS = ["tool", "run-it", "it's", 'say"hi"', "two words", "ünï", "back\\slash", "100%", "{x}", "$HOME", "#c", "a.b.c", "-x", "lib.so", "t\\n", "\\u0041"]


def script_world(rng, id_):
    r = rng
    w = World(r, nlibs=(0, 3), exts=(0, 2), nonpy=(0, 1), scripts=1.0, tool=0.3, interp=0.3, bad=0, black=0, isa=0, missing=0, libpy=0.12, ver=0.2)
    w.make_libs()
    wh = w.make_wheel()
    ren = {}
    names = r.sample(SCRIPTS, 4)
    for m in wh["members"]:
        c = m["p"].split("/")
        if len(c) == 3 and c[1] == "scripts" and m.get("t") == "elf":
            k = r.random()
            if k < 0.62:
                p = "/".join(c[:2] + [names.pop()])
            elif k < 0.72:
                p = "/".join([c[0], "scripts", "sub", c[2]])
            elif k < 0.78:
                p = "/".join([c[0], "data", "bin", c[2]])
            elif k < 0.84:
                p = "/".join(["pkg", "scripts", c[2]])
            elif k < 0.88:
                p = "/".join(["data", "scripts", c[2]])
            else:
                p = m["p"]
            m["p"] = p
            m["mode"] = r.choice([0o755, 0o755, 0o700, 0o775, 0o711, 0o644, 0o555])
    have = set()
    for m in wh["members"]:
        while m["p"] in have:
            m["p"] += "_"
        have.add(m["p"])
    if r.random() < 0.12:
        # another data directory
        for m in wh["members"]:
            if ".data/scripts/" in m["p"] and r.random() < 0.5:
                m["p"] = "other.data/scripts/" + m["p"].split("/")[-1] + "2"
    st = w.options({"op": "repair", "wheels": [f"/@/in/{wh['fname']}"]})
    st.pop("strip", None)
    if r.random() < 0.6:
        st["plat"] = "auto"
    return {"id": id_, "fs": w.fs, "wheels": [wh], "kind": "shims",
            "steps": [st, {"op": "runshim", "wheels": [], "proc": 1, "tag": "run"}]}


# ---------------------------------------------------------------- C24
PKGN = ["libfoo1", "libstdc++6", "lib-bar-dev", "g++-12", "zlib", "x.y", "libc6", "xz-libs", "a-1-b"]
PKGV = ["1.0", "1:2.3-4", "2.35-0ubuntu3.4", "1.0~rc1+dfsg-1", "0", "5.4.5-r0", "3"]
FAKE_RPM = """#!/bin/sh
T={root}/pkg.tab
case "$1" in
--version) exit 0;;
-qf) for a in "$@"; do f="$a"; done
   L=$(grep -F "$f|" "$T" | head -1); [ -n "$L" ] || { echo "file $f is not owned by any package"; exit 1; }
   printf '%s' "$(echo "$L" | cut -d'|' -f2) $(echo "$L" | cut -d'|' -f3) $(echo "$L" | cut -d'|' -f4) x86_64";  exit 0;;
esac
exit 1
"""
FAKE_APK = """#!/bin/sh
T={root}/pkg.tab
case "$1" in
--version) exit 0;;
info) for a in "$@"; do f="$a"; done
   L=$(grep -F "$f|" "$T" | head -1); [ -n "$L" ] || { echo "ERROR: $f: Could not find owner package" >&2; exit 1; }
   echo "$f is owned by $(echo "$L" | cut -d'|' -f2)-$(echo "$L" | cut -d'|' -f3)-$(echo "$L" | cut -d'|' -f4)"; exit 0;;
esac
exit 1
"""
FAKE_APT = """#!/bin/sh
T={root}/pkg.tab
case "$1" in
--version) exit 0;;
show) L=$(grep -F "|$2|" "$T" | head -1); [ -n "$L" ] || exit 100
   echo "Package: $2"; echo "Version: $(echo "$L" | cut -d'|' -f3)"; echo "Priority: optional"; exit 0;;
esac
exit 1
"""
# file names matching the patterns anywhere, as the real one does
FAKE_APTFILE = """#!/bin/sh
T={root}/pkg.tab
case "$1" in
--version) exit 2;;
search) echo "Finding relevant cache files to search ..." >&2
   sort | while read -r p; do grep -F "$p" "$T" | while IFS='|' read -r f n v; do echo "$n: $f"; done; done; exit 0;;
esac
exit 1
"""


def package_world(rng, id_, **prof):
    r = rng
    p = dict(nlibs=(1, 5), bad=0, black=0, isa=0, missing=0, dup=0.3, ver=0.1)
    p.update(prof)
    s = gen.dup_world(r, id_, **prof) if r.random() < 0.25 else gen.repair_world(r, id_, **p)
    st = s["steps"][0]
    if r.random() < 0.6:
        st["plat"] = "auto"
    add_packages(r, s)
    return s


def release(r, s):
    """The distribution's name, as its os-release file tells it."""
    if r.random() < 0.4:
        return distro()
    d = r.choice(["debian", "rhel", "alpine", "opensuse-leap", "x_1.2", "ubuntu", "Weird Name", "a/b", ""])
    q = '"' if " " in d or r.random() < 0.5 else ""
    lines = [f"ID={q}{d}{q}", 'ID_LIKE="rhel centos fedora"', "VERSION_ID=40", "VARIANT_ID=server", "NAME=\"Some ID=other\"", "# ID=no", ""]
    if not d and r.random() < 0.5:
        lines = lines[1:]
    r.shuffle(lines)
    s["osrel"] = "\n".join(lines) + ("\n" if r.random() < 0.8 else "")
    return d


def add_packages(r, s, kind=None):
    kind = kind or r.choice(["dpkg", "dpkg", "rpm", "apk", "apt-file", "none", "mixed"])
    d = release(r, s)
    files = [f["p"] for f in s["fs"] if f["t"] == "elf" and f["p"].split("/")[3] != "libc"]
    tab = []
    pkgs = {}
    for i in range(3):
        pkgs[r.choice(PKGN) + ("" if i == 0 else str(i))] = r.choice(PKGV)
    if kind == "apk":
        pkgs = {k: v.replace(":", "").replace("~", "_").split("-")[0] for k, v in pkgs.items()}
    if kind == "rpm":
        pkgs = {k: v.replace(":", "").split("-")[0] for k, v in pkgs.items()}
    own = {}
    few = r.random() < 0.25          # everything from one package
    for f in files:
        if r.random() < (0.9 if few else 0.6):
            own[f] = list(pkgs)[0] if few else r.choice(list(pkgs))
    rel = r.choice(["1.el9", "4.fc40"]) if kind == "rpm" else f"r{r.randint(0, 12)}"
    if kind == "mixed" and not d:
        kind = "none"
    if not d or kind == "none":
        s["pkgs"] = []
        if kind != "none":
            s["packages"] = [(f, n, pkgs[n]) for f, n in own.items()]
        return s
    if kind in ("dpkg", "mixed"):
        # the way dpkg names packages that may be installed for several architectures
        s["multiarch"] = [n for n in pkgs if r.random() < 0.4]
    if kind == "dpkg":
        s["packages"] = [(f, n, pkgs[n]) for f, n in own.items()] or [("/@/sys/none", "none", "1")]
        full = {n: v for n, v in pkgs.items()}
        typ = {f: "deb" for f in own}
    elif kind == "mixed":
        # dpkg knows some, apt-file the others
        fs = sorted(own)
        deb = {f for f in fs if r.random() < 0.5}
        s["packages"] = [(f, own[f], pkgs[own[f]]) for f in fs if f in deb] or [("/@/sys/none", "none", "1")]
        s["bins"] = {"apt": FAKE_APT, "apt-file": FAKE_APTFILE}
        s["pkgtab"] = [[f, own[f], pkgs[own[f]]] for f in fs if f not in deb]
        full, typ = dict(pkgs), {f: "deb" for f in own}
    elif kind == "apt-file":
        s["bins"] = {"apt": FAKE_APT, "apt-file": FAKE_APTFILE}
        s["pkgtab"] = [[f, own[f], pkgs[own[f]]] for f in sorted(own)]
        # other files whose names contain these
        if r.random() < 0.5:
            s["pkgtab"] += [[f + ".debug", "dbg-" + own[f], "1"] for f in sorted(own)]
        full, typ = dict(pkgs), {f: "deb" for f in own}
    else:
        s["bins"] = {kind: FAKE_RPM if kind == "rpm" else FAKE_APK}
        s["pkgtab"] = [[f, own[f], pkgs[own[f]], rel] for f in sorted(own)]
        full = {n: f"{v}-{rel}" for n, v in pkgs.items()}
        typ = {f: kind for f in own}
    q = lambda x: quote(x, safe="")  # noqa
    s["pkgs"] = [(f, n, full[n], f"pkg:{typ[f]}/{q(d)}/{q(n)}@{q(full[n])}") for f, n in own.items()]
    return s


# ---------------------------------------------------------------- C07
TOOL = """#!/bin/sh
C={root}/calls.$FAILTAG
[ -n "$FAILTOOL" ] && C=$C.$(basename TOOLPATH)
n=$(cat "$C" 2>/dev/null || echo 0); n=$((n+1)); [ -n "$FAILTAG" ] && echo $n > "$C"
if [ "$n" = "$FAILAT" ] && [ "${FAILTOOL:-TOOLPATH}" = TOOLPATH ]; then
  for f in "$@"; do :; done
  case "$FAILMODE" in
    trunc) [ "$1" = --version ] || [ "$1" = --print-rpath ] || : > "$f"; exit 1;;
    kill) kill -9 $$;;
    *) exit 1;;
  esac
fi
exec TOOLPATH "$@"
"""


def fault_world(rng, id_, nfaults=9, spread=None):
    r = rng
    if r.random() < 0.85:
        s = gen.repair_world(r, id_, bad=0, black=0, isa=0, missing=0.01, nolibc=0, ver=0.15, dup=0.05, nlibs=(1, 4), scripts=0.25)
    else:
        s = gen.repair_world(r, id_)
    base = s["steps"][0]
    base["facts"] = False
    if base.get("env", {}).get("SOURCE_DATE_EPOCH") == "":
        base["env"] = dict(base["env"], SOURCE_DATE_EPOCH="1500000000")
    if r.random() < 0.6:
        base["plat"] = "auto"
    s["bins"] = {"patchelf": TOOL.replace("TOOLPATH", "/opt/venv/bin/patchelf"), "strip": TOOL.replace("TOOLPATH", "/usr/bin/strip")}
    steps = [{**base, "out": "/@/ref", "proc": 1, "tag": "ref", "fault": {"kind": "count", "n": 0}}]
    pc = 2
    for k in range(nfaults):
        out = f"/@/out/f{k}"
        if r.random() < 0.4:
            steps.append({"op": "env", "do": [["stale", "/@/ref", out]], "proc": pc})
            pc += 1
        st = {**base, "out": out, "proc": pc, "tag": "fault", "env": dict(base.get("env", {}))}
        pc += 1
        x = r.random()
        if spread is not None:
            st["fault"] = {"kind": spread[k % len(spread)][0], "frac": spread[k % len(spread)][1]}
        elif x < 0.5:
            # the later half (patching, tagging, packing) more often
            st["fault"] = {"kind": "oserror", "frac": r.choice([r.random(), 0.5 + r.random() / 2, 0.8 + r.random() / 5])}
        elif x < 0.62:
            st["fault"] = {"kind": "interrupt", "frac": r.choice([r.random(), 0.7 + 0.3 * r.random()])}
        elif x < 0.72:
            st["fault"] = {"kind": "kill", "frac": r.choice([r.random(), 0.7 + 0.3 * r.random()])}
        elif x < 0.84:
            st["fault"] = {"kind": "fsize", "n": r.choice([0, 100, 500, 1000, 2000, 4000, 4096, 6000, 9000, 12000, 16384, 20000])}
        else:
            st["fault"] = {"kind": "tool", "n": 0}
            st["env"].update(FAILAT=str(r.randint(1, 9)), FAILTAG=f"t{k}", FAILMODE=r.choice(["exit", "trunc", "kill"]))
        steps.append(st)
    s["steps"] = steps
    s["kind"] = "fault"
    return s


def fault_sweep(rng, id_):
    """Every operation of one repair in turn (a slice of them per scenario)."""
    r = rng
    kinds = ["oserror", "oserror", "interrupt", "kill"]
    n = 24
    off = r.random()
    return fault_world(rng, id_, n, [(kinds[k % 4], ((k + off) / n) % 1.0) for k in range(n)])


def tool_sweep(rng, id_):
    """Every run of one external tool in turn fails."""
    r = rng
    s = fault_world(r, id_, 10)
    strip = r.random() < 0.6
    tool, top = ("/usr/bin/strip", 5) if strip else ("/opt/venv/bin/patchelf", 10)
    k = 0
    for st in s["steps"]:
        if st["op"] != "repair":
            continue
        if strip:
            st["strip"] = True
        if st.get("tag") == "fault":
            st["fault"] = {"kind": "tool", "n": 0}
            st["env"].update(FAILAT=str(k % top + 1), FAILTAG=f"t{k}", FAILTOOL=tool, FAILMODE=r.choice(["exit", "exit", "trunc", "kill"]))
            k += 1
    return s


def batch(id_, r, fs, wheels, opts, paths, out, nfaults, scripts=()):
    """A command over several wheels: every wheel alone, the command, the command with faults.
    paths: file names (in /@/in); out: none, empty, older, inputs"""
    pc = 1
    steps = []
    place = out == "inputs"

    def cmd(names, d):
        return {**opts, "wheels": [(d if place else "/@/in") + "/" + n for n in names], "out": d, "facts": False, "env": dict(opts.get("env", {}))}
    for k, n in enumerate(paths):
        d = f"/@/ref/{k}"
        do = [["mkdir", d]] + ([["cp", f"/@/in/{n}", f"{d}/{n}"]] if place and not n.startswith("absent") else [])
        steps.append({"op": "env", "do": do, "proc": pc})
        steps.append({**cmd([n], d), "tag": "ref", "grp": k + 1, "proc": pc + 1})
        pc += 2
    n = len(paths)
    for k in range(nfaults + 1):
        d = f"/@/out/f{k}"
        do = []
        if out == "older":
            do = [["stale", f"/@/ref/{j}", d] for j in range(n)]
        elif place:
            do = [["mkdir", d]] + [["cp", f"/@/in/{x}", f"{d}/{x}"] for x in paths if not x.startswith("absent")]
        elif out == "empty":
            do = [["mkdir", d]]
        if do:
            steps.append({"op": "env", "do": do, "proc": pc})
        st = {**cmd(paths, d), "proc": pc + 1, "tag": "fault"}
        pc += 2
        if k == 0:
            st["tag"] = "count"
            st["fault"] = {"kind": "count", "n": 0}
        else:
            x = r.random()
            frac = (k - 1 + r.random()) / nfaults
            if x < 0.45:
                st["fault"] = {"kind": "oserror", "frac": frac}
            elif x < 0.55:
                st["fault"] = {"kind": "interrupt", "frac": frac}
            elif x < 0.7:
                st["fault"] = {"kind": "kill", "frac": frac}
            elif x < 0.88:
                st["fault"] = {"kind": "fsize", "n": r.choice([0, 100, 400, 700, 1000, 1500, 2000, 3000, 4096, 5000, 8000, 12000])}
            else:
                st["fault"] = {"kind": "tool", "n": 0}
                st["env"].update(FAILAT=str(r.randint(1, 4 * n)), FAILTAG=f"t{k}", FAILMODE=r.choice(["exit", "trunc", "kill"]))
        steps.append(st)
    return {"id": id_, "fs": fs, "wheels": wheels, "steps": steps, "kind": "batch",
            "bins": {"patchelf": TOOL.replace("TOOLPATH", "/opt/venv/bin/patchelf"), "strip": TOOL.replace("TOOLPATH", "/usr/bin/strip")}}


def batch_case(c, id_):
    """A command enumerated by MCCommands."""
    r = random.Random(id_)
    fs = [{"p": "/@/sys/libc/libc.so.6", "t": "elf", "elf": elf(id="c", soname="libc.so.6"), "mode": 0o755},
          {"p": "/@/sys/a/libfoo.so.1", "t": "elf", "elf": elf(id="foo", soname="libfoo.so.1", needed=["libc.so.6"], vn=[vn("libc.so.6", "GLIBC_2.5")]), "mode": 0o755}]
    wheels, paths = [], []
    for k, kind in enumerate(c["wheels"], 1):
        plat = {"pure": "any", "same": "manylinux_2_17_x86_64"}.get(kind, "linux_x86_64")
        if kind == "same":
            plat = "manylinux2014_x86_64.manylinux_2_17_x86_64"
        nm = ("absent" if kind == "absent" else "w") + str(k)
        fname = f"{nm}-1.0-cp312-cp312-{plat}.whl" if kind in ("ok", "same", "bad") else f"{nm}-1.0-py3-none-{plat}.whl"
        paths.append(fname)
        if kind == "absent":
            continue
        mem = [{"p": f"{nm}/__init__.py", "data": f"x={k}\n" * r.choice([1, 400])}]
        if kind in ("ok", "same", "bad"):
            need = ["libfoo.so.1"] if kind != "bad" else ["libgone.so.1"]
            mem.append({"p": f"{nm}/ext.so", "t": "elf", "mode": 0o755,
                        "elf": elf(id=f"e{k}", needed=need + ["libc.so.6"], vn=[vn("libc.so.6", "GLIBC_2.2.5")], syms=[S("PyInit_ext", d=True)])})
        wheels.append({"fname": fname, "members": mem, "purelib": "true" if kind == "pure" else "false", "stored": r.random() < 0.5})
    opts = {"op": "repair", "plat": "manylinux_2_17_x86_64", "only_plat": True, "ldpaths": LDP, "pure": c["pure"],
            "env": {"SOURCE_DATE_EPOCH": "1500000000"}}
    return batch(id_, r, fs, wheels, opts, paths, c["out"], 8)


def batch_world(rng, id_):
    """The same with arbitrary wheels."""
    r = rng
    w = World(r, nlibs=(1, 4), bad=r.choice([0, 0.1]), black=0.02, missing=0.01, ver=r.choice([0.2, 0.6]), scripts=0.2)
    w.make_libs()
    wheels = []
    for i in range(r.randint(1, 4)):
        wh = w.make_wheel() if r.random() < 0.6 else pure_wheel(r, f"pure{i}")
        if any(x["fname"] == wh["fname"] for x in wheels) or any(x["fname"].split("-")[0] == wh["fname"].split("-")[0] for x in wheels):
            continue
        wheels.append(wh)
    opts = w.options({"op": "repair"})
    env = dict(opts.get("env", {}))
    if env.get("SOURCE_DATE_EPOCH") == "":
        env["SOURCE_DATE_EPOCH"] = "1500000000"
    opts["env"] = env
    if r.random() < 0.6:
        opts["plat"] = "auto"
    if r.random() < 0.8:
        opts["pure"] = True
    return batch(id_, r, w.fs, wheels, opts, [x["fname"] for x in wheels], r.choice(["none", "empty", "older", "inputs"]), 8)


# ---------------------------------------------------------------- C08
def repro_world(rng, id_):
    r = rng
    s = package_world(r, id_, nlibs=(2, 6), dup=0.2, cycle=0.2, nonpy=(0, 2), exts=(1, 2), scripts=0.15, missing=0.02) if r.random() < 0.8 \
        else gen.repair_world(r, id_, bad=0.1)
    if set(s.get("bins", {})) & {"rpm", "apk"} and r.random() < 0.7:
        # two package managers, both of which own the files
        s["bins"] = {"rpm": FAKE_RPM, "apk": FAKE_APK}
    base = s["steps"][0]
    if r.random() < 0.6:
        base["plat"] = "auto"
    w = s["wheels"][0]
    cli = "show" if r.random() < 0.25 else "repair"
    base = {k: v for k, v in base.items() if k not in ("op",)}
    base.update(op="exec", cli=cli, facts=False, json=r.random() < 0.5)
    base.setdefault("env", {}).setdefault("SOURCE_DATE_EPOCH", "1600000000")
    if not base["env"]["SOURCE_DATE_EPOCH"]:
        base["env"]["SOURCE_DATE_EPOCH"] = "1700000001"
    if r.random() < 0.5:
        # another archive of the same files
        w2 = dict(w, dir="/@/in2", order="reversed" if w.get("order") != "reversed" else "asis", stored=True,
                  dirs=r.random() < 0.5, date=(2001, 2, 3, 4, 5, 6))
        if any(m.get("t") == "dirent" for m in w["members"]):
            pass
        s["wheels"].append(w2)
    steps = []
    for k in range(4):
        st = {**base, "out": f"/@/out/{k}", "proc": k + 1, "env": dict(base["env"]), "tag": "same"}
        if k:
            e = st["env"]
            e["PYTHONHASHSEED"] = str(r.randint(1, 10 ** 6))
            if r.random() < 0.5:
                e["TZ"] = r.choice(["America/New_York", "Asia/Kathmandu", "UTC+11", "JST-9"])
            if r.random() < 0.4:
                e["LC_ALL"] = r.choice(["C", "POSIX"])
            if r.random() < 0.4:
                st["cwd"] = r.choice(["/@/cwd/x y", "/@/out", "/@/sys"])
            if r.random() < 0.4:
                e["TMPDIR"] = r.choice(["/@/tmp/other", "/@/tmp/with space"])
            if r.random() < 0.4:
                st["umask"] = r.choice([0o077, 0o002, 0o027, 0o000])
            if r.random() < 0.5:
                st["shuffle"] = r.randint(1, 10 ** 6)
            if r.random() < 0.5:
                st["clock"] = r.choice([86400 * 400, -86400 * 3000, 3601])
            if r.random() < 0.3:
                st["out"] = f"/@/out/deep {k}/er"
            if len(s["wheels"]) > 1 and r.random() < 0.7:
                st["wheels"] = [f"/@/in2/{w['fname']}"]
        steps.append(st)
    s["steps"] = steps
    s["kind"] = "same"
    return s


# ---------------------------------------------------------------- C13, C20
def pure_wheel(r, name="pure"):
    q = r.random()
    plat = r.choice(["any", "any", "any", "linux_x86_64", "manylinux_2_17_x86_64", "macosx_11_0_universal2", "any.linux_x86_64", "win_amd64"])
    members = [{"p": f"{name}/__init__.py", "data": "x=1\n"}]
    if q < 0.12:
        # binaries, but not usable ones
        members.append({"p": f"{name}/x.so", "t": "elf", "elf": elf(id="alien", arch="mips64", needed=["libc.so.6"]), "mode": 0o755})
    elif q < 0.2:
        members.append({"p": f"{name}-1.0.data/purelib/" + r.choice(["", "sub/", "a/b/"]) + "x.so", "t": "elf", "elf": elf(id="p", needed=["libc.so.6"], syms=[S("PyInit_x", d=True)]), "mode": 0o755})
    elif q < 0.26:
        members.append({"p": f"{name}/broken.so", "t": "hex", "data": "7f454c46", "mode": 0o755})
    return {"fname": f"{name}-1.0-py3-none-{plat}.whl", "members": members, "purelib": r.choice(["true", "false"]) if plat == "any" else "false",
            "stored": r.random() < 0.3, "filemode": r.choice([0o644, 0o600, 0o444])}


def nonbinary_world(rng, id_):
    r = rng
    w = World(r, nlibs=(0, 2), exts=(1, 1), nonpy=(0, 0), bad=0.1, missing=0.05, libc=True)
    w.make_libs()
    wheels, names = [], []
    for i in range(r.choice([1, 1, 2, 3])):
        if r.random() < 0.7 or (i == 0 and r.random() < 0.7):
            wh = pure_wheel(r, f"pure{i}")
        else:
            wh = w.make_wheel()
        if wh["fname"] in names:
            continue
        if any(x["fname"].split("-")[0] == wh["fname"].split("-")[0] for x in wheels):
            continue
        wheels.append(wh)
        names.append(wh["fname"])
    out = r.choice(["/@/out", "/@/out", "/@/out/new/dir", "/@/in"])
    st = w.options({"op": "repair", "wheels": [f"/@/in/{n}" for n in names]})
    st["out"] = out
    if r.random() < 0.5:
        st["plat"] = "auto"
    if r.random() < 0.75:
        st["pure"] = True
    if r.random() < 0.08:
        st["wheels"].insert(r.randint(0, len(names)), "/@/in/absent-1.0-py3-none-any.whl")
    if r.random() < 0.1 and out == "/@/in":
        st["cwd"] = "/@/in"
    steps = []
    if r.random() < 0.4:
        sh = {k: st[k] for k in ("pure", "noisa", "ldpaths", "env") if k in st}
        for i, n in enumerate(names[:2]):
            steps.append({**sh, "op": "show", "json": r.random() < 0.8, "wheels": [f"/@/in/{n}"], "proc": 10 + i})
    steps.append({**st, "proc": 1})
    return {"id": id_, "fs": w.fs, "wheels": wheels, "steps": steps, "kind": "session"}


def session_world(rng, id_):
    """A history of commands in one process, and every command alone."""
    r = rng
    # without --ldpaths everything the process remembers about the machine's search path counts
    host = r.random() < 0.3
    prof = dict(tool=0.6, scripts=0.3, interp=0.7, interps=["/@/sys/ld/ld-linux-x86-64.so.2"] * 3 + ["/@/sys/a/ld-linux-x86-64.so.2"]) if host else {}
    w = World(r, nlibs=(1, 5), bad=r.choice([0, 0.1]), black=0.03, missing=0.01, ver=r.choice([0.5, 0.9]), **prof)
    if r.random() < 0.5:
        # policies disagree about these
        w.pool = [x for x in gen.POOL if x[0] in ("libexpat.so.1", "libmvec.so.1", "libz.so.1", "libfoo.so.1", "libbar.so.2")]
    w.make_libs()
    wheels = []
    for i in range(r.randint(2, 3)):
        wh = w.make_wheel()
        if any(x["fname"] == wh["fname"] for x in wheels):
            continue
        wheels.append(wh)
    if host:
        w.p["scripts"] = w.p["tool"] = 0
        for i in range(2):
            x = w.make_wheel()
            if all(x["fname"] != y["fname"] for y in wheels):
                wheels.append(x)
        # libraries only found beside the interpreter of a program
        for f in w.fs:
            d, _, b = f["p"].rpartition("/")
            if d in ("/@/sys/a", "/@/sys/b") and f["t"] == "elf" and r.random() < 0.5 and all(g["p"] != "/@/sys/ld/" + b for g in w.fs):
                f["p"] = "/@/sys/ld/" + b
        if r.random() < 0.5:
            w.fs.append({"p": "/@/sys/ld/ld-linux-x86-64.so.2", "t": "elf", "elf": elf(id="ldso", soname="ld-linux-x86-64.so.2")})
    if r.random() < 0.2:
        wheels.append(pure_wheel(r))
    if r.random() < 0.15:
        wm = gen.World(r, flavour="musl", ver=0, nlibs=(0, 1), wplat="linux_x86_64")
        wm.make_libs()
        w.fs += [f for f in wm.fs if all(g["p"] != f["p"] for g in w.fs)]
        x = wm.make_wheel()
        if all(x["fname"] != y["fname"] for y in wheels):
            wheels.append(x)
    if r.random() < 0.25:
        # a wheel of another architecture, whose name may not tell
        a = r.choice(["aarch64", "i686", "s390x"])
        wm = gen.World(r, arch=a, ver=0.3, nlibs=(0, 1), wplat=r.choice(["any", "any", f"linux_{a}", "macosx_11_0_universal2"]))
        wm.make_libs()
        w.fs += [f for f in wm.fs if all(g["p"] != f["p"] for g in w.fs)]
        x = wm.make_wheel()
        x["fname"] = "other-" + x["fname"].split("-", 1)[1]
        for m in x["members"]:
            c = m["p"].split("/")
            if "-1.0." in c[0]:
                m["p"] = "/".join(["other-" + c[0].split("-", 1)[1]] + c[1:])
        x.pop("record_skip", None)
        wheels.append(x)
    names = [f"/@/in/{x['fname']}" for x in wheels]
    first = w.options({"op": "repair"})
    env = dict(first.get("env", {}))
    if env.get("SOURCE_DATE_EPOCH") == "":
        env["SOURCE_DATE_EPOCH"] = "1500000000"     # otherwise the time of day is an input
    if host:
        env["AUDITWHEEL_LD_LIBRARY_PATH"] = r.choice([LDP, "/@/sys/b:/@/sys/libc", "/@/sys/libc"])
    ses, alone = [], []
    pc = 2
    for k in range(1, r.randint(2, 4) + 1):
        st = w.options({"op": "repair"}) if r.random() < 0.75 else {"op": "show", "json": r.random() < 0.5, "pure": r.random() < 0.5}
        st["ldpaths"] = first["ldpaths"] if r.random() < 0.7 else r.choice([LDP, "/@/sys/b:/@/sys/c:/@/sys/libc", "/@/sys/libc"])
        if host:
            st.pop("ldpaths", None)
            st.pop("plat", None) if r.random() < 0.5 else None
        st["env"] = env
        if st["op"] == "show" and r.random() < 0.3:
            st["noisa"] = True
        if len(wheels) > 2 and r.random() < 0.4:
            st["plat"] = "auto"
        if r.random() < 0.3 and st["op"] == "repair":
            st["exclude"] = [r.choice(w.libs or ["libfoo.so.1"])]
        ws = [r.choice(names)] if st["op"] == "show" else r.sample(names, r.randint(1, len(names)))
        if st["op"] == "repair" and r.random() < 0.2:
            ws.append(r.choice(ws))
        if st["op"] == "repair" and r.random() < 0.05:
            ws.insert(r.randint(0, len(ws)), "/@/in/absent-1.0-cp312-cp312-linux_x86_64.whl")
        ses.append({**st, "wheels": ws, "out": f"/@/out/s{k}", "proc": 1, "grp": k, "sub": 0, "facts": False})
        for j, x in enumerate(ws):
            alone.append({**st, "wheels": [x], "out": f"/@/out/a{k}-{j}", "proc": pc, "grp": k, "sub": j + 1, "facts": False})
            pc += 1
    return {"id": id_, "fs": w.fs, "wheels": wheels, "steps": ses + alone, "kind": "alone"}


# ---------------------------------------------------------------- C15
def twice_world(rng, id_):
    r = rng
    s = gen.repair_world(r, id_, bad=0.01, black=0.01, isa=0, missing=0.01, dup=0.2, scripts=0.2, nlibs=(0, 5))
    st = s["steps"][0]
    if r.random() < 0.4:
        st["plat"] = "auto"
    sh = {k: st[k] for k in ("noisa", "ldpaths", "env") if k in st}
    s["steps"] = [{**st, "proc": 1, "tag": "first"},
                  {**{k: v for k, v in st.items() if k != "strip"}, "proc": 2, "tag": "second", "wheels": ["/@/out/*.whl"], "out": "/@/out2"},
                  {**sh, "op": "show", "json": True, "proc": 3, "tag": "report", "wheels": ["/@/out/*.whl"]}]
    s["kind"] = "twice"
    return s
