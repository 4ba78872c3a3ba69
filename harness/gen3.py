"""Generators: the patcher, policy tables, dependency trees, options."""
from __future__ import annotations

import random
import json
import os

import gen  # noqa: F401
import gen2
from gen import elf

# ---------------------------------------------------------------- C18
PCONF = {"linux": ("patchelf", "manylinux_2_28_x86_64"), "none": ("none", "manylinux_2_28_x86_64"),
         "droid": ("patchelf", "android_24_x86_64"), "old": ("patchelf", "android_21_x86_64")}


def patcher_case(c, id_):
    """A sequence enumerated by MCPatcher, then applied twice."""
    p, plat = PCONF[c["c"]]
    end = [{"k": "get", "f": "l1"}, {"k": "apply", "f": ""}, {"k": "get", "f": "f2"}, {"k": "apply", "f": ""}]
    return {"id": id_, "fs": [], "wheels": [], "kind": "api", "steps": [{
        "op": "patcher", "patcher": p, "platform": plat,
        "seq": [q if q["k"] == "replace" else {**q, "a": [x[0] for x in q["a"]]} for q in c["log"]] + end,
        "files": [{"n": "f1", "elf": elf(id="f1", needed=["a.so", "b.so", "c.so"], rpath="/old")},
                  {"n": "f2", "elf": elf(id="f2", needed=["a.so", "b.so"], runpath="/old2")}],
        "links": [("l1", "f1")]}]}


def patcher_world(rng, id_):
    r = rng
    names = r.sample(["f1", "f2.so", "d/f3.so.1", "d/e/f4", "sp ace.so"], r.randint(2, 4))
    libs = [f"lib{x}.so.{i}" for i, x in enumerate(("a", "b", "c", "d", "e"))]
    files = []
    for n in names:
        q = r.random()
        files.append({"n": n, "elf": elf(
            id=n, needed=r.sample(libs, r.randint(0, 5)), soname=r.choice(["", "old.so"]),
            rpath=r.choice(["/old", "$ORIGIN/../x:/y"]) if q < 0.35 else "", runpath="/run:$ORIGIN" if 0.35 <= q < 0.6 else "")})
    links = []
    for k in range(r.randint(0, 3)):
        t = r.choice(names + [x[0] for x in links])
        a = r.choice(["", "d/", "ln/"]) + f"link{k}"
        depth = a.count("/")
        links.append((a, "../" * depth + t))
    every = names + [x[0] for x in links]
    kind = r.choice(["linux"] * 5 + ["none", "droid", "old"])
    p, plat = PCONF[kind]
    seq, replaced, moved = [], {}, 0
    real = {n: n for n in names}

    def target(n):
        for _ in range(5):
            t = dict(links).get(n)
            if t is None:
                return n
            import os
            n = os.path.normpath(os.path.join(os.path.dirname(n), t))
        return n

    for _ in range(r.randint(3, 14)):
        f = r.choice(every + [f"moved{i}" for i in range(moved)])
        k = r.choice(["soname", "replace", "replace", "remove", "rpath", "rpath", "clear", "get", "get", "apply", "move"])
        a = []
        t = target(f)
        if k == "soname":
            a = [r.choice(["new.so", "x-12345678.so.1", "a long name for a library.so.1.2.3"])]
        elif k == "replace":
            q = [x for x in r.sample(libs, r.randint(1, 3))]
            a = [(x, x.replace(".so", "-1a2b3c4d.so")) for x in q]
            # one replacement per name
            if any(replaced.get((t, x), y) != y for x, y in a):
                continue
            replaced.update({(t, x): y for x, y in a})
        elif k == "remove":
            a = r.sample(libs + [x.replace(".so", "-1a2b3c4d.so") for x in libs[:2]], r.randint(1, 2))
        elif k == "rpath":
            a = [r.choice(["$ORIGIN", "$ORIGIN/../pkg.libs", "$ORIGIN/a:$ORIGIN/b", "/abs"])]
        elif k == "move":
            if f in dict(links) or r.random() < 0.5:
                continue
            a = [f"moved{moved}"]
            moved += 1
        seq.append({"k": k, "f": f if k != "apply" else "", "a": a, **({"abs": True} if r.random() < 0.3 and k != "move" else {})})
    seq += [{"k": "get", "f": r.choice(every)}, {"k": "apply", "f": ""}, {"k": "get", "f": r.choice(every)}, {"k": "apply", "f": ""}]
    return {"id": id_, "fs": [], "wheels": [], "kind": "api", "steps": [{
        "op": "patcher", "patcher": p, "platform": plat, "seq": seq, "files": files, "links": links}]}


# ---------------------------------------------------------------- C04
_POL = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "policies")
TAB = {k: json.load(open(os.path.join(_POL, f"{n}-policy.json")))
       for k, n in (("glibc", "manylinux"), ("musl", "musllinux"), ("android", "android"))}
ARCHES = ["aarch64", "armv7l", "i686", "loongarch64", "ppc64", "ppc64le", "riscv64", "s390x", "x86_64"]


def policy_case(c, id_):
    al = dict(c["al"])
    st = {"op": "policies", "libc": c["libc"], "arch": "x86_64", "alter": [al]}
    if c["libc"] == "musl":
        other = "musllinux_1_1" if al["pol"] == "musllinux_1_2" else "musllinux_1_2"
        st["musl"] = other if al["k"] == "delarch" else al["pol"]
    if c["libc"] == "android":
        st["wheel"] = "p-1.0-cp313-cp313-android_30_x86_64.whl"
        if al["k"] == "delarch" and al["arch"] == "x86_64":
            st["arch"] = "aarch64"
            st["wheel"] = "p-1.0-cp313-cp313-android_30_arm64_v8a.whl"
    return {"id": id_, "fs": [], "wheels": [], "kind": "api", "steps": [st]}


def policy_world(rng, id_):
    r = rng
    libc = r.choice(["glibc", "glibc", "glibc", "musl", "android"])
    arch = r.choice(ARCHES)
    if libc == "android":
        arch = r.choice(["x86_64", "aarch64"])
    elif libc == "musl":
        arch = r.choice(["aarch64", "armv7l", "i686", "ppc64le", "riscv64", "s390x", "x86_64"])
    rows = [x for x in TAB[libc] if x["name"] != "linux"]
    st = {"op": "policies", "libc": libc, "arch": arch}
    if libc == "musl" and r.random() < 0.7:
        st["musl"] = r.choice(["musllinux_1_1", "musllinux_1_2", "musllinux_1_2", "musllinux_1_9", "musllinux_1", "manylinux_2_5", "xmusllinux_1_1"])
    if libc != "musl" and r.random() < 0.04:
        st["musl"] = "musllinux_1_1"
    if libc == "android":
        lv = r.choice([16, 20, 21, 22, 23, 24, 25, 26, 27, 28, 30, 35, 100])
        suf = "arm64_v8a" if arch == "aarch64" else arch
        pl = [f"android_{lv}_{suf}"]
        if r.random() < 0.12:
            pl.append(f"android_{lv + 1}_{suf}")
        if r.random() < 0.95:
            st["wheel"] = f"p-1.0-cp313-cp313-{'.'.join(pl)}.whl"
    if r.random() < 0.2 and "musl" not in st:
        # several alterations at once
        al = []
        for _ in range(r.randint(2, 4)):
            row = r.choice(rows)
            a = r.choice(list(row["symbol_versions"]))
            sv = row["symbol_versions"][a]
            f = r.choice(list(sv) or ["NEWFAM"])
            k = r.choice(["addsym", "delsym", "addlib", "dellib"] if sv else ["addsym", "addlib", "dellib"])
            o = {"k": k, "pol": row["name"], "arch": "", "sym": "", "v": ""}
            if k in ("addlib", "dellib"):
                o["v"] = r.choice(row["lib_whitelist"] if k == "dellib" else ["libx.so.1", *rows[-1]["lib_whitelist"]])
            else:
                o.update(arch=a, sym=f, v=r.choice(sv[f] or ["1"]) if k == "delsym" else r.choice(["9.9", "2.5", *(rows[-1]["symbol_versions"].get(a, sv).get(f) or ["1"])]))
            al.append(o)
        st["alter"] = al
        if libc == "musl":
            st["musl"] = "musllinux_1_2"
        if libc == "android":
            st["wheel"] = f"p-1.0-cp313-cp313-android_33_{'arm64_v8a' if arch == 'aarch64' else arch}.whl"
        return {"id": id_, "fs": [], "wheels": [], "kind": "api", "steps": [st]}
    qs = []
    names = [x["name"] for x in TAB[libc]] + [a for x in rows for a in x["aliases"]]
    for _ in range(r.randint(3, 8)):
        if r.random() < 0.4:
            a = arch if r.random() < 0.85 else r.choice(ARCHES)
            n = r.choice([*names, "manylinux_2_99", "manylinux_2_1", "linux", "", "any"]) + (f"_{a}" if r.random() < 0.9 else "")
            qs.append({"k": "name", "a": [n]})
        else:
            req = []
            for _ in range(r.randint(0, 5)):
                row = r.choice(rows)
                sv = row["symbol_versions"].get(arch, {})
                if sv and r.random() < 0.85:
                    f = r.choice(list(sv))
                    v = r.choice(sv[f]) if sv[f] and r.random() < 0.93 else r.choice(["9.9", "PRIVATE", "2.17.1"])
                    req.append(["lib" + f.lower() + ".so", f"{f}_{v}"])
                else:
                    req.append([r.choice(["libssl.so.1", "libc.so.6"]), r.choice(["OPENSSL_1_1_0", "OPENSSL", "GLIBC_PRIVATE", "FOO_1.0", "GLIBCXX_TUNABLES"])])
            qs.append({"k": "vs", "a": req})
    st["queries"] = qs
    return {"id": id_, "fs": [], "wheels": [], "kind": "api", "steps": [st]}


def policy_all():
    """Every table there is."""
    out = []
    for libc, archs in (("glibc", ARCHES), ("musl", [a for a in ARCHES if a not in ("ppc64", "loongarch64")]), ("android", ["x86_64", "aarch64"])):
        for a in archs:
            st = {"op": "policies", "libc": libc, "arch": a, "queries": []}
            names = [f"{n}_{a}" for x in TAB[libc] for n in [x["name"], *x["aliases"]]]
            st["queries"] = [{"k": "name", "a": [n]} for n in names]
            if libc == "glibc":
                for x in TAB[libc]:
                    for f, vs in x.get("symbol_versions", {}).get(a, {}).items():
                        for v in vs[-2:]:
                            st["queries"].append({"k": "vs", "a": [["l", f"{f}_{v}"]]})
            sts = [st]
            if libc == "musl":
                sts = [{**st, "musl": "musllinux_1_1"}, {**st, "musl": "musllinux_1_2"}, st]
            if libc == "android":
                suf = "arm64_v8a" if a == "aarch64" else a
                sts = [{**st, "wheel": f"p-1.0-cp313-cp313-android_{lv}_{suf}.whl"} for lv in (20, 21, 23, 24, 25, 26, 27, 30)]
            out += [{"id": f"C04-t-{libc}-{a}-{i}", "fs": [], "wheels": [], "kind": "api", "steps": [x]} for i, x in enumerate(sts)]
    return out


# ---------------------------------------------------------------- C11
LNAMES = ["libvqa.so.1", "libvqb.so.2", "libvqc.so", "libvqd-1.4.so", "libvqe.so.0"]
LDSO_NAME = "ld-linux-x86-64.so.2"


def order_world(rng, id_):
    """Which directories are searched, and in which order: every directory has a library of its own, and every pair of
    directories one which both have, sometimes of the wrong kind in the first."""
    r = rng
    base, root = "/@/sys/", "/@/sys/root"
    mode = r.choice(["glibc", "glibc", "glibc", "musl", "musl", "ldp", "env"])
    arch = r.choice(["x86_64"] * 6 + ["aarch64", "armv7l", "ppc64le", "ppc64", "i686"])
    wrong = {"x86_64": ["i686", "x32", "aarch64", "x86_64_be"], "aarch64": ["aarch64_be", "x86_64", "armv7l"], "ppc64": ["ppc64le", "s390x"],
             "armv7l": ["armv7l_soft", "armv7l_none", "armv7l_nofloat", "armv7l_eabi4", "i686"], "ppc64le": ["ppc64", "aarch64"], "i686": ["x86_64", "x32", "armv7l"]}[arch]
    conf_dirs = {"glibc": ["/l1", "/opt/l2", "/usr/local/lib", "/l3"], "musl": ["/lib", "/usr/local/lib", "/usr/lib", "/opt/l"]}.get(mode, [])
    own = r.sample([base + x for x in ("a", "b", "c", "m")], r.randint(1, 3))
    dirs = own + [root + x for x in conf_dirs]
    r.shuffle(dirs)
    fs = [{"p": d, "t": "dir"} for d in dirs]
    need = []

    def lib(d, so, n, foreign=False):
        kw = {}
        if foreign:
            kw["arch"] = r.choice(wrong)
        fs.append({"p": f"{d}/{so}", "t": "elf", "elf": elf(id=f"{so}#{n}", soname=so, osabi=0, **{"arch": arch, **kw})})
    for i, d in enumerate(dirs):
        lib(d, f"libu{i}.so.1", 0)
        need.append(f"libu{i}.so.1")
        for j in range(i + 1, len(dirs)):
            so = f"libp{i}{j}.so.1"
            f = r.choice([0, 1, 2]) if r.random() < 0.12 else 0
            lib(d, so, 0, f == 1)
            lib(dirs[j], so, 1, f == 2)
            need.append(so)
    r.shuffle(need)
    need = need[:r.choice([8, 14, 40])]

    def plist(ds, esc=lambda x: x):
        q = r.sample(ds, r.randint(0, min(3, len(ds))))
        if q and r.random() < 0.3:
            q.append(r.choice(q))
        if r.random() < 0.2:
            q.insert(r.randint(0, len(q)), r.choice(["/@/sys/none", ""]))
        return ":".join(q) if any(q) else ""
    main = elf(id="main", arch=arch, needed=need, dyn=True)
    for k in ("rpath", "runpath"):
        if r.random() < 0.35:
            q = plist(dirs)
            if q:
                main[k] = q
    objdir = r.choice(dirs)
    fs.append({"p": f"{objdir}/main.so", "t": "elf", "elf": main})
    # a library with a search path of its own, and needs
    if r.random() < 0.6:
        mid = elf(id="mid", soname="libmid.so", arch=arch, needed=r.sample(need, min(4, len(need))), dyn=True)
        q = plist(dirs)
        if q:
            mid[r.choice(["rpath", "runpath"])] = q
        fs.append({"p": f"{r.choice(dirs)}/libmid.so", "t": "elf", "elf": mid})
        main["needed"] = r.choice([["libmid.so"] + need, need[4:] + ["libmid.so"]])
    st = {"op": "ldd", "objs": [f"{objdir}/main.so"], "env": {}, "cwd": r.choice(dirs)}
    if r.random() < 0.4 or mode == "env":
        st["env"]["AUDITWHEEL_LD_LIBRARY_PATH"] = plist(dirs)
    if r.random() < 0.3 or mode == "env":
        st["env"]["LD_LIBRARY_PATH"] = plist(dirs)
    if mode == "ldp":
        st["ldpaths"] = plist(dirs)
    conf = []
    if mode == "glibc":
        st["etc"], st["conf"] = mode, conf
        files = r.sample(["a.conf", "b.conf", "10-x.conf", "bb.conf", "B.conf", ".hid.conf", "c.conf.off", "zz.conf"], r.randint(1, 5))
        where = r.choice(["ld.so.conf.d", "ld.so.conf.d", "other"])
        pat = r.choice([f"/etc/{where}/*.conf", f"{where}/*.conf", f"{where}/b*.conf {where}/*.conf", f"{where}/z*.conf {where}/[a-b].conf", f"/etc/{where}/?.conf {where}/*.conf # x"])
        main_lines = [x + r.choice(["", "/", " # c", "\t"]) for x in r.sample(conf_dirs, r.randint(0, 2))]
        main_lines.insert(r.randint(0, len(main_lines)), r.choice(["include ", "include\t"]) + pat)
        conf.append({"p": root + "/etc/ld.so.conf", "lines": main_lines})
        for nm in files:
            conf.append({"p": f"{root}/etc/{where}/{nm}", "lines": r.sample(conf_dirs, r.randint(1, 3))})
        if r.random() < 0.3:
            conf[-1]["lines"].insert(0, r.choice(["include ../more.conf", "include /etc/more.conf", "include deep/*.conf"]))
            conf.append({"p": r.choice([root + "/etc/more.conf", f"{root}/etc/{where}/deep/d.conf", f"{root}/etc/{where}/../more.conf"]), "lines": r.sample(conf_dirs, 2)})
            conf[-1]["p"] = conf[-1]["p"].replace(f"{where}/../", "")
        st["shuffle"] = r.randint(1, 1000)
    elif mode == "musl":
        st["etc"], st["conf"] = mode, conf
        if r.random() < 0.7:
            q = r.sample(conf_dirs, r.randint(1, 4))
            k = r.randint(0, len(q))
            conf.append({"p": root + "/etc/ld-musl-x86_64.path", "lines": r.choice([[":".join(q)], q, [":".join(q[:k]), ":".join(q[k:])], q + [""]])})
    elif r.random() < 0.4:
        st["cli"] = True
    for c in conf:
        if r.random() < 0.2:
            c["lines"].insert(r.randint(0, len(c["lines"])), "# caf?" if mode == "glibc" else "/opt/caf?")
        # the loader reads bytes, in no encoding
        text = "\n".join(c["lines"]) + ("\n" if r.random() < 0.8 else "")
        fs.append({"p": c["p"], "t": "hex", "data": text.encode().replace(b"caf?", b"caf\xe9").hex()})
    if mode == "glibc":
        if r.random() < 0.2:
            fs.append({"p": f"{root}/etc/{where}/{r.choice(['0.conf', 'a1.conf', 'y.conf'])}", "t": "dir"})
        if r.random() < 0.2:
            # not for everyone to read
            fs.append({"p": f"{root}/etc/{where}/{r.choice(['1.conf', 'a2.conf', 'zy.conf'])}", "t": "text", "data": "\n".join(conf_dirs), "mode": 0})
    return {"id": id_, "fs": fs, "wheels": [], "kind": "api", "steps": [st]}


def ldd_world(rng, id_):
    r = rng
    mode = r.choice(["ldp", "ldp", "env", "glibc", "musl"])
    base = "/@/sys/"
    fs, n = [], [0]
    dirs = [base + d for d in ("a", "b", "c", "m")]
    root = base + "root"
    cdirs = []
    if mode == "glibc":
        cdirs = [root + d for d in r.sample(["/l1", "/opt/l2", "/usr/local/lib", "/l3"], 3)]
    elif mode == "musl":
        cdirs = [root + d for d in ["/lib", "/usr/local/lib", "/usr/lib", "/opt/l"]]
    places = dirs + cdirs
    dirlinks = r.random() < 0.35
    linked = []
    if dirlinks:
        fs.append({"p": base + "x/y", "t": "dir"})
        fs.append({"p": base + "x/z", "t": "dir"})
        for k in range(r.randint(1, 2)):
            to = r.choice([base + "x/y", base + "b", "x/y", "c"])
            fs.append({"p": base + f"dl{k}", "t": "link", "to": to})
            linked.append(base + f"dl{k}")
        places += [base + "x/y", base + "x/z", base + "x"]
    for d in places:
        fs.append({"p": d, "t": "dir"})
    every = places + linked
    libs = list(LNAMES)
    if mode == "ldp":
        libs += ["libc.so.6"] if r.random() < 0.4 else []
    if r.random() < 0.25:
        libs.append(r.choice(["libpython3.11.so.1.0", "libpython3.so", "libpython3.7m.so.1.0"]))
    top = "x86_64" if r.random() < 0.85 else r.choice(["aarch64", "i686"])

    def entry(d=None):
        x = r.random()
        if x < 0.3:
            return "$ORIGIN"
        if x < 0.6:
            return r.choice(["$ORIGIN/../", "${ORIGIN}/../"]) + r.choice(["a", "b", "c", "m"])
        if x < 0.7 and linked:
            return r.choice(linked) + r.choice(["", "/../z", "/..", "/../b"])
        if x < 0.74:
            return ""
        if x < 0.78:
            return base + "nonexistent"
        return r.choice(every) + r.choice(["", "", "", "/", "/."])

    def path(p):
        if r.random() > p:
            return ""
        q = [entry() for _ in range(r.randint(1, 3))]
        return ":".join(q) if any(q) else "$ORIGIN"

    def obj(so, arch=None, prob=0.35):
        n[0] += 1
        need = r.sample(libs, r.randint(0, 3)) if r.random() < 0.7 else []
        kw = {}
        x = r.random()
        if x < prob * 0.5:
            kw["rpath"] = path(1)
        elif x < prob * 0.9:
            kw["runpath"] = path(1)
        elif x < prob:
            kw.update(rpath=path(1), runpath=path(1))
        return elf(id=f"{so}#{n[0]}", soname=so, arch=arch or top, needed=need,
                   isa=r.choice([1, 2, 3, 4, 6, 7, 8, 15, 16, 33]) if (arch or top) == "x86_64" and r.random() < 0.25 else -1,
                   osabi=r.choice([0, 0, 0, 3]) if r.random() < 0.4 else 0, dyn=r.random() < 0.97, **kw)

    used = {f["p"] for f in fs}

    def put(p, **kw):
        if p not in used:
            used.add(p)
            fs.append({"p": p, **kw})
    for so in libs:
        for d in r.sample(places, min(len(places), r.randint(0, 3))):
            x = r.random()
            if x < 0.5:
                put(f"{d}/{so}", t="elf", elf=obj(so))
            elif x < 0.65:
                put(f"{d}/{so}", t="elf", elf=obj(so, arch=r.choice(["i686", "aarch64", "x86_64", "s390x"])))
            elif x < 0.78:
                put(f"{d}/{so}", t="link", to=r.choice([f"{so}.real", f"./{so}.real", f"{d}/{so}.real"]))
                put(f"{d}/{so}.real", t="elf", elf=obj(so))
            elif x < 0.9:
                e = r.choice(places)
                rel = "../" * (d.count("/") - 2) + e[len(base):]
                put(f"{d}/{so}", t="link", to=r.choice([f"{e}/{so}", f"{rel}/{so}", f"{rel}/{so}.other"]))
                if r.random() < 0.6:
                    put(f"{e}/{so}.other", t="elf", elf=obj(so))
            elif x < 0.94:
                put(f"{d}/{so}", t="link", to="nowhere.so")
            else:
                put(f"{d}/{so}", t="link", to=f"{so}.l")
                put(f"{d}/{so}.l", t="link", to=so)
    objs = []
    for k in range(r.randint(1, 2)):
        d = r.choice(places)
        n[0] += 1
        m = obj(f"main{k}.so", prob=0.8)
        m["needed"] = r.sample(libs, r.randint(1, len(libs)))
        m["dyn"] = True
        if mode == "ldp" and r.random() < 0.3:
            m["interp"] = base + "ld/" + (LDSO_NAME if r.random() < 0.8 else "ld-musl-x86_64.so.1")
            if r.random() < 0.3:
                m["needed"].append(LDSO_NAME)
            for so in r.sample(libs, 1):
                put(f"{base}ld/{so}", t="elf", elf=obj(so))
            if r.random() < 0.7:
                put(m["interp"], t="elf", elf=elf(id="ldso", soname=m["interp"].split("/")[-1], arch=top))
        if mode in ("glibc", "ldp") and r.random() < 0.06:
            m["needed"].insert(0, "libc.musl-x86_64.so.1")
        name = r.choice([f"main{k}.so", f"_m{k}.cpython-311-x86_64-linux-gnu.so", f"m{k}.cpython-310-x86_64-linux-gnu.so",
                         f"m{k}.cpython-312-x86_64-linux-musl.so", f"m{k}.abi3.so"])
        put(f"{d}/{name}", t="elf", elf=m)
        objs.append(f"{d}/{name}")
    for f in fs:
        if f["t"] == "elf" and r.random() < 0.1 and len(objs) < 4 and f["p"] not in objs:
            objs.append(f["p"])
    st = {"op": "ldd", "objs": objs, "env": {}}
    st["cwd"] = r.choice(every) if r.random() < 0.5 else "/@/sys"
    if r.random() < 0.3:
        st["rel"] = True

    def plist():
        q = [r.choice(every + [base + "none"]) + r.choice(["", "", "/"]) if r.random() < 0.95 else "" for _ in range(r.randint(0, 4))]
        return ":".join(q)
    if r.random() < 0.5 or mode == "env":
        st["env"]["AUDITWHEEL_LD_LIBRARY_PATH"] = plist()
    if r.random() < 0.3 or mode == "env":
        st["env"]["LD_LIBRARY_PATH"] = plist()
    if mode == "ldp":
        st["ldpaths"] = plist()
    if mode in ("glibc", "musl"):
        st["etc"] = mode
        st["conf"] = conf = []
        if mode == "glibc":
            def lines(inc):
                out = []
                for _ in range(r.randint(1, 4)):
                    x = r.random()
                    d = r.choice(cdirs)[len(root):]
                    if x < 0.6:
                        out.append(r.choice(["", "", " ", "\t"]) + d + r.choice(["", "/", " ", " # comment", "#c"]))
                    elif x < 0.75:
                        out.append(r.choice(["", "# include /etc/ld.so.conf.d/*.conf", "   ", "#/l1"]))
                    elif inc:
                        out.append(r.choice(["include ", "include\t", "include   "]) + r.choice(
                            ["/etc/ld.so.conf.d/*.conf", "ld.so.conf.d/*.conf", "ld.so.conf.d/b*.conf ld.so.conf.d/a.conf", "/etc/none/*.conf",
                             "/etc/ld.so.conf.d/?.conf", "ld.so.conf.d/[a-b].conf # x"]) + r.choice(["", " "]))
                return out
            if r.random() < 0.95:
                conf.append({"p": root + "/etc/ld.so.conf", "lines": lines(True) + (["include /etc/ld.so.conf.d/*.conf"] if r.random() < 0.6 else [])})
            for nm in r.sample(["a.conf", "b.conf", "10-x.conf", "bb.conf", ".hid.conf", "c.conf.off"], r.randint(1, 4)):
                conf.append({"p": root + "/etc/ld.so.conf.d/" + nm, "lines": lines(False)})
            st["shuffle"] = r.randint(1, 1000)
        elif r.random() < 0.8:
            q = [r.choice(["/lib", "/usr/local/lib", "/usr/lib", "/opt/l", ""]) for _ in range(r.randint(1, 4))]
            k = r.randint(0, len(q))
            sep = r.choice([":", "\n"])
            if sep == ":":
                ls = [":".join(q[:k]), ":".join(q[k:])]
            else:
                ls = q
            conf.append({"p": root + "/etc/ld-musl-x86_64.path", "lines": ls})
        for c in conf:
            put(c["p"], t="text", data="\n".join(c["lines"]) + ("\n" if r.random() < 0.8 else ""))
    elif mode == "ldp" or mode == "env":
        if r.random() < 0.4:
            st["cli"] = True
    if r.random() < 0.35 and not st.get("cli"):
        st["exclude"] = [r.choice(["libvqa*", "libvq?.so.[12]", "*.so.0", r.choice(libs), "nothing"] + ([] if dirlinks else ["/@/sys/b/*", "*/a/libvq*"]))
                         for _ in range(r.randint(1, 2))]
    return {"id": id_, "fs": fs, "wheels": [], "kind": "api", "steps": [st]}


_MAIN = {"a": ["libA.so.1"], "ab": ["libA.so.1", "libB.so.2"], "ba": ["libB.so.2", "libA.so.1"],
         "apb": ["libA.so.1", "libpython3.so", "libB.so.2"], "aab": ["libA.so.1", "libA.so.1", "libB.so.2"]}
_D1, _D2 = "/@/sys/d1", "/@/sys/d2"
_PATHS = {"none": ("", ""), "rp1": ("$ORIGIN/../d1", ""), "run1": ("", _D1), "rp2run1": (_D2, _D1),
          "rp2": ("${ORIGIN}/../d2", ""), "run2": ("", "$ORIGIN/../d2"), "both": (f"{_D2}:{_D1}", "")}
_DIRS = {"none": "", "d1": _D1, "d2": _D2, "d12": f"{_D1}:{_D2}", "d21": f"{_D2}:{_D1}"}
_EX = {"none": [], "b": ["libB*"], "d1": [_D1 + "/*"], "a": ["*A.so.?"]}


def ldd_case(c, id_):
    """A world enumerated by MCLoader."""
    fs = [{"p": d, "t": "dir"} for d in (_D1, _D2, "/@/sys/m")]
    rp, rup = _PATHS[c["mp"]]
    fs.append({"p": "/@/sys/m/main.so", "t": "elf", "elf": elf(id="main", needed=_MAIN[c["main"]], rpath=rp, runpath=rup)})
    lrp, lrup = _PATHS[c["lp"]]
    for k, v in sorted(c["slot"].items()):
        if v == "none":
            continue
        n, o = ("libA.so.1", "libB.so.2") if k[0] == "a" else ("libB.so.2", "libA.so.1")
        d, other = (_D1, "../d2/") if k[1] == "1" else (_D2, _D1 + "/")
        if v == "link":
            fs.append({"p": f"{d}/{n}", "t": "link", "to": other + n})
        else:
            need = {"leaf": [], "needs": [o], "self": [n, o], "foreign": [o]}[v]
            kw = {"rpath": lrp, "runpath": lrup} if v in ("needs", "self") else {}
            fs.append({"p": f"{d}/{n}", "t": "elf", "elf": elf(id=k, soname=n, needed=need, arch="aarch64" if v == "foreign" else "x86_64", **kw)})
    st = {"op": "ldd", "objs": ["/@/sys/m/main.so"], "ldpaths": _DIRS[c["conf"]], "env": {"AUDITWHEEL_LD_LIBRARY_PATH": _DIRS[c["env"]]}}
    if _EX[c["ex"]]:
        st["exclude"] = _EX[c["ex"]]
    elif c["n"] % 3 == 0:
        st["cli"] = True
    return {"id": id_, "fs": fs, "wheels": [], "kind": "api", "steps": [st]}


# ---------------------------------------------------------------- C23
WORDS = "the of and to in is that for it as was with be by on not he his but at are this have from or had an they which one".split()


def filler(r, n=3000):
    return " ".join(r.choice(WORDS) + (str(r.randint(0, 99)) if r.random() < 0.2 else "") for _ in range(n)) + "\n"


FORMS = ["long", "long", "eq", "short", "glued", "abbr"]
PLAT_OK = ["auto", "manylinux_2_17_x86_64", "manylinux2014_x86_64", "manylinux_2_28_x86_64", "manylinux_2_5_x86_64", "manylinux_2_34_x86_64"]
PLAT_BAD = ["linux_x86_64", "manylinux_2_17_aarch64", "manylinux_2_99_x86_64", "manylinux_2_17", "musllinux_1_2_x86_64", "AUTO", "", "manylinux1"]
Z_OK = ["0", "1", "5", "6", "9", "9", "3", "07", " 4 ", "+2"]
Z_BAD = ["10", "-1", "abc", "", "3.5", "0x1", "1e0", "-9"]
PAT_OK = ["patchelf", "patchelf", "patchelf", "none", "lief-patchelf"]
PAT_BAD = ["foo", "", "Patchelf", "patchelf "]


def config_opts(r, bad):
    cfg = {}
    for o, ok, no in (("plat", PLAT_OK, PLAT_BAD), ("z", Z_OK, Z_BAD), ("patcher", PAT_OK, PAT_BAD)):
        c = {"cli": []}

        def val():
            return r.choice(no) if r.random() < bad else r.choice(ok)
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
            c["cli"].append({"v": val(), "f": r.choice(FORMS)})
        if r.random() < 0.45:
            c["env"] = val()
        cfg[o] = c
    cfg["L"] = {"cli": [{"v": r.choice([".libs", ".x", "-deps", "_lib", ".vendored.libs"]), "f": r.choice(FORMS)} for _ in range(r.choice([0, 0, 1, 2]))]}
    cfg["w"] = {"cli": [{"v": r.choice(["o1", "deep/er/out", "./x/../y", "/@/out", "/@/cwd/abs/", "/@/out/sub/dir", ".", "wheelhouse"]),
                         "f": r.choice(FORMS)} for _ in range(r.choice([0, 1, 1, 2]))]}
    return cfg


def config_world(rng, id_):
    r = rng
    w = gen.World(r, missing=0, bad=0, isa=0, black=0, alien=0, sym_max=r.choice([2, 4, 6]), nlibs=(1, 3), exts=(1, 1), nonpy=(0, 1), plat=0, opts=0)
    w.make_libs()
    wh = w.make_wheel()
    wh["members"].append({"p": "pkg/words.txt", "data": filler(r)})
    base = w.options({"op": "config", "wheels": [f"/@/in/{wh['fname']}"]})
    for k in ("plat", "zlevel", "lib_sdir", "patcher"):
        base.pop(k, None)
    if r.random() < 0.2:
        base["only_plat"] = True
    if r.random() < 0.15:
        base["no_update_tags"] = True
    base["env"] = {**base.get("env", {}), "SOURCE_DATE_EPOCH": "1600000000"}
    steps = []
    cfg = config_opts(r, r.choice([0, 0, 0.08, 0.3]))
    steps.append({**base, "cfg": cfg, "after": r.randint(0, 3), "proc": 0})
    if r.random() < 0.6:
        # the same values given differently
        tw = {o: {"cli": [dict(x) for x in c["cli"]], **({"env": c["env"]} if "env" in c else {})} for o, c in cfg.items()}
        for o in ("plat", "z", "patcher"):
            c = tw[o]
            if c["cli"] and r.random() < 0.6:
                c["env"], c["cli"] = c["cli"][-1]["v"], []
            elif "env" in c and r.random() < 0.7:
                if not c["cli"]:
                    c["cli"] = [{"v": c["env"], "f": r.choice(FORMS)}]
                del c["env"]
        tw["w"] = config_opts(r, 0)["w"]
        steps.append({**base, "cfg": tw, "after": r.randint(0, 3), "proc": 1})
    return {"id": id_, "fs": w.fs, "wheels": [wh], "kind": "api", "steps": steps}


def config_case(c, id_):
    """A configuration enumerated by MCOptions, on a fixed wheel."""
    r = __import__("random").Random(c["n"])
    cfg = {}
    for o in ("plat", "z", "patcher"):
        cfg[o] = {"cli": [{"v": v, "f": FORMS[(c["n"] + i) % len(FORMS)]} for i, v in enumerate(c[o]["cli"])]}
        if c[o]["env"]["set"]:
            cfg[o]["env"] = c[o]["env"]["v"]
    members = [{"p": "pkg/_e.so", "t": "elf", "elf": elf(id="e", needed=["libfoo.so.1", "libc.so.6"], vn=[gen.vn("libc.so.6", "GLIBC_2.2.5")],
                                                        syms=[gen.S("PyInit__e", d=True)])},
               {"p": "pkg/words.txt", "data": filler(r, 1500)}]
    fs = [{"p": "/@/sys/a/libfoo.so.1", "t": "elf", "elf": elf(id="foo", soname="libfoo.so.1", needed=["libc.so.6"])},
          {"p": "/@/sys/libc/libc.so.6", "t": "elf", "elf": elf(id="libc", soname="libc.so.6")}]
    wh = {"fname": "pkg-1.0-cp312-cp312-linux_x86_64.whl", "members": members}
    return {"id": id_, "fs": fs, "wheels": [wh], "kind": "api", "steps": [
        {"op": "config", "wheels": [f"/@/in/{wh['fname']}"], "cfg": cfg, "ldpaths": "/@/sys/a:/@/sys/libc", "env": {"SOURCE_DATE_EPOCH": "1600000000"}}]}


# ---------------------------------------------------------------- MCRepair
def repair_case(c, id_, twice=False):
    """A world enumerated by MCRepair."""
    A, B = "libA.so.1", "libexpat.so.1" if c["lb"] == "guaranteed" else "libB.so.2"
    c6 = ["libc.so.6"]
    init = [{"n": "PyInit_m", "d": True, "b": "GLOBAL", "t": "FUNC"}]

    def obj(id, needed, v="GLIBC_2.2.5", **kw):
        return elf(id=id, needed=needed + c6, vn=[{"l": "libc.so.6", "v": [v]}], **kw)
    need = {"none": [], "a": [A], "b": [B], "ab": [A, B], "pya": ["libpython3.12.so.1.0", A]}[c["n1"]]
    path = {"none": "", "own": "$ORIGIN/libs", "sys": _D1, "ownsys": _D1 + ":$ORIGIN/libs"}[c["rp"]]
    d = {"top": "", "deep": "pkg/sub/", "data": "foo-1.0.data/platlib/pkg/"}[c["place"]]
    o = c["other"]
    ms = [{"p": "pkg/__init__.py", "t": "text", "data": "x = 1\n"},
          {"p": d + "m.abi3.so", "t": "elf", "mode": 0o755, "elf": obj("ext1", (["libown.so"] if o == "own" else []) + need, rpath=path, syms=init)}]
    if o in ("ext2", "ext2d2"):
        ms.append({"p": "pkg/m.so", "t": "elf", "mode": 0o755, "elf": obj("ext2", [A], rpath=_D2 if o == "ext2d2" else "", syms=init)})
    elif o == "own":
        ms.append({"p": d + "libs/libown.so", "t": "elf", "mode": 0o755, "elf": obj("own", [A], soname="libown.so")})
    elif o in ("script", "cleanscript"):
        ms.append({"p": "foo-1.0.data/scripts/run", "t": "elf", "mode": 0o755, "elf": obj("run", [A] if o == "script" else [], rpath=_D1)})
    fs = [{"p": x, "t": "dir"} for x in (_D1, _D2)]
    if c["la"] != "absent":
        more = {"needsb": [B], "needspy": ["libpython3.so"]}.get(c["la"], [])
        fs.append({"p": f"{_D1}/{A}", "t": "elf", "elf": obj("liba", more, c["v"], soname=A)})
    fs.append({"p": f"{_D2}/{A}", "t": "elf", "elf": obj("libc", [], soname=A)})
    fs.append({"p": f"{_D1}/{B}", "t": "elf", "elf": obj("libb", [A] if c["lb"] == "needsa" else [], soname=B)})
    fname = f"foo-1.0-cp312-abi3-{'any' if c['tag'] == 'any' else 'linux_x86_64'}.whl"
    st = {"op": "repair", "wheels": [f"/@/in/{fname}"], "ldpaths": _D1, "plat": "auto" if c["plat"] == "auto" else c["plat"] + "_x86_64"}
    if c["ex"] != "none":
        st["exclude"] = [c["ex"]]
    s = {"id": id_, "fs": fs, "wheels": [{"fname": fname, "members": ms}], "steps": [st]}
    if twice:
        s["kind"] = "twice"
        s["steps"] = [{**st, "proc": 1, "tag": "first"},
                      {**st, "proc": 2, "tag": "second", "wheels": ["/@/out/*.whl"], "out": "/@/out2"},
                      {"op": "show", "json": True, "ldpaths": _D1, "proc": 3, "tag": "report", "wheels": ["/@/out/*.whl"]}]
    return s


# ---------------------------------------------------------------- MCTags
def tags_case(c, id_):
    """A wheel enumerated by MCTags, repaired for one platform after another."""
    plats = {"linux": ["linux_x86_64"], "any": ["any"], "one": ["manylinux1_x86_64"], "two": ["manylinux2014_x86_64", "manylinux_2_17_x86_64"],
             "mixed": ["linux_x86_64", "manylinux_2_28_x86_64"], "newer": ["manylinux_2_34_x86_64"], "anylast": ["manylinux_2_28_x86_64", "any"]}[c["plat"]]
    pys = {"one": ["cp312"], "two": ["cp311", "cp312"], "py": ["py3"]}[c["py"]]
    abis = {"one": ["cp312"], "two": ["abi3", "none"], "none": ["none"]}[c["abi"]]

    def expand(qs):
        return sorted(f"{p}-{a}-{q}" for p in pys for a in abis for q in qs)
    full = expand(plats)
    tags = {"same": full, "reversed": full[::-1], "first": full[:1], "twice": full + full[:1], "any": expand(["any"]),
            "other": full + ["pp310-pypy310_pp73-linux_x86_64"]}[c["meta"]]
    fname = f"pk-1.0-{'.'.join(pys)}-{'.'.join(abis)}-{'.'.join(plats)}.whl"
    e = elf(id="ext", needed=["libc.so.6"], vn=[{"l": "libc.so.6", "v": ["GLIBC_2.2.5"]}], syms=[{"n": "PyInit_m", "d": True, "b": "GLOBAL", "t": "FUNC"}])
    steps = []
    for k, q in enumerate(c["reqs"]):
        st = {"op": "repair", "wheels": [f"/@/in/{fname}" if k == 0 else "/@/out/*.whl"], "out": "/@/out" if k == 0 else "/@/out2", "proc": k, "ldpaths": "",
              "plat": {"auto": "auto", "m17": "manylinux_2_17_x86_64", "only17": "manylinux_2_17_x86_64", "only5": "manylinux1_x86_64",
                       "only28": "manylinux_2_28_x86_64"}[q]}
        if q.startswith("only"):
            st["only_plat"] = True
        steps.append(st)
    return {"id": id_, "fs": [], "wheels": [{"fname": fname, "members": [{"p": "pk/m.so", "t": "elf", "elf": e}], "tags": tags, "purelib": c["pure"]}], "steps": steps}


def ident_case(c, id_):
    """A wheel enumerated by MCIdent: what it is for has to be deduced."""
    plat = {"linux": "linux_x86_64", "arm": "linux_aarch64", "any": "any", "two": "linux_aarch64.linux_x86_64", "many": "manylinux_2_28_x86_64",
            "musl": "musllinux_1_2_x86_64", "both": "manylinux_2_28_x86_64.musllinux_1_2_x86_64", "v3": "linux_x86_64_v3",
            "anylinux": "any.linux_x86_64", "weird": "linux_vax", "le": "linux_ppc64le"}[c["name"]]
    req = {"show": "", "auto": "auto", "many": "manylinux_2_28_x86_64", "manyarm": "manylinux_2_28_aarch64", "musl": "musllinux_1_2_x86_64",
           "manyle": "manylinux_2_28_ppc64le"}[c["req"]]
    members = [{"p": "pk/__init__.py", "data": ""}]
    r = random.Random(id_)
    for i, f in enumerate(c["files"], 1):
        a = f["arch"]
        tag = {"tagged": f".cpython-{r.choice([312, 311, '313t', '314t', '312d'])}-{a}-linux-gnu.so", "tagmusl": f".cpython-{r.choice([312, 39, '37m'])}-{a}-linux-musl.so",
               "old": f".cpython-{r.choice([310, 39, '37m', 310])}-{a}-linux-gnu.so"}.get(f["kind"], ".so")
        needed = (["libc.so.6"] if f["libc"] in ("glibc", "both") else []) + ([f"libc.musl-{a}.so.1"] if f["libc"] in ("musl", "both") else [])
        syms = [] if f["kind"] == "lib" else [{"n": f"PyInit_m{i}", "d": True, "b": "GLOBAL", "t": "FUNC"}]
        members.append({"p": ("pk-1.0.data/purelib/in/" if f["place"] == "pure" else "pk/") + f"m{i}{tag}", "t": "elf", "mode": 0o755,
                        "elf": elf(id=f"m{i}", arch=r.choice(["mips64", "armv7l_none", "armv7l_none", "armv7l_soft", "armv7l_nofloat", "aarch64_be"]) if a == "mips64" else a, needed=needed, syms=syms)})
    wh = {"fname": f"pk-1.0-cp312-cp312-{plat}.whl", "members": members}
    st = {"op": "repair" if req else "show", "json": True, "wheels": [f"/@/in/{wh['fname']}"], "ldpaths": "/@/sys/none"}
    host = {}
    if req:
        st["plat"] = req
    if req.startswith("musl"):
        host.update(libc="musl", musl="musllinux_1_2")
    elif req and not req.endswith("x86_64") and req != "auto":
        host["machine"] = req.split("_", 3)[-1]
    scn = {"id": id_, "fs": [], "wheels": [wh], "steps": [st]}
    if host:
        scn["host"] = host
        st["patch"] = {k: v for k, v in host.items() if k in ("machine", "musl")}
    return scn


# ---------------------------------------------------------------- C25
ANSWERS = ["patchelf 0.14.5", "patchelf 0.15.0", "patchelf 0.18.0", "patchelf 1.0", "patchelf 0.14.5.20221014", "patchelf 0.17.2.rc1", "patchelf 0.100.0",
           "patchelf 0.14.10", "patchelf 2", "patchelf  0.19.1", "patchelf 0.15",
           "patchelf 0.14.4", "patchelf 0.14.3", "patchelf 0.14", "patchelf 0.9", "patchelf 0.9.50", "patchelf 0.12.20200827.8d3a16e", "patchelf 0.0.99", "patchelf 0",
           "patchelf", "", "0.18.0", "patchelf unknown", "mypatchelf 0.18.0", "patchelf v0.18.0", "patchelf-0.18.0"]
REAL = {"patchelf": "/opt/venv/bin/patchelf", "strip": "/usr/bin/strip"}


def tool_file(d, name, t):
    if t["k"] == "none":
        return []
    if t["k"] == "fails":
        body = "exit 3\n"
    elif name == "patchelf":
        body = f"if [ \"$1\" = --version ]; then echo '{t['text']}'; exit 0; fi\nexec {REAL[name]} \"$@\"\n"
    else:
        body = f"exec {REAL[name]} \"$@\"\n"
    return [{"p": f"{d}/{name}", "t": "file", "data": "#!/bin/sh\n" + body, "mode": 0o644 if t["k"] == "noexec" else 0o755}]


def with_tools(scn, path):
    """Every step of the scenario finds its tools through these directories."""
    for i, d in enumerate(path):
        scn["fs"].append({"p": f"/@/sys/t{i}", "t": "dir"})
        for name in ("patchelf", "strip"):
            scn["fs"] += tool_file(f"/@/sys/t{i}", name, d[name])
    for st in scn["steps"]:
        st["env"] = {**st.get("env", {}), "PATH": ":".join([f"/@/sys/t{i}" for i in range(len(path))] + ["/@/bin"])}
        st["tools"] = path
    scn["kind"] = "tools"
    return scn


def tools_world(rng, id_):
    r = rng
    k = r.random()
    if k < 0.12:
        wh = gen2.pure_wheel(r, "pure")
        fs, st = [], {"op": "repair", "wheels": [f"/@/in/{wh['fname']}"], "pure": r.random() < 0.7, "ldpaths": gen.LDP}
        if r.random() < 0.5:
            st["strip"] = True
    else:
        s = gen.repair_world(r, id_, bad=0.02, black=0.02, missing=0.01, ver=0.2, strip=0.6, noupd=0.2, nonpy=(0, 2), scripts=0.3,
                             nlibs=r.choice([(0, 0), (1, 4), (1, 4)]), libpy=r.choice([0.02, 0.3]))
        fs, wh, st = s["fs"], s["wheels"][0], s["steps"][0]
        if r.random() < 0.6:
            st["plat"] = "auto"
    if r.random() < 0.25:
        st["patcher"] = "none"
    if st.get("env", {}).get("SOURCE_DATE_EPOCH") == "":
        del st["env"]["SOURCE_DATE_EPOCH"]
    good = r.random() < 0.3

    def pe():
        if good or r.random() < 0.15:
            return {"k": "works", "text": r.choice(ANSWERS[:11])}
        return r.choice([{"k": "works", "text": r.choice(ANSWERS)}] * 4 + [{"k": x, "text": ""} for x in ("none", "noexec", "fails")])

    def strip():
        return {"k": "works" if good else r.choice(["works", "works", "works", "none", "noexec", "fails"]), "text": ""}
    path = [{"patchelf": pe(), "strip": strip()} for _ in range(r.randint(1, 3))]
    steps = [{**st, "proc": 0}]
    if r.random() < 0.2 and k >= 0.12:
        steps.append({**{x: st[x] for x in ("wheels", "noisa", "ldpaths", "env") if x in st}, "op": "show", "json": True, "proc": 1})
    return with_tools({"id": id_, "fs": fs, "wheels": [wh], "steps": steps}, path)


def tools_case(c, id_):
    """A configuration enumerated by MCTools, on fixed wheels."""
    fs = [{"p": "/@/sys/a/libfoo.so.1", "t": "elf", "elf": elf(id="foo", soname="libfoo.so.1", needed=["libc.so.6"], symtab=["f"]), "mode": 0o755},
          {"p": "/@/sys/libc/libc.so.6", "t": "elf", "elf": elf(id="libc", soname="libc.so.6")}]
    need = {"graft": ["libfoo.so.1"], "refuse": ["libgone.so.1"]}.get(c["what"], [])
    st = {"op": "repair", "ldpaths": gen.LDP, "plat": "manylinux_2_17_x86_64", "patcher": c["patcher"], "strip": c["strip"]}
    if c["what"] == "copy":
        wh = {"fname": "pkg-1.0-py3-none-any.whl", "members": [{"p": "pkg/__init__.py", "data": "x = 1\n"}], "purelib": "true"}
        st["pure"] = True
    else:
        wh = {"fname": "pkg-1.0-cp312-cp312-linux_x86_64.whl", "members": [
            {"p": "pkg/__init__.py", "data": ""},
            {"p": "pkg/_e.so", "t": "elf", "mode": 0o755,
             "elf": elf(id="e", needed=need + ["libc.so.6"], vn=[gen.vn("libc.so.6", "GLIBC_2.2.5")], syms=[gen.S("PyInit__e", d=True)], symtab=["main"])},
            {"p": "pkg/tool", "t": "elf", "mode": 0o755, "elf": elf(id="t", needed=["libc.so.6"], symtab=["main"])}]}
    st["wheels"] = [f"/@/in/{wh['fname']}"]
    return with_tools({"id": id_, "fs": fs, "wheels": [wh], "steps": [st]}, c["path"])


# ---------------------------------------------------------------- C26
def pair(r, id_, same, out, points):
    """Two commands into one directory: each alone, then the second at the given points of the first."""
    x = r.random()
    if x < 0.15:
        a = gen2.pure_wheel(r, "pure")
        fs, wheels = [], [a]
        one = {"op": "repair", "wheels": [f"/@/in/{a['fname']}"], "pure": True, "ldpaths": gen.LDP}
    else:
        s = gen.repair_world(r, id_, bad=0, black=0, isa=0, missing=0.01, nolibc=0, ver=0.1, dup=0.05, nlibs=(1, 3), exts=(1, 2), nonpy=(0, 1), scripts=0.2)
        fs, wheels, one = s["fs"], s["wheels"], s["steps"][0]
        one["facts"] = False
        if r.random() < 0.8:
            one["plat"] = "auto"
    one.setdefault("env", {})["SOURCE_DATE_EPOCH"] = "1500000000"
    one.pop("cwd", None)
    two = {**one, "env": dict(one["env"])}
    if same:
        # the same wheel, perhaps to other contents
        if r.random() < 0.6:
            two["zlevel"] = r.choice([0, 9])
        if r.random() < 0.2:
            two["strip"] = not one.get("strip")
    else:
        b = gen2.pure_wheel(r, "other") if r.random() < 0.5 else None
        if b:
            wheels = [*wheels, b]
            two["wheels"] = [f"/@/in/{b['fname']}"]
            two["pure"] = True
        else:
            w = {**wheels[0], "dir": "/@/in2"}
            w["fname"] = w["fname"].replace("-1.0-", "-1.0-2-") if "-1.0-1-" not in w["fname"] else w["fname"].replace("-1.0-1-", "-1.0-")
            wheels = [*wheels, w]
            two["wheels"] = [f"/@/in2/{w['fname']}"]
    steps = [{**one, "out": "/@/ref/a", "proc": 1, "tag": "ref", "fault": {"kind": "count", "n": 0}},
             {**two, "out": "/@/ref/b", "proc": 2, "tag": "ref"}]
    pc = 3
    for k, (at, nth) in enumerate(points):
        d = f"/@/out/p{k}"
        do = [["mkdir", d]] if out == "empty" else [["stale", "/@/ref/a", d], ["stale", "/@/ref/b", d]] if out == "older" else []
        if do:
            steps.append({"op": "env", "do": do, "proc": pc})
            pc += 1
        f = {"kind": "pause", "at": at, "other": {**two, "out": d}}
        f.update({"frac": nth} if at == "frac" else {"nth": nth})
        steps.append({**one, "out": d, "proc": pc, "tag": "pair", "env": dict(one["env"]), "fault": f})
        pc += 1
    return {"id": id_, "fs": fs, "wheels": wheels, "steps": steps, "kind": "pair"}


def pair_world(rng, id_):
    r = rng
    n = r.choice([3, 4])
    pts = [(r.choice(["mkdir", "open", "write", "write", "rename", "frac", "frac", "frac"]), None) for _ in range(n)]
    pts = [(a, (r.random() if r.random() < 0.4 else 0.8 + r.random() / 5) if a == "frac" else r.randint(0, 12) if a == "write" else 0) for a, _ in pts]
    return pair(r, id_, r.random() < 0.7, r.choice(["none", "none", "empty", "older"]), pts)


def pair_case(c, id_):
    """A schedule enumerated by MCParallel."""
    r = random.Random(id_)
    at = {"ok": "frac", "write": "write"}.get(c["at"], c["at"])
    nth = 1.0 if at == "frac" else r.randint(0, 3) + 5 * c["piece"] if at == "write" else 0
    return pair(r, id_, c["same"], c["out"], [(at, nth)])
