"""Seeded generation of worlds (system libraries, wheels, options)."""
from __future__ import annotations

import random

from world import elf

LDP = "/@/sys/a:/@/sys/b:/@/sys/libc"
GLIBCS = ["GLIBC_2.2.5", "GLIBC_2.4", "GLIBC_2.5", "GLIBC_2.6", "GLIBC_2.12", "GLIBC_2.14", "GLIBC_2.17",
          "GLIBC_2.18", "GLIBC_2.24", "GLIBC_2.27", "GLIBC_2.28", "GLIBC_2.31", "GLIBC_2.34", "GLIBC_2.35",
          "GLIBC_2.38", "GLIBC_2.41", "GLIBC_2.42", "GLIBC_PRIVATE"]
CXX = ["GLIBCXX_3.4", "GLIBCXX_3.4.8", "GLIBCXX_3.4.13", "GLIBCXX_3.4.19", "GLIBCXX_3.4.22", "GLIBCXX_3.4.33",
       "CXXABI_1.3", "CXXABI_1.3.3", "CXXABI_1.3.8", "CXXABI_1.3.15", "CXXABI_TM_1", "CXXABI_FLOAT128"]
ZLIB = ["ZLIB_1.2.0", "ZLIB_1.2.2.3", "ZLIB_1.2.9", "ZLIB_1.2.3.4", "ZLIB_1.2.12"]
GCCV = ["GCC_3.0", "GCC_4.2.0", "GCC_4.8.0", "GCC_7.0.0", "GCC_12.0.0", "GCC_14.0.0"]
# black-listed by the manylinux policies
BLACKZ = ["_dist_code", "_length_code", "_tr_align", "_tr_init", "crc32_combine_gen", "inflate_fast", "gzflags", "longest_match"]
BLACKC = ["__issignaling", "__issignalingf", "__cxa_thread_atexit_impl", "pthread_getattr_default_np"]
PLATS = ["auto"] * 5 + ["manylinux_2_5_x86_64", "manylinux1_x86_64", "manylinux_2_12_x86_64", "manylinux2010_x86_64",
                        "manylinux_2_17_x86_64", "manylinux2014_x86_64", "manylinux_2_24_x86_64",
                        "manylinux_2_28_x86_64", "manylinux_2_31_x86_64", "manylinux_2_34_x86_64",
                        "manylinux_2_35_x86_64", "manylinux_2_39_x86_64", "manylinux_2_41_x86_64"]

# index into GLIBCS of the newest version allowed
PLATV = [(2, "manylinux_2_5_x86_64"), (2, "manylinux1_x86_64"), (4, "manylinux_2_12_x86_64"), (4, "manylinux2010_x86_64"),
         (6, "manylinux_2_17_x86_64"), (6, "manylinux2014_x86_64"), (8, "manylinux_2_24_x86_64"), (9, "manylinux_2_27_x86_64"),
         (10, "manylinux_2_28_x86_64"), (11, "manylinux_2_31_x86_64"), (12, "manylinux_2_34_x86_64"),
         (13, "manylinux_2_35_x86_64"), (14, "manylinux_2_39_x86_64"), (15, "manylinux_2_41_x86_64")]


def S(n, d=False, b="GLOBAL", t="FUNC"):
    return {"n": n, "d": d, "b": b, "t": t}


def vn(lib, *v):
    return {"l": lib, "v": list(v)}


# external library families: (soname, real file name or None for same, whitelisted somewhere)
POOL = [
    ("libfoo.so.1", "libfoo.so.1.2.3"), ("libbar.so.2", None), ("libbaz-1.4.so", None),
    ("libqux.so", "libqux.so.5"), ("libdot.v2.so.3", "libdot.v2.so.3.0"), ("libz.so.1", "libz.so.1.2.13"),
    ("libexpat.so.1", "libexpat.so.1.8"), ("libmvec.so.1", None), ("libstdc++.so.6", None),
    ("libgcc_s.so.1", None), ("ldb2.so.1", None), ("libcrypt.so.1", "libcrypt-2.28.so"), ("libzz.so.0", "libzz.so.0.0"),
]
LIBPY = ["libpython3.11.so.1.0", "libpython3.7m.so.1.0", "libpython3.so", "libpython3.13t.so.1.0"]


MUSL_SO = {"x86_64": "libc.musl-x86_64.so.1", "i686": "libc.musl-x86.so.1", "aarch64": "libc.musl-aarch64.so.1",
           "s390x": "libc.musl-s390x.so.1", "ppc64le": "libc.musl-ppc64le.so.1", "armv7l": "libc.musl-armv7.so.1",
           "riscv64": "libc.musl-riscv64.so.1", "loongarch64": "libc.musl-loongarch64.so.1", "ppc64": "libc.musl-ppc64.so.1"}
LDSO = {"x86_64": "ld-linux-x86-64.so.2", "i686": "ld-linux.so.2", "aarch64": "ld-linux-aarch64.so.1",
        "s390x": "ld64.so.1", "ppc64le": "ld64.so.2", "armv7l": "ld-linux-armhf.so.3",
        "riscv64": "ld-linux-riscv64-lp64d.so.1", "loongarch64": "ld-linux-loongarch-lp64d.so.1", "ppc64": "ld64.so.1"}


class World:
    def __init__(self, rng: random.Random, **prof):
        self.r = rng
        self.p = {"nlibs": (0, 5), "exts": (1, 2), "nonpy": (0, 2), "scripts": 0.15, "cycle": 0.15, "libpy": 0.08,
                  "missing": 0.02, "dup": 0.12, "isa": 0.025, "bad": 0.04, "alien": 0.05, "sym_max": None,
                  "ver": 0.5, "exclude": 0.0, "plat": 1.0, "opts": 1.0, "libc": True, "rpath": 0.35,
                  "record": 0.0, "pure": 0.0, "names": 0.0, "interp": 0.0, "nolibc": 0.03, "black": 0.05, "tool": 0.1, "odd": 0.08}
        self.p.update(prof)
        self.fs: list[dict] = []
        self.libs: list[str] = []
        self.n = 0
        # newest glibc version the binaries of this world usually need
        self.top = self.p["sym_max"] or rng.choice([0, 2, 4, 6, 6, 8, 9, 10, 11, 12, 13, 15, 16])
        self.arch = self.p.get("arch", "x86_64")
        self.flavour = self.p.get("flavour", "glibc")      # what the binaries are linked with
        self.libcso = {"glibc": "libc.so.6", "musl": MUSL_SO[self.arch] if self.flavour == "musl" else "", "android": "libc.so"}[self.flavour]
        self.libmso = {"glibc": "libm.so.6", "musl": "libz.so.1", "android": "libm.so"}[self.flavour]
        self.ldso = {"glibc": LDSO.get(self.arch, "ld-linux.so.2"), "musl": "", "android": ""}[self.flavour]

    def ch(self, x):
        return self.r.random() < x

    def ident(self, base):
        self.n += 1
        return f"{base}#{self.n:03d}"

    # ---------------------------------------------------------------- libraries
    def versions(self, needed):
        r, out = self.r, []
        if not self.ch(self.p["ver"]):
            return [vn("libc.so.6", "GLIBC_2.2.5")] if "libc.so.6" in needed and self.ch(0.7) else []
        top = self.top
        for lib in needed:
            if lib == "libc.so.6":
                k = r.choice([0, 0, 1, 2, 2, 3, 4, 5, 6, 6, 8, 10, 11, 12, 14, 15, 16])
                out.append(vn(lib, *{GLIBCS[k if self.ch(0.03) else min(top, k)], GLIBCS[0]}))
            elif lib == "libm.so.6" and self.ch(0.5):
                out.append(vn(lib, r.choice(GLIBCS[:min(top, 8) + 1])))
            elif lib == "libstdc++.so.6":
                out.append(vn(lib, *{r.choice(CXX[:max(1, top // 3)] + ["CXXABI_1.3"]), r.choice(CXX if self.ch(0.2) else CXX[:1])}))
            elif lib == "libz.so.1" and self.ch(0.4):
                out.append(vn(lib, r.choice(ZLIB)))
            elif lib == "libgcc_s.so.1" and self.ch(0.4):
                out.append(vn(lib, r.choice(GCCV)))
            elif lib == "libfoo.so.1" and self.ch(0.3):
                out.append(vn(lib, r.choice(["FOO_1.0", "FOO_ABI_2", "GLIBC_2.5", "foo"])))
        if self.ch(0.2 if top >= 13 else 0.02):
            for x in out:
                if x["l"] == "libc.so.6":
                    x["v"].append("GLIBC_ABI_DT_RELR")
        if self.ch(0.1):
            out.append(vn("ld-linux-x86-64.so.2", "GLIBC_2.3", "GLIBC_2.41"))
        return out

    def make_libs(self):
        r = self.r
        k = r.randint(*self.p["nlibs"])
        all_ = getattr(self, "pool", POOL)
        pool = r.sample(all_, min(k, len(all_)))
        if self.ch(0.6):
            pool.sort(key=lambda x: all_.index(x))
        self.libs = [s for s, _ in pool]
        for i, (so, real) in enumerate(pool):
            needed = []
            for s2 in self.libs[i + 1:]:
                if self.ch(0.45):
                    needed.append(s2)
            if self.ch(self.p["cycle"]):
                needed.append(r.choice(self.libs))
            if self.ch(self.p["libpy"]):
                needed.append(r.choice(LIBPY))
            if self.ch(self.p["missing"] / 2):
                needed.append("libnowhere.so.1")
            if self.ch(0.3):
                needed.append(self.libmso)
            needed.append(self.libcso)
            if self.ch(0.2) and self.ldso:
                needed.append(self.ldso)
            if self.ch(0.2):
                r.shuffle(needed)
            needed = list(dict.fromkeys(needed))
            d = r.choice(["a", "b"])
            self.add_lib(so, real, d, needed)
            if self.ch(self.p["dup"]):
                # another file of that name in another directory
                kind = r.random()
                od = "b" if d == "a" else "a"
                if kind < 0.4:
                    self.add_lib(so, None, od, needed, arch=r.choice([a for a in ("i686", "aarch64", "x32") if a != self.arch]))
                elif kind < 0.8:
                    self.add_lib(so, None, od, needed[::-1])
                else:
                    self.add_lib(so, real, "c", needed)
        if self.ch(self.p["libpy"] * 2):
            # a Python library that is there, with needs of its own: nobody cares for those
            so = r.choice(LIBPY)
            self.fs.append({"p": f"/@/sys/{r.choice('abc')}/{so}", "t": "elf", "mode": 0o755,
                            "elf": elf(id=so, soname=so, arch=self.arch, needed=r.sample(["libnowhere.so.1", "libpyonly.so.1", *self.libs[:1], self.libcso], 2),
                                       vn=[vn("libc.so.6", "GLIBC_2.2.5", r.choice(GLIBCS))] if self.flavour == "glibc" else [])})
            if self.ch(0.5):
                self.fs.append({"p": "/@/sys/a/libpyonly.so.1", "t": "elf", "mode": 0o755,
                                "elf": elf(id="pyonly", soname="libpyonly.so.1", arch=self.arch, needed=[self.libcso])})
        if self.p["libc"] and not self.ch(self.p["nolibc"]):
            for so in dict.fromkeys((self.libcso, self.libmso, "libpthread.so.0", self.ldso)):
                if so:
                    self.fs.append({"p": f"/@/sys/libc/{so}", "t": "elf", "mode": 0o755,
                                    "elf": elf(id=so, soname=so, arch=self.arch,
                                               needed=[] if so.startswith(("ld", "libc")) else [self.libcso])})

    def add_lib(self, so, real, d, needed, arch=None):
        r = self.r
        arch = arch or self.arch
        path = f"/@/sys/{d}/{real or so}"
        if any(f["p"] == path for f in self.fs):
            return
        e = elf(id=self.ident(so), soname=so if self.ch(0.9) else "", needed=needed, arch=arch,
                vn=self.versions(needed))
        if arch == "x86_64" and self.ch(self.p["isa"]):
            e["isa"] = r.choice([1, 2, 3, 4, 6, 8, 15, 16, 33])
        if self.ch(0.4):
            e["symtab"] = r.sample(["local", "main_entry", "helper", "_fini2", so.split(".")[0] + "_init"], r.randint(1, 4))
        if self.ch(0.15):
            k = r.choice(["rpath", "runpath"])
            e[k] = r.choice(["/@/sys/c", "$ORIGIN", "/@/sys/b:/@/sys/c", "/opt/none", "$ORIGIN/../b"])
        self.fs.append({"p": path, "t": "elf", "elf": e, "mode": r.choice([0o644, 0o755, 0o755, 0o555, 0o444])})
        if real and real != so:
            # a chain of links, now and then through another directory
            hops = [so] + ([f"{so}.l{i}" for i in range(r.randint(1, 3))] if self.ch(0.15) else []) + [real]
            for i, (x, y) in enumerate(zip(hops, hops[1:])):
                self.fs.append({"p": f"/@/sys/{d}/{x}", "t": "link",
                                "to": r.choice([y, f"/@/sys/{d}/{y}", f"../{d}/{y}"])})

    # ---------------------------------------------------------------- wheel
    def rpath(self, depth, e, own_dirs):
        r = self.r
        if not self.ch(self.p["rpath"]):
            return
        up = "/".join([".."] * depth)
        pool = ["$ORIGIN", "${ORIGIN}", "$ORIGIN/lib", "/@/sys/a", "/@/sys/c", "/opt/none", "lib", "", "$ORIGIN/.",
                "$ORIGIN/" + (up or "."), "$ORIGIN/" + (up + "/" if up else "") + "pkg/lib",
                "$ORIGIN/" + (up + "/" if up else "") + "pkg.libs", "$ORIGIN/" + (up + "/" if up else "") + "..",
                "$ORIGIN/$LIB", "$ORIGIN/../../../../../../sys/a", "$ORIGIN/" + (up + "/" if up else "") + "../elsewhere/x"]
        q = [r.choice(pool) for _ in range(r.randint(1, 4))]
        if not any(q):
            q.append("$ORIGIN")
        e[r.choice(["rpath", "runpath"])] = ":".join(q)

    def member_elf(self, name, *, ext, avail, depth=1, own=()):
        r = self.r
        needed = [s for s in avail if self.ch(0.6)]
        needed += list(own)
        if self.ch(self.p["missing"]):
            needed.append("libnowhere.so.1")
        if self.ch(self.p["libpy"]):
            needed.append(r.choice(LIBPY))
        if self.ch(0.2):
            needed.append(self.libmso)
        if not self.ch(self.p["nolibc"]):
            needed.append(self.libcso)
        if self.ch(0.15) and self.ldso:
            needed.append(self.ldso)
        if self.ch(0.2):
            r.shuffle(needed)
        needed = list(dict.fromkeys(needed))
        syms = []
        if ext:
            syms.append(S("PyInit_" + name.split("/")[-1].split(".")[0], d=True))
        if self.ch(self.p["bad"]):
            syms.append(r.choice([S("PyFPE_jbuf", t="NOTYPE"), S("PyFPE_jbuf", d=True), S("PyUnicodeUCS2_Foo"),
                                  S("PyFPE_counter"), S("PyFPE_dummy", t="OBJECT")]))
            if ext and self.ch(0.4):
                syms[0] = S("init" + name.split("/")[-1].split(".")[0], d=True)
        if self.ch(self.p["black"]):
            syms.append(r.choice([S("_zlibVersion"), S("deflateInit2_", d=False), S("crc32_combine_gen"), S("gzopen64"),
                                  S("inflateReset2"), S("deflateSetHeader", b="WEAK"), S("_tr_init"), S("zcalloc"),
                                  S("gzflags", d=True), S("pthread_mutex_lock"), S("iconv")]))
            if self.ch(0.6):
                have = {x["n"] for x in syms}
                syms += [S(x, b=r.choice(["GLOBAL", "GLOBAL", "WEAK"])) for x in r.sample(BLACKZ, r.randint(1, 3)) + r.sample(BLACKC, r.choice([0, 0, 1]))
                         if x not in have]
                if "libz.so.1" in avail and "libz.so.1" not in needed:
                    needed.append("libz.so.1")
        e = elf(id=self.ident(name.split("/")[-1]), needed=needed, syms=syms, vn=self.versions(needed), arch=self.arch)
        if self.arch == "x86_64" and self.ch(self.p["isa"]):
            e["isa"] = r.choice([1, 2, 3, 4, 7, 8, 15, 16])
        if self.ch(0.4):
            e["symtab"] = r.sample(["local", "main_entry", "helper", "_fini2", "PyInit_x"], r.randint(1, 4))
        self.rpath(depth, e, own)
        return e

    def make_wheel(self, dirs=None):
        r = self.r
        name = r.choice(["pkg", "pkg", "My_Pkg", "a.b"])
        self.name = name
        members = [{"p": "pkg/__init__.py", "data": "x = 1\n" * r.randint(1, 900), "mode": r.choice([0o644, 0o664, 0o600, 0o755])}]
        inlibs = []
        for i in range(r.randint(*self.p["nonpy"])):
            so = ["libown.so.1", "libinner.so", "libplug.so.2"][i % 3]
            d = r.choice(["pkg/lib", "pkg", "pkg.libs", f"{name}.libs"])
            inlibs.append((so, d))
        for i, (so, d) in enumerate(inlibs):
            own = [s for s, _ in inlibs[i + 1:] if self.ch(0.5)]
            if self.ch(self.p["cycle"]):
                own.append(inlibs[0][0])
            e = self.member_elf(d + "/" + so, ext=False, avail=[x for x in self.libs if self.ch(0.5)], depth=d.count("/") + 1,
                                own=own)
            e["soname"] = so
            if own and self.ch(0.85):
                up = "/".join([".."] * (d.count("/") + 1))
                e["runpath"], e["rpath"] = r.sample(["", ":".join(f"$ORIGIN/{up}/{x}" for x in sorted({x for _, x in inlibs}))], 2)
            members.append({"p": f"{d}/{so}", "t": "elf", "elf": e, "mode": r.choice([0o644, 0o755, 0o555])})
        for i in range(r.randint(*self.p["exts"])):
            d = r.choice(["", "pkg/", "pkg/", "pkg/sub/", "pkg/sub/deep/"])
            nm = d + ["_ext", "core", "fast"][i % 3] + r.choice([".so", ".cpython-312-x86_64-linux-gnu.so", ".abi3.so"])
            own = [s for s, _ in inlibs if self.ch(0.6)]
            e = self.member_elf(nm, ext=True, avail=self.libs, depth=d.count("/"), own=own)
            if own and self.ch(0.93):
                # make the own libraries findable
                dd = {x for s, x in inlibs if s in own}
                up = "/".join([".."] * d.count("/"))
                e["rpath" if self.ch(0.5) else "runpath"] = ":".join(
                    "$ORIGIN/" + (up + "/" if up else "") + x for x in sorted(dd)) + self.r.choice(["", ":/@/sys/a", ":$ORIGIN"])
                if e["rpath"] and e["runpath"] and self.ch(0.8):
                    e["rpath"] = ""
            members.append({"p": nm, "t": "elf", "elf": e, "mode": r.choice([0o644, 0o755, 0o755])})
        if self.ch(self.p["scripts"]):
            for i in range(r.randint(1, 2)):
                nm = f"{name}-1.0.data/scripts/" + ["tool", "run-it"][i]
                e = self.member_elf(nm, ext=False, avail=self.libs if self.ch(0.7) else [], depth=2)
                if self.ch(self.p["interp"]):
                    e["interp"] = r.choice(self.p.get("interps", ["/lib64/ld-linux-x86-64.so.2", "/@/sys/ld/" + (self.ldso or "ld-musl-x.so.1")]))
                members.append({"p": nm, "t": "elf", "elf": e, "mode": r.choice([0o755, 0o755, 0o700, 0o644])})
        if self.ch(0.15):
            members.append({"p": f"{name}-1.0.data/scripts/plain", "data": "#!python\nprint(1)\n", "mode": 0o755})
        if self.ch(self.p["tool"]):
            e = self.member_elf("pkg/bin/tool", ext=False, avail=self.libs, depth=2)
            if self.ch(self.p["interp"]):
                e["interp"] = r.choice(self.p.get("interps", ["/lib64/ld-linux-x86-64.so.2", "/@/sys/b/" + (self.ldso or "ld-musl-x.so.1")]))
            members.append({"p": "pkg/bin/" + r.choice(["tool", "tool", "tool.exe", "table.txt", "code.pyc", "x.pyd", "a.out", "prog.bin", "mod.pyx", "lib.so.dbg"]), "t": "elf", "elf": e, "mode": 0o755})
        if self.ch(self.p["alien"]):
            a = r.choice([x for x in ("aarch64", "i686", "armv7l", "x32", "mips64") if x != self.arch])
            members.append({"p": "pkg/alien.so", "t": "elf", "mode": 0o644,
                            "elf": elf(id="alien", arch=a, needed=["libc.so.6"], syms=[S("PyInit_alien", d=True)])})
        if self.ch(0.15):
            members.append({"p": "pkg/data/table.bin", "t": "hex", "data": "00ff7f454c46" + "ab" * r.randint(0, 40), "mode": r.choice([0o644, 0o444, -1])})
        if self.ch(0.1):
            members.append({"p": "pkg/empty", "t": "dirent", "mode": 0o755})
        if self.ch(self.p["odd"]):
            have = {m["p"] for m in members}
            di = f"{name}-1.0.dist-info"
            for _ in range(r.randint(1, 3)):
                p = r.choice(["pkg/_vendor/other-2.0.dist-info/RECORD", "pkg/_vendor/other-2.0.dist-info/METADATA", "pkg/RECORD",
                              "pkg/_vendor/other-2.0.dist-info/WHEEL", f"pkg/{di}/RECORD", f"{name}-1.0.data/data/share/RECORD",
                              f"{di}/licenses/a,b.txt", 'pkg/a "quoted", name.txt', "pkg/with space", "pkg/é.txt", "pkg/_vendor/other-2.0.dist-info/RECORD.jws",
                              f"{di}/entry_points.txt", f"{di}/licenses/LICENSE", f"{di}/sub/RECORD", "pkg/x.py,sha256=abc,3", "pkg/it's", "RECORD", "pkg/trailing ", " lead.txt", "pkg/ both .txt ", "pkg/tab\tname", "pkg/line\nbreak.txt", "pkg/sep\u2028x.txt", "pkg/page\x0cfeed", "pkg/back\\slash.txt", "pkg/%41.txt",
                              "pkg/__pycache__/x.cpython-312.pyc", f"{di}/direct_url.json", f"{di}/RECORD.txt", f"{di}/record", f"{di}/p7s"])
                if p not in have:
                    have.add(p)
                    members.append({"p": p, "data": r.choice(["", "pkg/x,sha256=abc,1\n", "line\n" * r.randint(1, 40)]), "mode": r.choice([0o644, 0o644, 0o444, 0o755])})
        # texts whose bytes matter (drawn apart, so that the rest of the worlds stays as it was)
        rr = random.Random(f"{len(members)} {len(members[0]['data'])} {members[-1]['p']}")
        if rr.random() < 0.35:
            have = {m["p"] for m in members}
            for p in rr.choice([["pkg/dos.py"], []]) + rr.sample(["pkg/old.txt", "pkg/conf.json", "pkg/native.h", "pkg/run.sh", "pkg/x.pth", "top.py",
                                f"{name}-1.0.dist-info/METADATA.bak", f"{name}-1.0.dist-info/top_level.txt", "pkg/run.cmd"], rr.randint(1, 2)):
                if p not in have:
                    b = rr.choice([b"a = 1\r\nb = 2\r\n", b"a\rb\r", b"no end", b"\xef\xbb\xbfx = 1\n", b"caf\xe9 \xff\n", b"\0\0", b"\n\n\n", b" \t\n ",
                                   b"x\r\r\n\x1a", b"\r\n", b"tail  \n\t", b"#!python\r\n"])
                    members.append({"p": p, "t": "hex", "data": b.hex(), "mode": rr.choice([0o644, 0o664, 0o755])})
        if self.ch(0.3):
            r.shuffle(members)
        a = self.arch
        plat = f"linux_{a}"
        if self.ch(0.12):
            plat = r.choice(["any", f"manylinux_2_35_{a}", f"linux_{a}.manylinux_2_39_{a}", f"manylinux2014_{a}.manylinux_2_17_{a}"])
        plat = self.p.get("wplat") or plat
        py = r.choice(["cp312-cp312", "cp312-cp312", "cp39-abi3", "py2.py3-none"])
        w = {"fname": f"{name}-1.0-{r.choice(['', '', '', '1-'])}{py}-{plat}.whl", "members": members,
             "order": r.choice(["asis", "asis", "reversed", "recordfirst"]), "dirs": self.ch(0.3),
             "purelib": "true" if plat == "any" else "false"}
        if self.ch(0.1):
            members.append({"p": f"{name}-1.0.dist-info/RECORD.jws", "data": "{}"})
            w["record_skip"] = [f"{name}-1.0.dist-info/RECORD.jws"]
        if self.ch(0.1):
            w["extra_wheel"] = ["Build: 1"]
        if self.ch(self.p["record"]):
            # rows for files outside the wheel, and rows given twice
            real = [f["p"] for f in self.fs if f["t"] == "elf"] or ["/@/sys/none"]
            rows = []
            for _ in range(r.randint(1, 3)):
                f = r.choice(real)
                up = "../" * r.choice([2, 2, 1, 3])
                rows.append(r.choice([f, up + f[3:], "pkg/../" + up + f[3:], "./" + up + f[3:], "pkg/sub/../../" + up + f[3:],
                                      r.choice(members)["p"], "./" + members[0]["p"]]))
            w["record_extra"] = [[x, "", ""] for x in rows if not any(m["p"] == x and m.get("t") == "dirent" for m in members)]
        return w

    def options(self, st):
        r = self.r
        if self.ch(self.p["plat"]):
            st["plat"] = r.choice(PLATS)
            if st["plat"] != "auto" and self.ch(0.75):
                ok = [p for v, p in PLATV if v >= self.top]
                st["plat"] = r.choice(ok or ["auto"])
        q = self.p["opts"]
        if self.ch(0.15 * q):
            st["only_plat"] = True
        if self.ch(self.p.get("noupd", 0.12) * q):
            st["no_update_tags"] = True
        if self.ch(self.p.get("strip", 0.08) * q) and self.arch in ("x86_64", "i686"):
            st["strip"] = True      # the installed strip only knows x86
        if self.ch(0.15 * q):
            st["lib_sdir"] = r.choice(["_libs", ".dylibs", "libs"])
        if self.ch(0.12 * q):
            st["zlevel"] = r.choice([0, 1, 9])
        if self.ch(0.08 * q):
            st["noisa"] = True
        if self.ch(0.03 * q):
            st["patcher"] = "none"
        if self.ch(self.p["exclude"]):
            pats = []
            for _ in range(r.randint(1, 2)):
                s = r.choice(self.libs or ["libfoo.so.1"])
                if self.ch(0.2):
                    # the file behind the name
                    real = [f["to"] for f in self.fs if f["t"] == "link" and f["p"].endswith("/" + s)] + [s]
                    b = real[0].split("/")[-1]
                    pats.append(r.choice([b, "*" + b, "*" + b[:-1] + "?", "*/" + b, "/@/*" + b[3:], b[:-2] + "*"]))
                    continue
                pats.append(r.choice([s, s[:6] + "*", s.split(".")[0] + ".so.?", "*" + s[4:], "/@/sys/a/*", f"/@/sys/*/{s}*",
                                      s[:3] + "[" + s[3] + "-z]*", "nothing.so", "libown.so.1", s.upper(), "*/sys/b/*"]))
            st["exclude"] = pats
        r2 = r.random()
        if r2 < 0.75:
            st["ldpaths"] = LDP
        elif r2 < 0.85:
            st["ldpaths"] = "/@/sys/libc:/@/sys/none"
            st["env"] = {"AUDITWHEEL_LD_LIBRARY_PATH": r.choice(["/@/sys/b:/@/sys/a", "/@/sys/a:/@/sys/b", "/@/sys/b"])}
        else:
            st["ldpaths"] = "/@/sys/b:/@/sys/c:/@/sys/a:/@/sys/libc"
        if self.ch(0.1 * q):
            st.setdefault("env", {})["SOURCE_DATE_EPOCH"] = r.choice(["0", "315532799", "1", "1700000001", "2000000000", "951782399", ""])
        return st


def repair_world(rng, id_, **prof):
    w = World(rng, **prof)
    w.make_libs()
    wh = w.make_wheel()
    if rng.random() < 0.12 and not prof.get("version"):
        reversion(rng, wh)
    st = w.options({"op": "repair", "wheels": [f"/@/in/{wh['fname']}"]})
    return {"id": id_, "fs": w.fs, "wheels": [wh], "steps": [st]}


def reversion(r, wh):
    """Another version number than 1.0."""
    name = wh["fname"].split("-")[0]
    ver = r.choice(["1.0+cpu.1", "1!2.0", "2.0.post1", "0.1rc1", "2024.1.2.3+local", "1.0"])
    wh["fname"] = wh["fname"].replace(f"{name}-1.0-", f"{name}-{ver}-", 1)
    for m in wh["members"]:
        if m["p"].startswith(f"{name}-1.0."):
            m["p"] = f"{name}-{ver}." + m["p"][len(name) + 5:]
    if "record_skip" in wh:
        wh["record_skip"] = [f"{name}-{ver}." + p[len(name) + 5:] for p in wh["record_skip"]]
    for row in wh.get("record_extra", []):
        if row[0].startswith(f"{name}-1.0."):
            row[0] = f"{name}-{ver}." + row[0][len(name) + 5:]


def isa_world(rng, id_, **prof):
    """Extended instruction sets needed by libraries that some policies white-list and others do not."""
    p = dict(isa=0.45, sym_max=rng.choice([0, 2, 4, 6, 8]), ver=0.3, bad=0, black=0, missing=0, libpy=0)
    p.update(prof)
    w = World(rng, **p)
    w.pool = [x for x in POOL if x[0] in ("libexpat.so.1", "libmvec.so.1", "libz.so.1", "libfoo.so.1", "libgcc_s.so.1")]
    w.make_libs()
    wh = w.make_wheel()
    st = w.options({"op": "repair", "wheels": [f"/@/in/{wh['fname']}"]})
    if rng.random() < 0.7:
        st["plat"] = "auto"
    sh = {k: st[k] for k in ("wheels", "noisa", "ldpaths", "env") if k in st}
    sh.update(op="show", json=True, proc=0)
    st["proc"] = 1
    return {"id": id_, "fs": w.fs, "wheels": [wh], "steps": [sh, st]}


def dup_world(rng, id_, **prof):
    """Files of one name in several directories, taken by different binaries: equal, nearly equal, different."""
    r = rng
    w = World(r, **{**dict(nlibs=(1, 3), exts=(2, 3), nonpy=(0, 1), dup=0, bad=0, black=0, isa=0, missing=0, rpath=0, ver=0.1), **prof})
    w.make_libs()
    big = r.random() < 0.2
    for f in [f for f in w.fs if f["t"] == "elf" and f["p"].split("/")[3] in ("a", "b")]:
        if big:
            f["elf"]["pad"] = 1 << 20
        for od in ("a", "b", "c"):
            b = f["p"].split("/")[-1]
            p = f"/@/sys/{od}/{b}"
            if any(g["p"] == p for g in w.fs) or not r.random() < 0.65:
                continue
            e = dict(f["elf"])
            k = r.random()
            if k < 0.2 and not big:
                e["needed"] = e["needed"][::-1]
            if k > 0.25:
                e["id"] = w.ident(e["id"].split("#")[0])     # the very end of the file
            w.fs.append({"p": p, "t": "elf", "elf": e, "mode": r.choice([0o644, 0o755, 0o555])})
            for l in [l for l in w.fs if l["t"] == "link" and l["p"].startswith(f["p"].rsplit("/", 1)[0] + "/") and l["to"].endswith(b)]:
                q = f"/@/sys/{od}/" + l["p"].split("/")[-1]
                if not any(g["p"] == q for g in w.fs):
                    w.fs.append({"p": q, "t": "link", "to": b})
    wh = w.make_wheel()
    for m in wh["members"]:
        if m.get("t") == "elf" and r.random() < 0.75:
            m["elf"][r.choice(["rpath", "runpath"])] = ":".join(r.sample(["/@/sys/a", "/@/sys/b", "/@/sys/c"], r.choice([1, 1, 2])) +
                                                                 [x for x in (m["elf"]["rpath"] or m["elf"]["runpath"]).split(":") if x])
    st = w.options({"op": "repair", "wheels": [f"/@/in/{wh['fname']}"]})
    if r.random() < 0.8:
        st["plat"] = "auto"
    if r.random() < 0.3:      # some binaries find nothing, or only what their own search path leads to
        st.pop("env", None)
        st["ldpaths"] = r.choice(["/@/sys/libc", "/@/sys/c:/@/sys/libc"])
    return {"id": id_, "fs": w.fs, "wheels": [wh], "steps": [st]}


def fixup_world(rng, id_, **prof):
    """Libraries of the wheel whose own dependencies only resolve in the tree of an extension that uses them."""
    r = rng
    w = World(r, **{**dict(nlibs=(3, 6), exts=(1, 3), nonpy=(1, 3), dup=0, bad=0, black=0, isa=0, missing=0.02, rpath=0, ver=0.2, alien=0, nolibc=0), **prof})
    w.make_libs()
    wh = w.make_wheel()
    for m in wh["members"]:
        if m.get("t") != "elf":
            continue
        e = m["elf"]
        ext = any(s["n"].startswith("PyInit_") for s in e["syms"])
        paths = [x for x in (e["rpath"] or e["runpath"]).split(":") if x.startswith("$ORIGIN")]
        if ext and r.random() < 0.85:
            paths += ["/@/sys/a", "/@/sys/b"]
        if ext:
            e["rpath"], e["runpath"] = (":".join(paths), "") if r.random() < 0.9 else ("", ":".join(paths))
        elif r.random() < 0.15:
            e["rpath"], e["runpath"] = ":".join([*paths, "/@/sys/a"]), ""
    st = w.options({"op": "repair", "wheels": [f"/@/in/{wh['fname']}"]})
    if r.random() < 0.8:
        st["plat"] = "auto"
    st.pop("env", None)
    st["ldpaths"] = r.choice(["/@/sys/libc", "/@/sys/libc", "/@/sys/libc:/@/sys/b"])
    return {"id": id_, "fs": w.fs, "wheels": [wh], "steps": [st]}


LOOKALIKES = [("libpython3helper.so", "libboost_python311.so"), ("libpython.so", "python3.so"), ("libpython3.11-ext.so", "libmypython3.so"),
              ("xlibpython3.so", "libpython3.11.so.dbg.so"), ("libpython311x.so", "libpython3_11.so")]


def lookalike(make, p=0.4):
    """Worlds in which libraries have names that resemble the interpreter's."""
    def world(rng, id_):
        s = make(rng, id_)
        if rng.random() >= p:
            return s
        a, b = rng.choice(LOOKALIKES)

        def sub(x):
            if isinstance(x, str):
                return x.replace("libfoo.so", a).replace("libbar.so", b)
            if isinstance(x, dict):
                return {sub(k): sub(v) for k, v in x.items()}
            return type(x)(sub(v) for v in x) if isinstance(x, (list, tuple, set)) else x
        return sub(s)
    return world


def unicode_world(rng, id_, **prof):
    """Several extensions of either Python, some with narrow unicode or fpectl symbols."""
    r = rng
    w = World(r, **{**dict(nlibs=(0, 2), exts=(2, 3), nonpy=(0, 2), dup=0, bad=0, black=0, isa=0, missing=0, rpath=0, ver=0.1), **prof})
    w.make_libs()
    wh = w.make_wheel()
    p = r.choice([0, 0.3, 0.5])
    for m in wh["members"]:
        if m.get("t") != "elf":
            continue
        e = m["elf"]
        if e["syms"] and e["syms"][0]["n"].startswith("PyInit_") and r.random() < 0.7:
            e["syms"][0] = S(r.choice(["init", "init", "_cffi_pypyinit_"]) + e["syms"][0]["n"][7:], d=True)
        if r.random() < p:
            e["syms"].append(r.choice([S("PyUnicodeUCS2_Foo"), S("PyUnicodeUCS2_Resize"), S("PyUnicodeUCS2_FromObject", d=True), S("PyUnicodeUCS4_Foo"), S("_PyUnicodeUCS2_AsDefaultEncodedString"),
                                       S("PyFPE_jbuf", t="OBJECT"), S("PyFPE_jbuf", t="NOTYPE"), S("PyFPE_jbuf", d=True), S("PyFPE_counter")]))
            r.shuffle(e["syms"])
    st = w.options({"op": "repair", "wheels": [f"/@/in/{wh['fname']}"]})
    if r.random() < 0.6:
        st["plat"] = "auto"
    sh = {k: st[k] for k in ("wheels", "noisa", "ldpaths", "env") if k in st}
    sh.update(op="show", json=True, proc=0)
    st["proc"] = 1
    return {"id": id_, "fs": w.fs, "wheels": [wh], "steps": [sh, st]}


def unicode_text_world(rng, id_, **prof):
    """What the report says about such wheels."""
    s = unicode_world(rng, id_, **prof)
    st = {k: v for k, v in s["steps"][0].items()}
    st.update(json=False)
    if rng.random() < 0.5:
        st["verbose"] = rng.choice([1, 2])
    s["steps"] = [st]
    return s


def show_world(rng, id_, text=False, **prof):
    """Reports only (JSON and text)."""
    w = World(rng, **prof)
    w.make_libs()
    wh = w.make_wheel()
    steps = []
    for js in rng.choice([[True], [True, False], [True]] if not text else [[True, False], [False]]):
        st = w.options({"op": "show", "json": js, "wheels": [f"/@/in/{wh['fname']}"]})
        st = {k: st[k] for k in ("op", "json", "wheels", "noisa", "ldpaths", "env") if k in st}
        if not js and rng.random() < 0.4:
            st["verbose"] = rng.choice([1, 1, 2])
        st["proc"] = len(steps)
        steps.append(st)
    if rng.random() < 0.3:
        steps[0]["pure"] = True
    return {"id": id_, "fs": w.fs, "wheels": [wh], "steps": steps}


def show_repair_world(rng, id_, **prof):
    """A report and a repair of the same wheel."""
    s = repair_world(rng, id_, **prof)
    rp = s["steps"][0]
    rp["proc"] = 1
    sh = {k: rp[k] for k in ("wheels", "noisa", "ldpaths", "env") if k in rp}
    sh.update(op="show", json=True, proc=0)
    s["steps"] = [sh, rp]
    return s


# ---------------------------------------------------------------- C10
ARCHS = ["x86_64", "i686", "aarch64", "armv7l", "ppc64le", "s390x", "riscv64", "loongarch64", "ppc64"]
ODD = ["x32", "mips64", "armv7l_soft", "armv7l_eabi4", "armv7l_none", "armv7l_nofloat", "armv7l_both", "aarch64_be"]
WPLATS = ["linux_{a}", "any", "manylinux_2_17_{a}", "manylinux2014_{a}.manylinux_2_17_{a}", "musllinux_1_2_{a}", "linux_{b}",
          "linux_{a}.linux_{b}", "any.linux_{a}", "manylinux_2_28_{a}.musllinux_1_1_{a}", "macosx_11_0_universal2", "win_amd64",
          "linux_{a}.macosx_11_0_universal2", "android_24_{c}", "android_30_{c}", "manylinux_2_39_{b}", "linux_x86_64_v3", "weird"]


def ident_world(rng, id_, op=None, **_):
    r = rng
    a = r.choice(ARCHS[:4] * 2 + ARCHS + ["ppc64le", "ppc64le"])
    b = r.choice(ARCHS)
    mixed = r.random() < 0.15       # names of architectures that contain one another
    arms = not mixed and r.random() < 0.12
    near = ["ppc64", "ppc64le", "x86_64"]
    if mixed:
        a = r.choice(["ppc64le", "ppc64"])
    if arms:
        a, near, mixed = "armv7l", ["armv7l_soft", "armv7l_eabi4", "armv7l_none", "armv7l_nofloat", "armv7l_both"], True
    c = r.choice(["arm64_v8a", "x86_64"])
    plat = r.choice(WPLATS[:4] + WPLATS).format(a=a, b=b, c=c)
    members = [{"p": "pkg/__init__.py", "data": ""}]
    fs = []
    mainlibc = r.choice(["glibc", "glibc", "musl", "none"])
    if plat.startswith("android"):
        mainlibc = "none"
    for i in range(r.randint(1, 3)):
        arch = a if r.random() < (0.5 if mixed else 0.75) else r.choice(near if mixed else ARCHS + ODD)
        libc = mainlibc if r.random() < 0.8 else r.choice(["glibc", "musl", "none", "both"])
        needed = []
        base = arch.split("_")[0] if arch.startswith(("armv7l", "aarch64")) else arch
        if libc in ("glibc", "both"):
            needed.append("libc.so.6" if r.random() < 0.8 else LDSO.get(base, "ld-linux.so.2"))
        if libc in ("musl", "both"):
            needed.append(MUSL_SO.get(base, "libc.musl-x86.so.1") if r.random() < 0.8 else f"ld-musl-{base}.so.1")
        if plat.startswith("android"):
            needed.append("libc.so")
        if r.random() < 0.2:
            needed.append("libz.so.1")
        mod = ["_one", "_two", "tri"][i]
        suf = r.choice([".so", f".cpython-312-{arch}-linux-gnu.so", f".cpython-312-{arch}-linux-musl.so",
                        f".cpython-{r.choice([37, 310, 310, 311, 313, "313t", "314t", "312d"])}-{arch}-linux-gnu.so", f".cpython-39-{arch}-linux-gnu.so", ".cpython-311-arm-linux-gnueabihf.so",
                        ".cpython-310-arm-linux-musleabihf.so", ".abi3.so", ".foo-312-x86_64-linux-gnu.so", f".pypy311-pp73-{arch}-linux-gnu.so"])
        ext = r.random() < 0.7
        syms = [S(r.choice(["PyInit_", "PyInit_", "init", "_cffi_pypyinit_"]) + mod, d=True)] if ext else \
            r.choice([[], [S("PyInit_other", d=True)], [S("PyInit_" + mod, d=False)], [S("PyInit_" + mod, d=False)], [S("PyInit_" + mod, d=True, t="OBJECT")]])
        d = r.choice(["pkg/", "pkg/", "", "pkg/purelib/" if r.random() < 0.15 else "pkg/sub/",
                      r.choice(["pkg-1.0.data/purelib/", "pkg-1.0.data/purelib/in/side/", "pkg/purelib/deep/"]) if r.random() < 0.15 else "pkg-1.0.data/platlib/"])
        e = elf(id=f"m{i}", arch=arch, needed=needed, syms=syms, osabi=r.choice([0, 0, 0, 3, 9]))
        if r.random() < 0.15:
            e["interp"] = r.choice(["/lib64/ld-linux-x86-64.so.2", f"/lib/ld-musl-{base}.so.1"])
        members.append({"p": d + mod + suf, "t": "elf", "elf": e, "mode": 0o755})
    if r.random() < 0.1:
        members = [m for m in members if m.get("t") != "elf"]
    wh = {"fname": f"pkg-1.0-cp312-cp312-{plat}.whl", "members": members}
    st = {"op": op or r.choice(["show", "show", "repair"]), "json": True, "wheels": [f"/@/in/{wh['fname']}"],
          "ldpaths": "/@/sys/none"}
    scn = {"id": id_, "fs": fs, "wheels": [wh], "steps": [st]}
    host = {}
    if r.random() < 0.4:
        m = r.choice(["x86_64", "aarch64", "ppc64le", "s390x", "riscv64"] + [a] * (6 if a in ("aarch64", "ppc64le", "s390x", "riscv64") else 0))
        host["machine"] = m
        if st["op"] == "repair" and r.random() < 0.7:
            st["plat"] = f"manylinux_2_{r.choice([17, 28, 34] if m != 'riscv64' else [31, 39])}_{m}"
            if m == "ppc64le" or m == "s390x":
                st["plat"] = f"manylinux_2_17_{m}"
    elif st["op"] == "repair" and r.random() < 0.4:
        st["plat"] = r.choice(["manylinux_2_17_x86_64", "manylinux_2_28_x86_64"])
    if r.random() < 0.25 and not host.get("machine"):
        v = r.choice(["1_1", "1_2", "1_2"])
        host.update(libc="musl", musl="musllinux_" + v)
        if st["op"] == "repair" and st.get("plat", "auto") != "auto":
            st["plat"] = f"musllinux_{v}_x86_64"
    if host:
        scn["host"] = host
        st["patch"] = {k: v for k, v in host.items() if k in ("machine", "musl")}
    if r.random() < 0.2:
        st["pure"] = True
    return scn


# ---------------------------------------------------------------- C22
def musl_world(rng, id_, **prof):
    r = rng
    arch = r.choice(["x86_64", "x86_64", "x86_64", "aarch64", "i686", "s390x", "ppc64le", "armv7l", "riscv64", "loongarch64"])
    w = World(r, flavour="musl", arch=arch, ver=0, isa=0, plat=0, interps=[f"/lib/ld-musl-{arch}.so.1"], interp=0.5,
              wplat=r.choice([f"linux_{arch}", f"linux_{arch}", f"musllinux_1_2_{arch}", f"musllinux_1_1_{arch}", f"manylinux_2_28_{arch}", "any"]), **prof)
    w.make_libs()
    wh = w.make_wheel()
    st = w.options({"op": "repair", "wheels": [f"/@/in/{wh['fname']}"]})
    st.pop("plat", None)
    host = {}
    if r.random() < 0.75:
        v = r.choice(["1_1", "1_2", "1_2"])
        host = {"libc": "musl", "musl": "musllinux_" + v}
        if r.random() < 0.5:
            st["plat"] = f"musllinux_{v}_x86_64"
    elif r.random() < 0.2:
        st["plat"] = "manylinux_2_34_x86_64"
    scn = {"id": id_, "fs": w.fs, "wheels": [wh], "steps": [st]}
    return _with_show(r, scn, host)


def _with_show(r, scn, host):
    st = scn["steps"][0]
    if host:
        scn["host"] = host
        st["patch"] = {k: v for k, v in host.items() if k in ("machine", "musl")}
    sh = {k: st[k] for k in ("wheels", "noisa", "ldpaths", "env", "patch") if k in st}
    sh.update(op="show", json=True, proc=1)
    if r.random() < 0.5:
        scn["steps"].append(sh)
    return scn


def foreign_world(rng, id_, **prof):
    """A glibc wheel of another architecture: its own policies, loader names and symbol versions."""
    from gen3 import TAB
    r = rng
    arch = r.choice(["aarch64", "aarch64", "s390x", "ppc64le", "ppc64le", "armv7l", "riscv64", "loongarch64", "i686", "ppc64"])
    tabs = [t for t in TAB["glibc"] if arch in t.get("symbol_versions", {})]
    wplat = r.choice([f"linux_{arch}"] * 4 + [f"{tabs[-1]['name']}_{arch}", f"linux_{arch}.{tabs[0]['name']}_{arch}", "any"])
    w = World(r, **{**dict(arch=arch, isa=0, plat=0, bad=0.03, black=0.08, missing=0.01, nolibc=0, wplat=wplat, interps=["/lib/" + LDSO[arch], "/lib64/" + LDSO[arch]], interp=0.3), **prof})
    w.make_libs()
    wh = w.make_wheel()
    old = r.choice(tabs + [tabs[0]] * len(tabs))["symbol_versions"][arch]

    def vers(fam, new):
        tab = r.choice(tabs)["symbol_versions"][arch] if new else old
        return [fam + "_" + v for v in tab.get(fam, [])]
    for o in [f for f in w.fs if f.get("t") == "elf"] + [m for m in wh["members"] if m.get("t") == "elf"]:
        for x in o["elf"]["vn"]:
            if x["l"].startswith("ld-linux"):
                x["l"] = LDSO[arch]
                x["v"] = ["GLIBC_2.17", "GLIBC_2.44"]
                continue
            if x["l"] == "libc.so.6" and r.random() < 0.15:
                # what is required of the loader itself is not a requirement on the policy
                x["l"], x["v"] = LDSO[arch], ["GLIBC_2.44"]
                continue
            out = []
            for v in x["v"]:
                fam = v.split("_")[0]
                c = vers(fam, r.random() < 0.12) if fam in ("GLIBC", "GLIBCXX", "CXXABI", "GCC", "ZLIB") else []
                out.append(r.choice(c) if c and r.random() < 0.97 else v)
            x["v"] = list(dict.fromkeys(out))
    st = w.options({"op": "repair", "wheels": [f"/@/in/{wh['fname']}"]})
    st.pop("plat", None)
    host = {}
    if r.random() < 0.6 and arch not in ("i686", "armv7l", "ppc64"):
        host = {"machine": arch}
        if r.random() < 0.8:
            t = r.choice(tabs)
            st["plat"] = r.choice([t["name"], *t["aliases"]]) + "_" + arch
    scn = {"id": id_, "fs": w.fs, "wheels": [wh], "steps": [st]}
    return _with_show(r, scn, host)


ANDROID_LIBS = [("libfoo.so", None), ("libbar.so", None), ("libvulkan.so", None), ("libaaudio.so", None),
                ("libcamera2ndk.so", None), ("libsync.so", None), ("libneuralnetworks.so", None), ("liblog.so", None)]


def android_world(rng, id_, **prof):
    r = rng
    arch = r.choice(["aarch64", "aarch64", "x86_64"])
    tagarch = {"aarch64": "arm64_v8a", "x86_64": "x86_64"}[arch]
    lvl = r.choice([16, 20, 21, 22, 23, 24, 24, 25, 26, 27, 28, 30, 33, 100])
    plat = f"android_{lvl}_{tagarch}"
    q = r.random()
    if q < 0.06:
        plat = r.choice([f"android_{lvl}_{tagarch}.android_21_{tagarch}", f"android_x_{tagarch}", f"android_{tagarch}"])
    w = World(r, flavour="android", arch=arch, ver=0, isa=0, plat=0, black=0, libpy=0.25, wplat=plat, **prof)
    w.pool = ANDROID_LIBS
    w.make_libs()
    wh = w.make_wheel()
    st = w.options({"op": "repair", "wheels": [f"/@/in/{wh['fname']}"]})
    st.pop("plat", None)
    if r.random() < 0.25:
        # the build machine's libraries must not be used
        st.pop("ldpaths", None)
        st.setdefault("env", {})["LD_LIBRARY_PATH"] = LDP
        if r.random() < 0.4:
            st["env"]["AUDITWHEEL_LD_LIBRARY_PATH"] = LDP
    scn = {"id": id_, "fs": w.fs, "wheels": [wh], "steps": [st]}
    return _with_show(r, scn, {})
