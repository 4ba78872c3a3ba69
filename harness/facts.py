"""Projection of real artefacts (ELF files, wheels, directories) to the JSON
vocabulary of the TLA+ specification.  Nothing here imports auditwheel."""
from __future__ import annotations

import base64
import csv
import hashlib
import io
import json
import os
import stat
import struct
import urllib.parse
import zipfile
from email.parser import Parser

# (class, little, machine) -> name of the machine in the specification
MACH = {
    (64, True, 62): "x86_64", (32, True, 62): "x32", (32, True, 3): "i686",
    (64, True, 183): "aarch64", (32, True, 40): "armv7l", (64, True, 21): "ppc64le",
    (64, False, 21): "ppc64", (64, False, 22): "s390x", (64, True, 243): "riscv64",
    (64, True, 258): "loongarch64", (64, False, 8): "mips64",
}
BIND = {0: "LOCAL", 1: "GLOBAL", 2: "WEAK"}
TYPE = {0: "NOTYPE", 1: "OBJECT", 2: "FUNC"}


def sha256(data: bytes) -> str:
    return hashlib.sha256(data).hexdigest()


class BadElf(Exception):
    pass


def elf_facts(data: bytes) -> dict | None:
    """Facts about an ELF image; None if it is not ELF."""
    if data[:4] != b"\x7fELF" or len(data) < 6 or data[4] not in (1, 2) or data[5] not in (1, 2):
        return None
    if len(data) < (64 if data[4] == 2 else 52):
        return None     # not a complete header
    try:
        return _elf_facts(data)
    except (struct.error, IndexError, ValueError, KeyError) as e:
        return {"bad": f"{type(e).__name__}: {e}"}


def _elf_facts(data: bytes) -> dict:
    is64 = data[4] == 2
    little = data[5] == 1
    osabi = data[7]
    E = "<" if little else ">"
    if is64:
        (etype, machine, _, entry, phoff, shoff, flags, _, phes, phn, shes, shn, shstrndx) = \
            struct.unpack_from(E + "HHIQQQIHHHHHH", data, 16)
    else:
        (etype, machine, _, entry, phoff, shoff, flags, _, phes, phn, shes, shn, shstrndx) = \
            struct.unpack_from(E + "HHIIIIIHHHHHH", data, 16)
    cls = 64 if is64 else 32
    mach = MACH.get((cls, little, machine), f"m{machine}_{cls}_{int(little)}")
    abi = "ok"
    if mach == "armv7l":
        if flags & 0xFF000000 != 0x05000000:
            abi = "eabi"
        elif flags & 0x400 != 0x400:
            abi = "soft"
    ph = []
    for i in range(phn):
        o = phoff + i * phes
        if is64:
            t, fl, off, va, pa, fs, ms, al = struct.unpack_from(E + "IIQQQQQQ", data, o)
        else:
            t, off, va, pa, fs, ms, fl, al = struct.unpack_from(E + "IIIIIIII", data, o)
        ph.append((t, off, va, fs, ms))

    def v2o(v):
        for t, off, va, fs, ms in ph:
            if t == 1 and va <= v < va + fs:
                return v - va + off
        raise ValueError(f"unmapped {v:#x}")

    def cstr(o):
        e = data.index(b"\0", o)
        return data[o:e].decode("utf-8", "surrogateescape")

    interp = ""
    dyn = []
    has_dyn = False
    for t, off, va, fs, ms in ph:
        if t == 3 and not interp:
            interp = data[off:off + fs].split(b"\0")[0].decode()
        if t == 2 and not has_dyn:
            has_dyn = True
            step = 16 if is64 else 8
            for o in range(off, off + fs, step):
                tag, val = struct.unpack_from(E + ("qQ" if is64 else "iI"), data, o)
                if tag == 0:
                    break
                dyn.append((tag, val))
    d = dict(dyn)
    needed, soname, rpath, runpath = [], "", "", ""
    rpaths = 0
    if has_dyn and 5 in d:
        st = v2o(d[5])
        for tag, val in dyn:
            if tag == 1:
                needed.append(cstr(st + val))
            elif tag == 14:
                soname = cstr(st + val)
            elif tag == 15:
                rpath = cstr(st + val)
                rpaths += 1
            elif tag == 29:
                runpath = cstr(st + val)
    # sections
    secs = []
    if shoff and shn:
        raw = []
        for i in range(shn):
            o = shoff + i * shes
            if is64:
                r = struct.unpack_from(E + "IIQQQQIIQQ", data, o)
            else:
                r = struct.unpack_from(E + "IIIIIIIIII", data, o)
            raw.append(r)
        so = raw[shstrndx][4]
        for r in raw:
            secs.append((cstr(so + r[0]), r))
    by = {n: r for n, r in secs}
    ident = ""
    if ".vident" in by:
        r = by[".vident"]
        b = data[r[4]:r[4] + r[5]]
        if b.startswith(b"VIDENT:"):
            ident = b[7:].rstrip(b"\0").decode()
    vn = []
    if ".gnu.version_r" in by:
        r = by[".gnu.version_r"]
        st = secs[r[6]][1][4]
        o = r[4]
        for _ in range(r[7]):
            ver, cnt, fil, aux, nxt = struct.unpack_from(E + "HHIII", data, o)
            vs = []
            a = o + aux
            for _ in range(cnt):
                h, f2, oth, nm, anx = struct.unpack_from(E + "IHHII", data, a)
                vs.append(cstr(st + nm))
                a += anx
            vn.append({"l": cstr(st + fil), "v": vs})
            o += nxt
    syms = []
    if ".dynsym" in by:
        r = by[".dynsym"]
        st = secs[r[6]][1][4]
        n = r[5] // (24 if is64 else 16)
        for i in range(1, n):
            if is64:
                nm, info, oth, shx, v, sz = struct.unpack_from(E + "IBBHQQ", data, r[4] + i * 24)
            else:
                nm, v, sz, info, oth, shx = struct.unpack_from(E + "IIIBBH", data, r[4] + i * 16)
            syms.append({"n": cstr(st + nm), "d": shx != 0,
                         "b": BIND.get(info >> 4, str(info >> 4)),
                         "t": TYPE.get(info & 15, str(info & 15))})
    isa = -1
    if ".note.gnu.property" in by:
        r = by[".note.gnu.property"]
        b = data[r[4]:r[4] + r[5]]
        if len(b) >= 28 and b[12:16] == b"GNU\0":
            pt, psz, pv = struct.unpack_from(E + "III", b, 16)
            if pt == 0xC0008002:
                isa = pv
    def section(n):
        return data[by[n][4]:by[n][4] + by[n][5]].rstrip(b"\0").decode("latin-1") if n in by else ""
    symtab = []
    if ".symtab" in by:
        r = by[".symtab"]
        st = secs[r[6]][1][4]
        size = 24 if is64 else 16
        symtab = [nm for nm in (cstr(st + struct.unpack_from(E + "I", data, r[4] + i * size)[0]) for i in range(1, r[5] // size)) if nm]
    return {
        "bad": "", "id": ident, "mach": mach, "abi": abi, "osabi": osabi, "interp": interp,
        "dyn": has_dyn, "soname": soname, "needed": needed, "rpath": rpath, "runpath": runpath,
        "vn": vn, "syms": syms, "isa": isa, "symtab": symtab, "debug": ".debug_str" in by, "comment": section(".comment"),
    }


def wheel_facts(path: str, sub=lambda s: s, *, raw: bool = False) -> dict:
    """Everything the specification looks at in a wheel file."""
    try:
        return _wheel_facts(path, sub)
    except (zipfile.BadZipFile, OSError, ValueError, EOFError, NotImplementedError) as e:
        return {"ok": False, "err": f"{type(e).__name__}: {e}", "fname": os.path.basename(path),
                "sha": "", "size": 0, "name": "", "prefix": "", "plats": [], "ents": [], "record": [],
                "wmeta": {"tags": [], "purelib": "", "has": False, "other": []}, "dist": [],
                "hassbom": False, "bom": bom_facts({}), "shims": []}


def _wheel_facts(path, sub):
    fname = os.path.basename(path)
    st = os.stat(path)
    with open(path, "rb") as f:
        whole = sha256(f.read())
    entries = []
    record = []
    wheelmeta = {"tags": [], "purelib": "", "has": False, "other": []}
    sbom = None
    dist = set()
    with zipfile.ZipFile(path) as z:
        for zi in z.infolist():
            data = z.read(zi)
            attr = zi.external_attr >> 16
            e = {"n": zi.filename, "dir": zi.is_dir(), "mode": attr & 0o7777, "fmt": stat.S_IFMT(attr) >> 12,
                 "date": list(zi.date_time), "ct": zi.compress_type, "size": len(data),
                 "csize": zi.compress_size, "sha": sha256(data),
                 "b64": base64.urlsafe_b64encode(hashlib.sha256(data).digest()).rstrip(b"=").decode()}
            ef = elf_facts(data) if not zi.is_dir() else None
            e["elf"] = ef is not None
            if ef is not None:
                for k in ("rpath", "runpath", "interp"):
                    if k in ef:
                        ef[k] = sub(ef[k])
                e["e"] = ef
            entries.append(e)
            parts = zi.filename.split("/")
            if parts[0].endswith(".dist-info"):
                dist.add(parts[0])
            if len(parts) == 2 and parts[0].endswith(".dist-info"):
                if parts[1] == "RECORD":
                    try:
                        rows = list(csv.reader(io.StringIO(data.decode("utf-8"), newline="")))
                        record = [{"n": r[0], "h": r[1] if len(r) > 1 else "?", "s": r[2] if len(r) > 2 else "?",
                                   "w": len(r)} for r in rows if r]
                    except (UnicodeDecodeError, csv.Error):
                        record = [{"n": "?undecodable", "h": "", "s": "", "w": 0}]
                elif parts[1] == "WHEEL":
                    m = Parser().parsestr(data.decode("utf-8", "replace"))
                    wheelmeta = {"tags": m.get_all("Tag") or [], "purelib": (m.get("Root-Is-Purelib") or ""),
                                 "has": True,
                                 "other": sorted(f"{k}: {v}" for k, v in m.items()
                                                 if k not in ("Tag", "Root-Is-Purelib"))}
            if zi.filename.endswith(".dist-info/sboms/auditwheel.cdx.json"):
                try:
                    sbom = json.loads(data)
                except ValueError:
                    sbom = {"bad": True}
    prefix, plat = fname[:-4].rsplit("-", 1) if fname.endswith(".whl") and "-" in fname else (fname, "")
    parts = prefix.split("-")
    return {"ok": True, "err": "", "fname": fname, "sha": whole, "size": st.st_size,
            "name": parts[0], "prefix": prefix, "plats": plat.split("."), "ents": entries,
            "record": record, "wmeta": wheelmeta, "dist": sorted(dist),
            "hassbom": sbom is not None, "bom": bom_facts(sbom if sbom is not None else {}), "shims": []}


def bom_facts(b: dict) -> dict:
    """CycloneDX document -> flat facts; total on malformed documents."""
    out = {"wellformed": False, "comps": [], "deps": [], "fname": "", "wheelpurl": "", "main": ""}
    try:
        comps = [{"name": c["name"], "version": c["version"], "purl": c["purl"], "ref": c["bom-ref"],
                  "type": c["type"]} for c in b["components"]]
        refs = [c["ref"] for c in comps]
        main = b["metadata"]["component"]
        deps = b["dependencies"]
        maindep = [d for d in deps if d["ref"] == main["bom-ref"]]
        wellformed = (b["bomFormat"] == "CycloneDX" and b["specVersion"] == "1.4" and b["version"] == 1
                      and all(c["type"] == "library" for c in comps)
                      and sorted(d["ref"] for d in deps) == sorted(refs)
                      and len(maindep) == 1
                      and any(t["name"] == "auditwheel" for t in b["metadata"]["tools"])
                      and all(d is maindep[0] or not d.get("dependsOn") for d in deps))
        purl = main["purl"]
        q = urllib.parse.parse_qs(purl.partition("?")[2])
        base = "pkg:pypi/%s@%s?file_name=" % (urllib.parse.quote(main["name"], safe=""),
                                              urllib.parse.quote(main["version"], safe=""))
        out = {"wellformed": wellformed, "comps": comps, "deps": maindep[0]["dependsOn"] if maindep else [],
               "fname": (q.get("file_name") or [""])[0], "main": main["bom-ref"],
               "wheelpurl": base + purl.partition("file_name=")[2]}
    except (KeyError, TypeError, AttributeError, IndexError):
        pass
    return out


def tree_facts(root: str, sub=lambda s: s, elf=True) -> list[dict]:
    """Files of a directory tree (path, kind, mode, content hash, ELF facts)."""
    out = []
    for d, dn, fn in os.walk(root):
        dn.sort()
        out.append({"p": sub(d), "t": "dir"})
        for f in sorted(fn + [x for x in dn if os.path.islink(os.path.join(d, x))]):
            p = os.path.join(d, f)
            if os.path.islink(p):
                out.append({"p": sub(p), "t": "link", "to": sub(os.readlink(p))})
                continue
            try:
                st = os.lstat(p)
                with open(p, "rb") as fh:
                    data = fh.read()
            except OSError:
                out.append({"p": sub(p), "t": "unreadable"})
                continue
            e = {"p": sub(p), "t": "file", "sha": sha256(data), "mode": stat.S_IMODE(st.st_mode)}
            if elf:
                ef = elf_facts(data)
                if ef is not None:
                    for k in ("rpath", "runpath", "interp"):
                        if k in ef:
                            ef[k] = sub(ef[k])
                    e["t"] = "elf"
                    e["e"] = ef
            out.append(e)
    return out


def listing(root: str) -> dict[str, str]:
    """path -> fingerprint (mode, type, content) of every file below root."""
    out = {}
    for d, dn, fn in os.walk(root):
        for f in fn + dn:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, root)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                out[rel] = "L" + os.readlink(p)
            elif stat.S_ISDIR(st.st_mode):
                out[rel] = f"D{stat.S_IMODE(st.st_mode):o}"
            else:
                try:
                    with open(p, "rb") as fh:
                        out[rel] = f"F{stat.S_IMODE(st.st_mode):o}:" + sha256(fh.read())
                except OSError:
                    out[rel] = f"F{stat.S_IMODE(st.st_mode):o}:?"
    return out
