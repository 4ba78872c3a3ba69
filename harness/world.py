"""Materialises abstract worlds (system libraries + wheels) as real files.

Abstract paths start with "/@", the scratch root of the scenario."""
from __future__ import annotations

import base64
import csv
import hashlib
import io
import os
import warnings
import zipfile

from elfgen import build_elf

DEFAULT_ELF = dict(id="", arch="x86_64", soname="", needed=[], rpath="", runpath="", vn=[], syms=[],
                   interp="", isa=-1, osabi=0, dyn=True, pad=0, symtab=[])


def elf(**kw):
    d = dict(DEFAULT_ELF)
    for k, v in kw.items():
        assert k in d, k
        d[k] = v
    return d


def elf_bytes(e: dict, real) -> bytes:
    e = {**DEFAULT_ELF, **e}
    return build_elf(
        arch=e["arch"], ident=e["id"], soname=e["soname"] or None, needed=e["needed"],
        rpath=real(e["rpath"]) if e["rpath"] else None,
        runpath=real(e["runpath"]) if e["runpath"] else None,
        verneed=[(x["l"], x["v"]) for x in e["vn"]],
        symbols=[(s["n"], s["d"], s["b"], s["t"]) for s in e["syms"]],
        interp=real(e["interp"]) if e["interp"] else None,
        isa=None if e["isa"] < 0 else e["isa"], osabi=e["osabi"], dynamic=e["dyn"], pad=e["pad"], symtab=e["symtab"])


def file_bytes(m: dict, real) -> bytes:
    t = m.get("t", "text")
    if t == "elf":
        return elf_bytes(m["elf"], real)
    if t == "hex":
        return bytes.fromhex(m["data"])
    return m.get("data", "").encode("utf-8")


def mkfs(fs: list[dict], real) -> None:
    for f in fs:
        p = real(f["p"])
        if f["t"] == "dir":
            os.makedirs(p, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if f["t"] == "link":
            os.symlink(real(f["to"]), p)
        else:
            with open(p, "wb") as fh:
                fh.write(file_bytes(f, real))
            os.chmod(p, f.get("mode", 0o644))


def b64sha(data: bytes) -> str:
    return "sha256=" + base64.urlsafe_b64encode(hashlib.sha256(data).digest()).rstrip(b"=").decode()


def wheel_tags(fname: str) -> list[str]:
    py, abi, plat = fname[:-4].split("-")[-3:]
    return [f"{p}-{a}-{q}" for p in py.split(".") for a in abi.split(".") for q in plat.split(".")]


def mkwheel(w: dict, real) -> str:
    """w: fname, dir, members, optional: tags, purelib, distinfo, extra_wheel, norecord,
    record_skip (paths not listed), record_extra (rows), order ('asis'|'reversed'|'recordfirst'), dirs (bool)"""
    d = real(w.get("dir", "/@/in"))
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, w["fname"])
    parts = w["fname"][:-4].split("-")
    di = w.get("distinfo") or f"{parts[0]}-{parts[1]}.dist-info"
    tags = w["tags"] if "tags" in w else wheel_tags(w["fname"])
    meta = "Wheel-Version: 1.0\nGenerator: verif (1)\nRoot-Is-Purelib: %s\n" % w.get("purelib", "false")
    meta += "".join(f"{x}\n" for x in w.get("extra_wheel", []))
    meta += "".join(f"Tag: {t}\n" for t in tags) + "\n"
    members = [(m["p"], file_bytes(m, real), m.get("mode", 0o644), m.get("t") == "dirent")
               for m in w["members"]]
    members.append((f"{di}/METADATA", f"Metadata-Version: 2.1\nName: {parts[0]}\nVersion: {parts[1]}\n".encode(),
                    0o644, False))
    members.append((f"{di}/WHEEL", meta.encode(), w.get("wheel_mode", 0o644), False))
    rec = io.StringIO(newline="")
    wr = csv.writer(rec, lineterminator="\n")
    skip = set(w.get("record_skip", []))
    for p, data, _, isdir in members:
        if p in skip or isdir:
            continue
        wr.writerow((p, b64sha(data), str(len(data))))
    for row in w.get("record_extra", []):
        wr.writerow([real(row[0]), *row[1:]])
    wr.writerow((f"{di}/RECORD", "", ""))
    if not w.get("norecord"):
        members.append((f"{di}/RECORD", rec.getvalue().encode("utf-8"), 0o644, False))
    if w.get("order") == "reversed":
        members.reverse()
    elif w.get("order") == "recordfirst":
        members.insert(0, members.pop())
    date = tuple(w.get("date", (2020, 2, 2, 2, 2, 2)))
    with warnings.catch_warnings(), zipfile.ZipFile(path, "w", compression=zipfile.ZIP_DEFLATED) as z:
        warnings.simplefilter("ignore")
        seen = set()
        for p, data, mode, isdir in members:
            if w.get("dirs"):
                comps = p.rstrip("/").split("/")[:-1]
                for i in range(1, len(comps) + 1):
                    dn = "/".join(comps[:i]) + "/"
                    if dn not in seen:
                        seen.add(dn)
                        zi = zipfile.ZipInfo(dn, date)
                        zi.external_attr = (0o40755 << 16) | 0x10
                        z.writestr(zi, b"")
            if isdir:
                zi = zipfile.ZipInfo(p.rstrip("/") + "/", date)
                zi.external_attr = ((0o40000 | mode) << 16) | 0x10
                z.writestr(zi, b"")
                seen.add(p.rstrip("/") + "/")
                continue
            zi = zipfile.ZipInfo(p, date)
            # mode -1: no unix attributes at all
            zi.external_attr = 0 if mode == -1 else (0o100000 | mode) << 16
            zi.compress_type = zipfile.ZIP_STORED if w.get("stored") else zipfile.ZIP_DEFLATED
            z.writestr(zi, data)
    os.chmod(path, w.get("filemode", 0o644))
    return path
