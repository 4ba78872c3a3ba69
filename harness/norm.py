"""Projection of recorded scenarios to the total JSON vocabulary of Conform.tla."""
from __future__ import annotations

import hashlib
import json
import os

import jsonschema

import facts

HERE = os.path.dirname(os.path.abspath(__file__))
_schema = None


def schema_valid(doc) -> bool:
    global _schema
    if _schema is None:
        with open(os.path.join(HERE, "..", "spec", "policies", "show-schema.json")) as f:
            _schema = jsonschema.Draft202012Validator(json.load(f))
    return _schema.is_valid(doc)


EMPTY_JS = {"valid": False, "kind": "none", "version": 0, "wheel": "", "pure": False, "overall_tag": "",
            "sym_tag": "", "pyfpe": False, "ucs2": False, "unsupported_isa": False, "versioned_symbols": [],
            "external_libs": [], "policy_upgrades": [], "error": ""}


def norm_js(js, sub=lambda s: s):
    o = dict(EMPTY_JS)
    if not isinstance(js, dict) or not js or not schema_valid(js):
        return o
    o["valid"] = True
    o["version"] = js["version"]
    o["wheel"] = js["wheel"]
    o["kind"] = "error" if "error" in js else "pure" if js["pure"] else "platform"
    if o["kind"] == "error":
        o["error"] = js["error"]
    o["pure"] = bool(js.get("pure", False))
    if o["kind"] == "platform":
        for k in ("overall_tag", "sym_tag", "pyfpe", "ucs2", "unsupported_isa"):
            o[k] = js[k]
        o["versioned_symbols"] = [{"k": k, "v": v} for k, v in js["versioned_symbols"].items()]
        o["external_libs"] = [{"k": k, "v": v or ""} for k, v in js["external_libs"].items()]
        o["policy_upgrades"] = [
            {"k": k, "libs": v.get("libs_to_eliminate", []),
             "black": [{"k": a, "v": b} for a, b in v.get("blacklisted_symbols", {}).items()]}
            for k, v in js["policy_upgrades"].items()]
    return o


def norm_step(st: dict, ob: dict) -> dict:
    env = st.get("env", {})
    sde = env.get("SOURCE_DATE_EPOCH", "1600000000")
    try:
        sde = int(sde) if sde else -1
    except ValueError:
        sde = -1
    s = {
        "op": st["op"], "plat": st.get("plat", "auto"), "exclude": st.get("exclude", []),
        "only_plat": bool(st.get("only_plat")), "update_tags": not st.get("no_update_tags", False),
        "strip": bool(st.get("strip")), "lib_sdir": st.get("lib_sdir", ".libs"),
        "zlevel": st.get("zlevel", -1), "patcher": st.get("patcher", "patchelf"),
        "noisa": bool(st.get("noisa")), "pure": bool(st.get("pure")),
        "ldp": {"set": st.get("ldpaths") is not None, "v": st.get("ldpaths") or ""},
        "awld": env.get("AUDITWHEEL_LD_LIBRARY_PATH") or "", "ldlib": env.get("LD_LIBRARY_PATH") or "",
        "sde": sde, "json": bool(st.get("json", True)), "verbose": bool(st.get("verbose")), "proc": st.get("proc", 0), "tag": st.get("tag", ""),
        "nwheels": len(st.get("wheels", [])), "out": st.get("out", "/@/out"),
        "exit": ob["exit"], "exc": ob["exc"], "cwd": ob.get("cwd", True), "changed": ob.get("changed", []),
        "tmp": ob.get("tmp", []), "files": ob.get("files", []), "outw": ob.get("outw", []),
        "inw": ob.get("inw", []), "fired": ob.get("fired", ""), "died": bool(ob.get("died")),
        "text": " ".join(ob.get("stdout", "").split()),
        "js": norm_js(ob.get("js")),
    }
    for k in ("fault",):
        if k in st:
            s["faultkind"] = st[k]["kind"]
    s.setdefault("faultkind", "")
    lower = [ob[k] for k in ("x_log", "x_trees", "x_pols", "x_queries", "x_err", "x_tree") if k in ob]
    if lower:
        s["api"] = hashlib.sha1(json.dumps(lower, sort_keys=True).encode()).hexdigest()
    for k, v in ob.items():
        if k.startswith("x_"):
            s[k[2:]] = v
    for k in ("pre", "post", "paths", "atfire", "touched"):
        s.setdefault(k, [])
    s.setdefault("removing", False)
    s.setdefault("oexit", -1)
    s.setdefault("mid", [])
    s.setdefault("osha", "")
    s["platform"] = st.get("platform", "manylinux_2_28_x86_64")
    s["tools"] = st.get("tools", [])
    s["grp"], s["sub"] = st.get("grp", 0), st.get("sub", 0)
    return s


def host_interpreters(fs, tr):
    """Program interpreters named by an ELF file that exist on this machine."""
    es = [f["e"] for f in fs if f["t"] == "elf"]
    es += [e["e"] for o in tr["obs"] for w in o.get("inw", []) for e in w["ents"] if e["elf"]]
    out = []
    for i in sorted({e.get("interp", "") for e in es}):
        if i.startswith("/") and not i.startswith("/@") and os.path.exists(i):
            with open(i, "rb") as f:
                data = f.read()
            ef = facts.elf_facts(data)
            if ef is not None:
                ef["syms"] = []
                out.append({"p": i, "t": "elf", "sha": facts.sha256(data), "mode": 0o755, "e": ef})
    return out


def norm(tr: dict) -> dict:
    host = {"libc": "glibc", "musl": "", "machine": "x86_64"}
    host.update(tr.get("host", {}))
    fs = []
    for f in tr["fs"]:
        g = {"p": f["p"], "t": f["t"]}
        if f["t"] == "link":
            g["to"] = f["to"]
        elif f["t"] in ("file", "elf"):
            g["sha"] = f["sha"]
            g["mode"] = f["mode"]
            if f["t"] == "elf":
                g["e"] = f["e"]
        fs.append(g)
    fs += host_interpreters(fs, tr)
    pk = [{"p": p, "name": n, "version": v, "purl": purl} for p, n, v, purl in tr.get("pkgs", [])]
    return {"id": tr["id"], "host": host, "fs": fs, "pkgs": pk, "kind": tr.get("kind", ""),
            "st": [norm_step(st, ob) for st, ob in zip(tr["steps"], tr["obs"])]}
