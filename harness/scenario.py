"""Life cycle of one scenario: materialise, run, observe."""
from __future__ import annotations

import os
import stat

import facts
import ops
import world

FAKE_DPKG_NONE = "#!/bin/sh\nexit 1\n"
# answers from $ROOT/dpkg.tab: lines "path|package|version|architecture"
FAKE_DPKG = """#!/bin/sh
T={root}/dpkg.tab
case "$1" in
--version) exit 0;;
-S) L=$(grep -F "$2|" "$T" | head -1); [ -n "$L" ] || exit 1
    echo "$(echo "$L" | cut -d'|' -f2)$(echo "$L" | cut -d'|' -f4): $2"; exit 0;;
-s) N=${2%:amd64}; L=$(grep -F "|$N|" "$T" | head -1); [ -n "$L" ] || exit 1
    echo "Package: $N"; echo "Version: $(echo "$L" | cut -d'|' -f3)"; exit 0;;
esac
exit 1
"""


def prepare(ctx):
    scn = ctx.scn
    for d in ("in", "tmp", "sys", "bin", "cwd", "out"):
        os.makedirs(os.path.join(ctx.root, d), exist_ok=True)
    if scn.get("no_out"):
        os.rmdir(os.path.join(ctx.root, "out"))
    pk = scn.get("packages")
    with open(os.path.join(ctx.root, "bin", "dpkg"), "w") as f:
        f.write(FAKE_DPKG.replace("{root}", ctx.root) if pk else FAKE_DPKG_NONE)
    os.chmod(os.path.join(ctx.root, "bin", "dpkg"), 0o755)
    if pk:
        with open(os.path.join(ctx.root, "dpkg.tab"), "w") as f:
            for p, name, ver in pk:
                f.write(f"{os.path.realpath(ctx.real(p))}|{name}|{ver}|{':amd64' if name in scn.get('multiarch', []) else ''}\n")
    if "pkgtab" in scn:
        with open(os.path.join(ctx.root, "pkg.tab"), "w") as f:
            for p, *rest in scn["pkgtab"]:
                f.write("|".join([os.path.realpath(ctx.real(p)), *rest]) + "\n")
    for name, text in scn.get("bins", {}).items():
        p = os.path.join(ctx.root, "bin", name)
        with open(p, "w") as f:
            f.write(text.replace("{root}", ctx.root))
        os.chmod(p, 0o755)
    if "osrel" in scn:
        with open(os.path.join(ctx.root, "os-release"), "w") as f:
            f.write(scn["osrel"])
    world.mkfs(scn.get("fs", []), ctx.real)
    for w in scn.get("wheels", []):
        if "copy" in w:
            import shutil
            shutil.copy(w["copy"], ctx.real(w.get("dir", "/@/in")))
        else:
            world.mkwheel(w, ctx.real)
    for p, mode in scn.get("chmod", []):
        os.chmod(ctx.real(p), mode)


def execute(ctx, run_child):
    scn = ctx.scn
    prepare(ctx)
    trace = {k: scn[k] for k in scn if k not in ("fs", "wheels", "bins")}
    trace["fs"] = facts.tree_facts(os.path.join(ctx.root, "sys"), ctx.sub)
    obs = []
    steps = scn["steps"]
    i = 0
    while i < len(steps):
        j = i + 1
        while j < len(steps) and steps[j].get("proc", 0) == steps[i].get("proc", 0):
            j += 1
        group = steps[i:j]
        if group[0]["op"] == "env":
            for st in group:
                obs.append(ops.run_step(ctx, st))
            i = j
            continue
        before = ops.snapshot(ctx)
        pre = [ops.published(ctx, st.get("out", "/@/out")) for st in group]
        res = run_child(ctx, group, scn.get("timeout", 60))
        if res and res[-1].get("died"):
            o = res[-1]
            k = len(res) - 1
            o["op"] = group[k]["op"]
            o.update({"stdout": "", "stderr": "", "js": {}, "cwd": True, "msg": "", "fired": "", "count": 0,
                      "x_pre": pre[k], "x_post": ops.published(ctx, group[k].get("out", "/@/out"))})
            ops.observe(ctx, group[k], before, o)
        obs.extend(res)
        # steps after a death did not run
        for st in group[len(res):]:
            obs.append({"op": st["op"], "exit": 255, "exc": "NOTRUN", "changed": [], "tmp": [], "files": [],
                        "outw": [], "js": {}, "cwd": True, "msg": "", "stdout": "", "stderr": ""})
        i = j
    trace["obs"] = obs
    return trace
