"""Runs the check of one property:

  models      exhaustive TLC runs of the design specification (spec/MC*.tla);
              some of them also print the cases they enumerate
  executions  cases (enumerated by TLC or generated from VERIF_SEED) carried out
              by the real code, recorded, and judged by spec/Conform.tla

Exit 0: held; 1: VIOLATION; other: the check itself failed."""
from __future__ import annotations

import argparse
import hashlib
import json
import os
import random
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import families  # noqa: E402
import norm  # noqa: E402
import runner  # noqa: E402
import tlc  # noqa: E402

TOOL_ERR = 2


def load_known(pid):
    p = os.path.join(ROOT, "known_findings.json")
    with open(p) as f:
        d = json.load(f)
    return [k for k in d["findings"] if k["property"] == pid]


def is_known(known, tid, clause):
    for k in known:
        if k.get("case") is not None and k["case"] != tid:
            continue
        if re.fullmatch(k["clause"], clause):
            return k
    return None


def shape(t):
    """What distinguishes one judged execution from another."""
    h = hashlib.sha1()
    for s in t["st"]:
        h.update(json.dumps([s["op"], s["exit"], s["exc"], s["plat"], s["exclude"], s["lib_sdir"],
                             [(w["fname"], [(e["n"], e["elf"]) for e in w["ents"]]) for w in s["outw"]],
                             s["js"], s.get("api", 0), s.get("cfg"), [(x["dir"], x["w"]["fname"]) for x in s.get("found", [])], s["post"], s["fired"].split(" ")[0]], sort_keys=True).encode())
    h.update(json.dumps([(f["p"], f["t"]) for f in t["fs"]]).encode())
    return h.hexdigest()


def nontrivial(t):
    return any(s["outw"] or s["post"] or s["osha"] or s["exit"] or s["js"]["valid"] or s.get("api") or s.get("cfg") for s in t["st"])


def brief(t, verdict):
    s = t["st"][0]
    return {"id": t["id"], "steps": [
        {"op": s["op"], "plat": s["plat"], "exit": s["exit"], "exc": s["exc"],
         "in": [w["fname"] for w in s["inw"]], "out": [w["fname"] for w in s["outw"]],
         "vendored": [e["n"] for w in s["outw"] for e in w["ents"] if e["elf"]][:8]} for s in t["st"][:4]],
        "system_libraries": [f["p"] for f in t["fs"] if f["t"] in ("elf", "link")][:10], "verdict": sorted(verdict)}


def execute(scns):
    return [norm.norm(x) for x in runner.run_all(scns)]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--budget", type=float, default=0, help="seconds for a thorough run")
    ap.add_argument("--replay", help="file written for a violation: run only that case")
    ap.add_argument("--no-models", action="store_true")
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    t0 = time.time()
    fam = families.FAMILIES[pid]
    budget = a.budget or (660 if tier == "thorough" else 0)
    known = load_known(pid)
    ev = {"property": pid, "tier": tier, "seed": a.seed, "level": fam.level, "assumptions": fam.assumptions,
          "violations": 0}
    states = transitions = 0
    models = []
    evaluations = 0
    shapes: set[str] = set()
    samples: list = []
    viols: list[tuple[dict, dict, list[str]]] = []
    hits: dict[str, str] = {}
    judged = 0

    # 1. design models
    cases: list[dict] = []
    if not a.replay and not a.no_models:
        for m in fam.models:
            mt = time.time()
            r = m.run(tier, a.seed)
            models.append({"module": m.module, "states": r.states, "transitions": r.transitions,
                           "cases": len(r.cases), "wall_s": round(time.time() - mt, 1), "bounds": r.bounds})
            states += r.states
            transitions += r.transitions
            for c in r.cases:
                c["m"], c["n"] = len(models) - 1, len(cases)
                cases.append(c)
            if r.error:
                # the model does not depend on the code (except for data read from it)
                if m.data_from_code:
                    viols.append(({"id": m.module, "model": True}, {"id": m.module, "st": [], "fs": []}, ["model: " + r.error]))
                else:
                    sys.stderr.write(f"design model {m.module} fails:\n{r.error}\n")
                    return TOOL_ERR
    random.Random(f"{a.seed}-order").shuffle(cases)      # a thorough run may end before all are carried out

    # 2. executions
    def batch(scns):
        nonlocal evaluations, judged, states
        if not scns:
            return
        traces = execute(scns)
        evaluations += len(traces)
        v, st = tlc.judge(traces, fam.prop)
        states += st
        judged += len(traces)
        for t, s in zip(traces, scns):
            if nontrivial(t):
                h = shape(t)
                if h not in shapes and len(samples) < 4:
                    samples.append(brief(t, v[t["id"]]))
                shapes.add(h)
            bad = []
            for c in v[t["id"]]:
                k = is_known(known, t["id"], c)
                if k:
                    hits.setdefault(k["clause"], f'{k["what"]} (case {t["id"]}, {c})')
                else:
                    bad.append(c)
            if bad:
                viols.append((s, t, bad))

    if a.replay:
        with open(a.replay) as f:
            doc = json.load(f)
        batch([doc["scenario"]])
    else:
        rnd = 0
        while True:
            batch(fam.scenarios(tier, a.seed, rnd, cases))
            rnd += 1
            if viols or time.time() - t0 > budget * 0.85 or rnd >= fam.max_rounds:
                break

    # 3. report
    ev["violations"] = len(viols)
    ev["coverage"] = {
        "states": states, "transitions": max(transitions, states), "traces_validated_against_impl": judged,
        "evaluations": evaluations, "distinct_nontrivial": len(shapes), "rule": fam.rule,
        "models": models, "samples": samples or [{"models": models}],
    }
    ev["wall_s"] = round(time.time() - t0, 2)
    if not a.replay:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for w in hits.values():
        print(f"KNOWN-FINDING: property={pid} {w}")
    if viols:
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        for n, (s, t, bad) in enumerate(viols[:5]):
            p = os.path.join(d, f"{pid}-{n}.json")
            with open(p, "w") as f:
                json.dump({"property": pid, "clauses": bad, "scenario": s, "trace": t}, f, indent=1)
            print(f"  case {t['id']}: {', '.join(sorted(bad)[:6])}")
            print(f"VIOLATION property={pid} replay={p}")
        return 1
    print(f"{pid}: held; {judged} executions judged ({len(shapes)} distinct), {states} states, "
          f"{ev['wall_s']} s")
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except tlc.TlcError as e:
        sys.stderr.write(f"TLC failed: {e}\n")
        code = TOOL_ERR
    sys.exit(code)
