"""Design models (spec/MC*.tla) checked by TLC."""
from __future__ import annotations

import dataclasses
import json
import re

import tlc


@dataclasses.dataclass
class Result:
    states: int
    transitions: int
    cases: list
    error: str
    bounds: str


CASE = re.compile(r'<<"CASE", "((?:[^"\\]|\\.)*)">>')


@dataclasses.dataclass
class Model:
    module: str
    cfg: str = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
    quick: dict = dataclasses.field(default_factory=dict)      # CONSTANTS
    thorough: dict | None = None
    bounds: str = ""
    env: dict = dataclasses.field(default_factory=dict)
    data_from_code: bool = False
    workers: int = 8

    def run(self, tier, seed):
        consts = self.quick if tier == "quick" or self.thorough is None else self.thorough
        cfg = self.cfg + ("CONSTANTS\n" + "".join(f"  {k} = {v}\n" for k, v in consts.items()) if consts else "")
        env = {k: (v() if callable(v) else v) for k, v in self.env.items()}
        out = tlc.run(self.module, cfg, env, workers=self.workers)
        cases = []
        for m in CASE.finditer(out):
            cases.append(json.loads(json.loads('"' + m.group(1) + '"')))
        cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
        for i, c in enumerate(cases):
            c["n"] = i
        gen, dist = tlc.stats(out)
        out = CASE.sub("", out)
        err = "" if tlc.ok(out) else (re.search(r"(Error: .*)", out, re.S) or re.search(r"(.*)", out, re.S)).group(1)[:4000]
        b = self.bounds + (" " + ", ".join(f"{k}={v}" for k, v in consts.items()) if consts else "")
        return Result(dist, gen, cases, err, b.strip())
