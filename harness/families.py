"""What each property's check explores."""
from __future__ import annotations

import dataclasses
import random
from typing import Callable

import gen
import gen2
import gen3
import models as M

LIMITS = ["worlds are bounded (at most ~12 system libraries, 8 members per wheel); ELF images are synthetic",
          "x86_64 Linux host with patchelf 0.19.1; the TLA+ modules and the projection of files to JSON are trusted"]


@dataclasses.dataclass
class Family:
    prop: str
    gens: list           # (weight, function(rng, id) -> scenario)
    n: int = 240
    models: list = dataclasses.field(default_factory=list)
    case_fn: Callable | None = None    # TLC-enumerated case -> scenario
    case_n: int = 150                  # cases carried out per round (quick); all of them (thorough)
    level: str = "model_checking"
    rule: str = ""
    assumptions: list = dataclasses.field(default_factory=lambda: list(LIMITS))
    max_rounds: int = 10 ** 6
    fixed: Callable | None = None      # deterministic scenarios run in the first round

    def scenarios(self, tier, seed, rnd, cases):
        out = []
        if rnd == 0 and self.fixed:
            out += self.fixed()
        if cases and self.case_fn:
            if tier == "thorough":
                k = 400
                part = cases[rnd * k:(rnd + 1) * k]
            else:
                # the same share of every model's worlds
                ms = sorted({c["m"] for c in cases})
                part, left = [], self.case_n
                for k, m in enumerate(ms):
                    mine = [c for c in cases if c["m"] == m]
                    take = min(len(mine), left // (len(ms) - k))
                    part += random.Random(f"{seed}-cases").sample(mine, take)
                    left -= take
            for c in part:
                s = self.case_fn(c, f"{self.prop}-e{c['n']}")
                if s is not None:
                    out.append(s)
        total = sum(w for w, _ in self.gens)
        n = self.n if tier == "quick" or rnd == 0 else int(self.n * 1.5)
        i = 0
        for w, g in self.gens:
            for _ in range(max(1, round(n * w / total))):
                id_ = f"{self.prop}-{seed}-{rnd}-{i}"
                out.append(g(random.Random(id_), id_))
                i += 1
        return out


RW = ("worlds (system libraries, wheel, options) drawn from VERIF_SEED by harness/gen.py; distinct = different "
      "result (exit status, output entries, report) or file system layout; trivial = nothing written, reported or refused")

FAMILIES: dict[str, Family] = {}


def fam(prop, gens, **kw):
    kw.setdefault("rule", RW)
    FAMILIES[prop] = Family(prop, gens, **kw)


def tset(*xs):
    return "{" + ", ".join(f'"{x}"' for x in xs) + "}"


def mc(module, invs="Inv", extra="", **kw):
    return M.Model(module, cfg=f"SPECIFICATION Spec\nINVARIANT {invs}\nCHECK_DEADLOCK FALSE\n{extra}", **kw)


def repairs(emit=True, **over):
    """MCRepair over a part of its worlds: name=(quick values, further values in the thorough tier)."""
    base = dict(Places=(["deep"], []), Needs=(["a", "ab"], ["pya"]), Others=(["none"], ["ext2d2"]), Paths=(["none"], ["ownsys"]),
                LibAs=(["leaf", "needsb"], []), LibBs=(["leaf"], ["needsa"]), Vers=(["GLIBC_2.17"], []), Plats=(["auto"], []),
                Excludes=(["none"], []), Tags=(["linux"], []))
    base.update(over)
    e = {"Emit": "TRUE" if emit else "FALSE"}
    return mc("MCRepair", extra="CONSTANT PolTable <- SmallTable\n", quick={k: tset(*v[0]) for k, v in base.items()} | e,
              thorough={k: tset(*v[0], *v[1]) for k, v in base.items()} | e)


OTHERS = ["ext2", "ext2d2", "own", "script", "cleanscript"]
RC = dict(case_fn=gen3.repair_case, case_n=110)


def rep(**prof):
    return lambda rng, id_: gen.repair_world(rng, id_, **prof)


fam("C01", [(4, rep()), (1, rep(exclude=0.5)), (1, rep(scripts=0.6, interp=0.7, tool=0.4)), (1, gen.lookalike(rep(dup=0.5, libpy=0.3, cycle=0.4))), (1, lambda r, i: gen.dup_world(r, i, nlibs=(2, 5))), (1, gen.fixup_world)], **RC,
    models=[repairs(Places=(["top", "data"], ["deep"]), Needs=(["a", "ab", "pya"], ["b"]), Others=(["none", "ext2d2", "own"], ["ext2", "script", "cleanscript"]),
                    Paths=(["none", "ownsys"], ["own", "sys"]), LibAs=(["leaf", "needsb", "needspy"], ["absent"]), LibBs=(["leaf", "needsa"], ["guaranteed"]))])
fam("C03", [(3, gen.lookalike(rep(record=0.12, odd=0.15))), (2, rep(missing=0.1, bad=0.2, isa=0.15, black=0.2)), (1, gen.dup_world), (1, gen.fixup_world), (1, gen.unicode_world), (1, gen.foreign_world)], **RC,
    models=[repairs(Needs=(["none", "a", "ab"], ["b"]), Others=(["none", "own"], ["ext2"]), LibAs=(["leaf", "needsb", "absent"], ["needspy"]), LibBs=(["leaf", "guaranteed"], ["needsa"]),
                    Vers=(["GLIBC_2.5", "GLIBC_2.17"], ["GLIBC_2.28", "GLIBC_2.40"]), Plats=(["auto", "manylinux_2_5", "manylinux_2_17"], ["manylinux_2_28"]))])
fam("C05", [(1, rep(sym_max=6)), (1, rep(sym_max=6, odd=0.7, ver=0.1, record=0.2))])
fam("C06", [(2, rep(sym_max=6)), (1, rep(sym_max=6, odd=0.5, ver=0.1, record=0.4)), (1, rep(sym_max=6, scripts=0.6)), (1, rep(sym_max=6, strip=0.9, noupd=0.5, nonpy=(1, 2)))])
fam("C09", [(1, rep(missing=0, bad=0))], case_n=110, case_fn=lambda c, i: gen3.tags_case(c, i) if "reqs" in c else gen3.repair_case(c, i),
    models=[repairs(Needs=(["none", "a"], ["ab"]), LibBs=(["leaf"], ["guaranteed"]), Vers=(["GLIBC_2.5", "GLIBC_2.17"], ["GLIBC_2.28"]),
                    Plats=(["auto", "manylinux_2_5", "manylinux_2_17", "manylinux_2_28"], ["linux"]), Tags=(["linux", "any"], [])),
            mc("MCTags", quick=dict(NamePlats=tset("linux", "any", "two", "anylast"), Pys=tset("two"), Abis=tset("two", "none"), Metas=tset("same", "any", "other"),
                                    Purelibs=tset("true", "false"), Requests=tset("auto", "m17", "only17"), Depth="2", Emit="TRUE"),
               thorough=dict(NamePlats=tset("linux", "any", "one", "two", "mixed", "anylast"), Pys=tset("one", "two", "py"), Abis=tset("one", "two", "none"),
                             Metas=tset("same", "reversed", "first", "twice", "any", "other"), Purelibs=tset("true", "false"),
                             Requests=tset("auto", "m17", "only5", "only28"), Depth="2", Emit="TRUE"))])
fam("C14", [(1, rep(rpath=0.9))], **RC,
    models=[repairs(Places=(["top", "deep", "data"], []), Paths=(["none", "own", "sys", "ownsys"], []), Others=(["none", "own", "script", "cleanscript"], ["ext2d2"]),
                    Needs=(["none", "a"], ["ab", "pya"]), LibAs=(["leaf", "needsb"], []))])
fam("C21", [(1, rep(dup=0.4, nlibs=(2, 6))), (1, gen.dup_world)], **RC,
    models=[repairs(Others=(["ext2", "ext2d2", "own", "script"], ["none"]), LibBs=(["leaf", "needsa", "guaranteed"], []), Places=(["deep", "top"], ["data"]), Needs=(["a", "ab", "b"], ["pya"]),
                    Vers=(["GLIBC_2.5"], ["GLIBC_2.17"]))])

fam("C02", [(3, lambda r, i: gen.show_repair_world(r, i, bad=0.1, isa=0.1, black=0.15)), (1, lambda r, i: gen.show_world(r, i)),
            (1, rep(bad=0.1, isa=0.1, nonpy=(1, 2), dup=0.4)), (1, gen.isa_world), (1, lambda r, i: gen.dup_world(r, i, ver=0.9)), (1, gen.unicode_world), (1, gen.fixup_world), (1, gen.foreign_world)])
fam("C10", [(1, gen.ident_world)], n=480, case_fn=gen3.ident_case, case_n=700,
    models=[mc("MCIdent", quick=dict(Names=tset("linux", "any", "le"), Reqs=tset("show", "many", "manyle"), Archs=tset("x86_64", "ppc64le", "mips64"), LibcKinds=tset("glibc", "musl", "none", "both"),
                                     Kinds=tset("lib", "ext"), Places=tset("plat"), MaxLen="2", Emit="TRUE"),
               thorough=dict(Names=tset("linux", "arm", "any", "two", "many", "musl", "both", "v3", "anylinux", "weird", "le"), Reqs=tset("show", "auto", "many", "manyarm", "musl", "manyle"),
                             Archs=tset("x86_64", "aarch64", "ppc64"), LibcKinds=tset("glibc", "musl", "none", "both"), Kinds=tset("lib", "ext"), Places=tset("plat"), MaxLen="2", Emit="TRUE")),
            mc("MCIdent", quick=dict(Names=tset("any", "many"), Reqs=tset("show"), Archs=tset("x86_64", "ppc64"), LibcKinds=tset("glibc", "musl", "none"),
                                     Kinds=tset("lib", "tagged", "tagmusl", "old"), Places=tset("plat", "pure"), MaxLen="2", Emit="TRUE"),
               thorough=dict(Names=tset("any", "both"), Reqs=tset("show", "musl"), Archs=tset("x86_64", "aarch64", "mips64"), LibcKinds=tset("glibc", "musl", "none"),
                             Kinds=tset("lib", "ext"), Places=tset("plat"), MaxLen="3", Emit="TRUE"))])
fam("C12", [(1, rep(exclude=0.95, nlibs=(2, 6)))], **RC,
    models=[repairs(Needs=(["a", "ab", "pya"], ["b"]), Others=(["none", "ext2d2"], ["own", "script"]), LibBs=(["leaf", "needsa"], ["guaranteed"]), Paths=(["none", "sys"], []),
                    Excludes=(["libB*", "libA.so.1", "/@/sys/d1/*"], ["/@/sys/d2/lib?.so.1", "none"]))])
fam("C17", [(1, lambda r, i: gen.show_world(r, i, bad=0.08, isa=0.05)), (1, lambda r, i: gen.show_world(r, i, black=0.5)), (1, lambda r, i: gen.ident_world(r, i, op="show")), (1, gen.isa_world), (1, gen.unicode_text_world),
            (2, lambda r, i: gen.show_world(r, i, text=True, bad=0.15, isa=0.1, black=0.25, ver=r.choice([0.1, 0.5, 0.9])))])
fam("C22", [(1, gen.lookalike(gen.musl_world)), (1, gen.lookalike(gen.android_world))])

fam("C16", [(2, gen2.pack_world), (1, gen2.archive_repair_world)])
fam("C19", [(1, gen2.script_world)])
fam("C24", [(1, gen2.package_world)])
fam("C20", [(1, gen2.nonbinary_world)])
fam("C15", [(1, gen2.twice_world)], n=180, case_fn=lambda c, i: gen3.repair_case(c, i, twice=True), case_n=60,
    models=[repairs(Others=(["none", *OTHERS], []), Needs=(["a", "ab"], ["pya", "none"]), LibBs=(["leaf", "guaranteed"], ["needsa"]), Tags=(["linux", "any"], []),
                    Plats=(["auto", "manylinux_2_17"], ["linux"]), Paths=(["ownsys"], ["none"]), Excludes=(["none"], ["libB*"]))])
fam("C13", [(1, gen2.session_world)], n=120)
fam("C08", [(1, gen2.repro_world)], n=72)


fam("C07", [(4, gen2.fault_world), (1, gen2.fault_sweep), (2, gen2.tool_sweep), (2, gen2.batch_world)], n=140, case_fn=gen2.batch_case, case_n=60,
    models=[mc("MCCommands", quick=dict(N="2", Kinds=tset("ok", "same", "pure", "nonpure", "bad", "absent"),
                                        Outs=tset("none", "empty", "older", "inputs"), Emit="TRUE"),
               thorough=dict(N="3", Kinds=tset("ok", "same", "pure", "nonpure", "bad", "absent"), Outs=tset("none", "empty", "older", "inputs"), Emit="TRUE"))],
    rule="a repair, or a command over several wheels (enumerated by MCCommands, a sample in the quick tier, and random ones), with a fault at one operation: "
         "error, interrupt, kill, full disk, failing tool; distinct = different outcome or place; trivial = none")

fam("C18", [(1, gen3.patcher_world)], n=160, case_fn=gen3.patcher_case, case_n=200,
    models=[mc("MCPatcher", quick={"N": "3", "Configs": '{"linux", "none", "droid", "old"}'},
               thorough={"N": "4", "Configs": '{"linux", "none"}'})],
    rule="request sequences: all of length N (enumerated by MCPatcher; a sample is replayed in the quick tier) and longer random ones; "
         "distinct = different recorded answers or files; trivial = none")

fam("C04", [(1, gen3.policy_world)], n=120, case_fn=gen3.policy_case, case_n=160, fixed=gen3.policy_all,
    models=[mc("MCPolicy", quick={"LibcsUsed": '{"glibc", "musl", "android"}', "Deep": "FALSE"},
               thorough={"LibcsUsed": '{"glibc", "musl", "android"}', "Deep": "TRUE"})],
    rule="every table (libc x architecture) with all names, aliases and newest versions; random queries; every single alteration "
         "of the published tables enumerated by MCPolicy (a sample in the quick tier) plus random multiple ones")



fam("C11", [(3, gen3.ldd_world), (2, gen3.order_world)], n=330, case_fn=gen3.ldd_case, case_n=240,
    models=[mc("MCLoader", quick=dict(Slots=tset("none", "leaf", "needs", "foreign"), Mains=tset("ab"), MainPaths=tset("rp1", "run1", "none"),
                                      LibPaths=tset("rp2", "run2"), Envs=tset("none", "d2"), Confs=tset("d12"), Excludes=tset("none", "b"), Emit="TRUE"),
               thorough=dict(Slots=tset("none", "leaf", "needs", "foreign", "link"), Mains=tset("ab", "apb"), MainPaths=tset("rp1", "run1", "none"),
                             LibPaths=tset("none", "rp2", "run2"), Envs=tset("none", "d2"), Confs=tset("d12"), Excludes=tset("none", "b", "d1"), Emit="TRUE")),
            mc("MCLoader", quick=dict(Slots=tset("none", "needs", "link"), Mains=tset("aab", "apb"), MainPaths=tset("both"),
                                      LibPaths=tset("none", "run2"), Envs=tset("none"), Confs=tset("none", "d12"), Excludes=tset("none", "d1"), Emit="TRUE"),
               thorough=dict(Slots=tset("none", "leaf", "needs", "self", "foreign", "link"), Mains=tset("ab", "apb"), MainPaths=tset("rp1", "rp2run1"),
                             LibPaths=tset("none", "rp2", "run2"), Envs=tset("none"), Confs=tset("none", "d12"), Excludes=tset("none", "b", "d1"), Emit="FALSE"))],
    rule="placements of compatible, foreign and linked files along search paths, dependency graphs, loader configuration files; "
         "distinct = different trees; trivial = nothing resolved")


def seqs(*qs):
    return tset(*(",".join(q) or "-" for q in qs))


fam("C23", [(1, gen3.config_world)], n=110, case_fn=gen3.config_case, case_n=160,
    models=[mc("MCOptions", quick=dict(PlatCli=seqs([], ["manylinux_2_17_x86_64"], ["manylinux_2_99_x86_64"]), PlatEnv=tset("manylinux_2_28_x86_64", "linux_x86_64"),
                                       ZCli=seqs([], ["9"], ["10"], ["0", "1"]), ZEnv=tset("1", "x", ""), PatCli=seqs([], ["patchelf"], ["foo"]),
                                       PatEnv=tset("none", "patchelf", "foo"), Emit="TRUE"),
               thorough=dict(PlatCli=seqs([], ["manylinux_2_17_x86_64"], ["manylinux_2_99_x86_64"], ["auto", "manylinux1_x86_64"]),
                             PlatEnv=tset("manylinux_2_28_x86_64", "linux_x86_64", "auto"),
                             ZCli=seqs([], ["9"], ["10"], ["0", "1"], ["abc", "5"]), ZEnv=tset("1", "x", "", " 7 "),
                             PatCli=seqs([], ["patchelf"], ["foo"], ["none", "patchelf"]), PatEnv=tset("none", "patchelf", "foo", "lief-patchelf"), Emit="TRUE"))],
    rule="combinations of command line (all spellings, repeated), environment and default enumerated by MCOptions (a sample in the quick tier) "
         "and drawn at random over random wheels; distinct = different outcome; trivial = none")


TEXTS = tset("patchelf 0.14.5", "patchelf 0.14.4", "patchelf 0.9.10", "patchelf 1.0")
fam("C25", [(1, gen3.tools_world)], n=240, case_fn=gen3.tools_case, case_n=200,
    models=[mc("MCTools", quick=dict(N="2", Texts=tset("patchelf 0.14.5", "patchelf 0.14.4"), Strips=tset("none", "works"), Emit="TRUE"),
               thorough=dict(N="2", Texts=TEXTS, Strips=tset("none", "works", "fails", "noexec"), Emit="TRUE"))],
    rule="tools found through PATH (versions, absence, failures) enumerated by MCTools and random ones, over fixed and random wheels; "
         "distinct = different outcome or files; trivial = none")

fam("C26", [(1, gen3.pair_world)], n=70, case_fn=gen3.pair_case, case_n=44,
    models=[mc("MCParallel", extra="PROPERTY Terminates\n", quick=dict(N="2", Shared="FALSE", Strict="FALSE", Outs=tset("none", "empty", "older"), Emit="TRUE"),
               thorough=dict(N="3", Shared="FALSE", Strict="FALSE", Outs=tset("none", "empty", "older"), Emit="FALSE")),
            mc("MCParallel", quick=dict(N="1", Shared="TRUE", Strict="TRUE", Outs=tset("none", "older"), Emit="FALSE"),
               thorough=dict(N="2", Shared="FALSE", Strict="FALSE", Outs=tset("none", "empty", "older"), Emit="TRUE"))],
    rule="two commands into one directory, the second at a point of the first (schedules enumerated by MCParallel, a sample in the quick tier, and random ones); "
         "distinct = different outcome or point; trivial = none")
