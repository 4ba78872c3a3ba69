------------------------------ MODULE Options ------------------------------
(* How command line, environment and defaults combine.
   cfg: option -> [cli |-> sequence of given values, env |-> [set, v]]      *)
EXTENDS Clauses

OptNames == {"plat", "z", "patcher", "L", "w"}
FromEnv == {"plat", "z", "patcher"}
Defaults == [plat |-> "auto", z |-> "-1", patcher |-> "patchelf", L |-> ".libs", w |-> "wheelhouse/"]

\* ------------------------------------------------ values
RECURSIVE TrimSp(_)
TrimSp(l) == IF l = "" THEN "" ELSE IF At(l, 1) = " " THEN TrimSp(Drop(l, 1))
             ELSE IF At(l, Len(l)) = " " THEN TrimSp(Take(l, Len(l) - 1)) ELSE l
NoInt == 0 - 1000
IntVal(s) ==
  LET t == TrimSp(s)
      neg == t # "" /\ At(t, 1) = "-"
      b == IF t # "" /\ At(t, 1) \in {"-", "+"} THEN Drop(t, 1) ELSE t
  IN IF ~IsDigits(b) \/ Len(b) > 8 THEN NoInt ELSE IF neg THEN 0 - ToNat(b) ELSE ToNat(b)
HostPlats(host) ==
  LET t == PolTable("glibc", host.machine)
  IN {"auto"} \cup UNION {{t[i].name} \cup ToSet(t[i].aliases) : i \in {k \in 1..Len(t) : t[k].base # "linux"}}
ValidFor(o, v, host) ==
  CASE o = "plat" -> v \in HostPlats(host)
    [] o = "z" -> IntVal(v) \in 0..9
    [] o = "patcher" -> v \in {"patchelf", "lief-patchelf", "none"}
    [] OTHER -> TRUE
\* a usage error: some given value is not acceptable
Usage(cfg, host) ==
  \E o \in OptNames : \/ \E i \in 1..Len(cfg[o].cli) : ~ValidFor(o, cfg[o].cli[i], host)
                      \/ o \in FromEnv /\ cfg[o].env.set /\ ~ValidFor(o, cfg[o].env.v, host)
Effective(cfg, o) ==
  IF cfg[o].cli # <<>> THEN Last(cfg[o].cli)
  ELSE IF o \in FromEnv /\ cfg[o].env.set THEN cfg[o].env.v
  ELSE Defaults[o]
EffLevel(cfg) == IF cfg.z.cli = <<>> /\ ~cfg.z.env.set THEN 6 ELSE IntVal(Effective(cfg, "z"))
EffStep(s) == [s EXCEPT !.plat = Effective(s.cfg, "plat"), !.patcher = Effective(s.cfg, "patcher"),
                        !.lib_sdir = Effective(s.cfg, "L"), !.zlevel = EffLevel(s.cfg)]
EffOut(s) == LET w == Effective(s.cfg, "w") IN NormPath(IF StartsWith(w, "/") THEN w ELSE s.cwdir \o "/" \o w)

\* ------------------------------------------------ verdict
\* s.found: every wheel outside the input directory afterwards: [dir, w, lv]
ConfigVerdict(tr, sys, s) ==
  IF Usage(s.cfg, tr.host)
  THEN Need(s.exit # 0 /\ s.exc = "SystemExit", "invalid-accepted") \cup Need(s.changed = <<>> /\ s.found = <<>>, "invalid-wrote")
  ELSE
  LET e == EffStep(s)
      wi == s.inw[1]
      pl == TLCEval(Plan(wi, sys, e, tr.host))
      n == Len(s.found)
  IN CASE e.patcher = "lief-patchelf" -> Need(s.exit # 0, "patcher") \cup Need(n = 0, "patcher-wrote")
       [] pl.kind = "refuse" -> Need(s.exit # 0, "accepted(" \o pl.why \o ")") \cup Need(n = 0, "wheel-written")
       [] pl.kind = "copy" -> {}
       [] OTHER ->
          IF s.exit # 0 THEN {"refused"}
          ELSE IF n # 1 THEN {"wheels-written"}
          ELSE LET wo == s.found[1].w IN
               Need(s.found[1].dir = EffOut(s), "directory")
               \cup Need(\A x \in ToSet(s.touched) : x = EffOut(s) \o "/" \o wo.fname, "other-files")
               \cup {"platform:" \o x : x \in C09Wheel(pl, e, wi, wo)}
               \cup {"vendored:" \o x : x \in C21Wheel(pl, e, wi, wo)}
               \cup {"level:" \o s.found[1].lv[i].n : i \in {k \in 1..Len(s.found[1].lv) : EffLevel(s.cfg) \notin ToSet(s.found[1].lv[k].v)}}
\* the same effective values have the same effect, wherever they come from
SameValues(a, b) == /\ a.plat = b.plat /\ a.patcher = b.patcher /\ a.lib_sdir = b.lib_sdir /\ a.zlevel = b.zlevel
                    /\ a.exclude = b.exclude /\ a.only_plat = b.only_plat /\ a.update_tags = b.update_tags /\ a.strip = b.strip
TwinVerdict(tr) ==
  UNION {{"twin:" \o ToString(p[1]) \o "-" \o ToString(p[2])} : p \in
    {q \in (1..Len(tr.st)) \X (1..Len(tr.st)) :
       /\ q[1] < q[2]
       /\ LET a == tr.st[q[1]] b == tr.st[q[2]] IN
          /\ ~Usage(a.cfg, tr.host) /\ ~Usage(b.cfg, tr.host)
          /\ SameValues(EffStep(a), EffStep(b))
          /\ \/ a.exit # b.exit
             \/ Len(a.found) # Len(b.found)
             \/ Len(a.found) = 1 /\ (a.found[1].w.sha # b.found[1].w.sha \/ a.found[1].w.fname # b.found[1].w.fname)}}
OptionsVerdict(tr, sys) ==
  TwinVerdict(tr) \cup UNION {{ToString(i) \o ":" \o x : x \in ConfigVerdict(tr, sys, tr.st[i])} : i \in 1..Len(tr.st)}
=============================================================================
