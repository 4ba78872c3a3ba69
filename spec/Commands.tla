------------------------------ MODULE Commands ------------------------------
(* A repair command: its wheels are processed one after another; each is
   analysed (unpacked, read, removed), unpacked, edited, packed beside the
   place of the result, published, cleaned up.  Something may fail anywhere.

   kinds: "ok" (can be repaired), "same" (repaired under its own name),
     "pure" (no binaries, platform independent), "nonpure" (no binaries, but not
     platform independent), "bad" (has to be refused), "absent"
   out: state of the output directory: "none", "empty", "older" (files under
     the names of the results), "inputs" (it is where the wheels are)        *)
EXTENDS Str

\* does a wheel of that kind stop the command?
Stops(kind, pure) == kind \in {"bad", "absent", "nonpure"} \/ (kind = "pure" /\ ~pure)
ResultName(k, kind) == IF kind \in {"same", "pure"} THEN "in" \o ToString(k) ELSE "out" \o ToString(k)
\* directories as sets of <<name, content>>
Put(dir, n, c) == {x \in dir : x[1] # n} \cup {<<n, c>>}
Before(cfg) ==
  CASE cfg.out \in {"none", "empty"} -> {}
    [] cfg.out = "older" -> {<<ResultName(k, cfg.wheels[k]), "older">> : k \in 1..Len(cfg.wheels)}
    [] OTHER -> {<<"in" \o ToString(k), "input">> : k \in {j \in 1..Len(cfg.wheels) : cfg.wheels[j] # "absent"}}
\* a pure wheel in its own directory stays as it is
After(cfg, dir, k) == LET n == ResultName(k, cfg.wheels[k]) IN
  Put(dir, n, IF cfg.wheels[k] = "pure" THEN "input" ELSE "done")
RECURSIVE Upto(_, _)
Upto(cfg, k) == IF k = 0 THEN Before(cfg) ELSE After(cfg, Upto(cfg, k - 1), k)
\* number of wheels a command without faults completes
Completes(cfg) == LET s == {k \in 1..Len(cfg.wheels) : Stops(cfg.wheels[k], cfg.pure)} IN
  IF s = {} THEN Len(cfg.wheels) ELSE Min(s) - 1

\* ------------------------------------------------ the machine
Phases == <<"check", "analyse", "unpack", "edit", "pack", "publish", "clean">>
Start(cfg) == [k |-> 1, ph |-> "check", dir |-> Before(cfg), tmp |-> {}, part |-> "", cwd |-> "home", end |-> "", made |-> cfg.out # "none"]
Advance(s) == IF s.ph = "clean" THEN [s EXCEPT !.k = @ + 1, !.ph = "check"]
              ELSE [s EXCEPT !.ph = Phases[1 + CHOOSE i \in 1..Len(Phases) : Phases[i] = s.ph]]
Unwind(s, how) == [s EXCEPT !.tmp = {}, !.part = "", !.cwd = "home", !.end = how]
\* one step without fault
Step(cfg, s) ==
  IF s.k > Len(cfg.wheels) THEN Unwind(s, "ok")
  ELSE LET kind == cfg.wheels[s.k] IN
  CASE s.ph = "check" -> IF kind = "absent" THEN Unwind(s, "failed") ELSE [Advance(s) EXCEPT !.made = TRUE, !.tmp = {"audit"}]
    [] s.ph = "analyse" -> IF kind \in {"bad", "nonpure"} \/ (kind = "pure" /\ ~cfg.pure) THEN Unwind(s, "failed")
                           ELSE IF kind = "pure" THEN [s EXCEPT !.tmp = {}, !.ph = "pack"]
                           ELSE [Advance(s) EXCEPT !.tmp = {"wheel"}, !.cwd = "wheel"]
    [] s.ph = "unpack" -> Advance(s)
    [] s.ph = "edit" -> Advance(s)
    [] s.ph = "pack" -> [Advance(s) EXCEPT !.part = ResultName(s.k, kind)]
    [] s.ph = "publish" -> [Advance(s) EXCEPT !.part = "", !.dir = After(cfg, @, s.k)]
    [] OTHER -> [Advance(s) EXCEPT !.tmp = {}, !.cwd = "home"]
\* something fails in state s
Break(s, how) == IF how = "kill" THEN [s EXCEPT !.end = "killed"] ELSE Unwind(s, "failed")

\* ------------------------------------------------ what may be seen after the end
\* dir: directory afterwards; end: "ok", "failed", "killed"; k: a number of completed wheels that explains it
Explains(cfg, k, dir, end) ==
  /\ k \in 0..Completes(cfg)
  /\ dir = Upto(cfg, k)
  /\ end = "ok" => k = Len(cfg.wheels)
=============================================================================
